// C13, C19, C21 (limits)
#include "common.h"
#include "ada/idna/to_ascii.h"
#include "ada/idna/to_unicode.h"
using namespace ada::idna;
static bool lowered(const char* in, const char* out, size_t n) {
  u8 bad = 0;
  for (size_t i = 0; i < n; i++) {
    u8 c = in[i], d = out[i];
    u8 w = c >= 'A' && c <= 'Z' ? c + 32 : c;
    bad |= w ^ d;
  }
  return bad == 0;
}
extern "C" {
void ascii_domain() {
  size_t n = sym_param("n", 1), off = sym_param("off", 0);
  static char in[64];
  for (size_t i = 0; i < n; i++) in[off + i] = sym_u8("c") & 127;
  std::string out("Old Text That Was Here Before The Call");
  bool ok = to_ascii(std::string_view(in + off, n), out);
  sym_check(ok, "C13.accept");
  sym_check(out.size() == n, "C13.length");
  sym_check(out.size() != n || lowered(in + off, out.data(), n), "C13.lower");
  std::string s = to_ascii(std::string_view(in + off, n));
  sym_check(s.size() == n && lowered(in + off, s.data(), n), "C13.string");
  sym_reach("converted");
}
void ascii_inplace() {
  size_t n = sym_param("n", 1), off = sym_param("off", 0);
  char buf[80], was[80];
  for (size_t i = 0; i < 80; i++) buf[i] = was[i] = sym_u8("c") & (i >= off && i < off + n ? 127 : 255);
  ascii_map(buf + off, n);
  u8 bad = 0;
  for (size_t i = 0; i < 80; i++)
    if (i < off || i >= off + n) bad |= (u8)buf[i] ^ (u8)was[i];
  sym_check(bad == 0, "C13.outside");
  sym_check(lowered(was + off, buf + off, n), "C13.inplace");
  sym_reach("mapped");
}
// a block of exactly n bytes: the engine (natively the sanitizer) sees any access behind it
void ascii_exact() {
  size_t n = sym_param("n", 1);
  char* p = new char[n ? n : 1];
  char* q = new char[n ? n : 1];
  for (size_t i = 0; i < n; i++) p[i] = q[i] = sym_u8("c") & 127;
  ascii_map(p, n);
  sym_check(lowered(q, p, n), "C13.exact");
  delete[] p;
  delete[] q;
  sym_reach("mapped");
}
// long inputs: free bytes every `step` bytes
void ascii_long() {
  size_t n = sym_param("n", 16384), step = sym_param("step", 1021);
  char* in = new char[n];
  for (size_t i = 0; i < n; i++) in[i] = i % step == step - 1 || i + 3 >= n ? (char)(sym_u8("c") & 127) : "aZ.-X9n"[i % 7];
  std::string out("x");
  bool ok = to_ascii(std::string_view(in, n), out);
  sym_check(ok == (n <= 16384), "C13.accept");
  if (ok) {
    sym_check(out.size() == n && lowered(in, out.data(), n), "C13.lower");
  }
  delete[] in;
  sym_reach("long");
}
// C21: the length limit
void limit_ascii() {
  size_t n = sym_param("n", 16385);
  char* in = new char[n];
  for (size_t i = 0; i < n; i++) in[i] = "abc.xn"[i % 6];
  for (size_t i = 0; i < 3; i++) in[n / 2 + i] = sym_u8("c") & 127;
  std::string_view v(in, n);
  std::string a("left"), u("over");
  bool ka = to_ascii(v, a), ku = to_unicode(v, u);
  sym_check(ka == (n <= 16384), "C21.limit_ascii");
  sym_check(ku == (n <= 16384), "C21.limit_unicode");
  if (n > 16384) sym_check(a.empty() && u.empty(), "C21.limit_empty");
  std::string sa = to_ascii(v), su = to_unicode(v);
  sym_check(sa.size() == (n <= 16384 ? n : 0), "C21.limit_ascii_string");
  sym_check(spec::same(su.data(), su.size(), in, n), "C21.limit_unicode_string");
  delete[] in;
  sym_reach("limit");
}
// any length beyond the limit, the text is never looked at
void limit_any() {
  u64 n = sym_u64("n");
  sym_assume(n > 16384 && n < (1ull << 40));
  static const char text[16] = "abcdefghijklmno";
  std::string a("left"), u("over");
  bool ka = to_ascii(std::string_view(text, n), a), ku = to_unicode(std::string_view(text, n), u);
  sym_check(!ka && a.empty(), "C21.over_ascii");
  sym_check(!ku && u.empty(), "C21.over_unicode");
  sym_reach("over");
}
// C19
void forbidden() {
  size_t n = sym_param("n", 1);
  char* p = new char[n ? n : 1];
  bool want = false;
  for (size_t i = 0; i < n; i++) {
    u8 c = sym_u8("c");
    p[i] = (char)c;
    want = want || c <= 0x20 || c >= 0x7f || c == '#' || c == '%' || c == '/' || c == ':' || c == '<' || c == '>' || c == '?' || c == '@' || c == '[' || c == '\\' || c == ']' || c == '^' || c == '|';
  }
  bool got = contains_forbidden_domain_code_point(std::string_view(p, n));
  sym_check(got == want, "C19.iff");
  if (want) sym_reach("forbidden");
  else sym_reach("clean");
  delete[] p;
}
}

// C15: refused for its length alone, the output held something
extern "C" void over_empty() {
  size_t n = sym_param("n", 16385);
  std::string in(n, 'a'), out("left over");
  for (size_t i = 0; i < 3; i++) in[i * (n / 3)] = (char)sym_u8("b");
  if (to_ascii(in, out)) {
    sym_check(out.size() >= n, "C15.size");
    return;
  }
  sym_check(out.empty(), "C15.empty");
  sym_reach("refused");
}
