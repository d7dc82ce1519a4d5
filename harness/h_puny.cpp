// C03 - C06
#include "common.h"
using namespace ada::idna;
// '*' any byte, '#' a digit, '?' any byte but the delimiter, others as they are
static const char* const shapes[] = {
#include "puny_shapes.inc"
};
enum { CAP = 320 };
static size_t input(u8* in) {
  size_t n = sym_param("n", 1);
  size_t t = sym_param("t", 9999);
  if (t < sizeof shapes / sizeof *shapes) {
    const char* s = shapes[t];
    if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
    for (n = 0; s[n]; n++) {
      in[n] = s[n] == '*' || s[n] == '#' || s[n] == '?' ? sym_u8("b") : (u8)s[n];
      if (s[n] == '#') sym_assume(spec::digit(in[n]) < 36);
      if (s[n] == '?') sym_assume(in[n] != '-');
    }
    return n;
  }
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("sd", 0)) sym_policy(P_SPLITDIV, 1);
  if (sym_param("il", 0)) {
    u32 t[24];
    sym_interleaved(t, n, 8, "b");
    for (size_t i = 0; i < n; i++) in[i] = (u8)t[i];
  } else {
    sym_bytes(in, n, "b");
  }
  // `pre` bytes (not all ASCII, perhaps), a delimiter, then bytes that are no delimiter
  size_t pre = sym_param("pre", 0);
  if (pre) {
    in[pre] = '-';
    if (sym_param("fixed", 0))
      for (size_t i = 0; i < pre; i++) in[i] = (u8)('a' + i);
    for (size_t i = pre + 1; i < n; i++) sym_assume(in[i] != '-');
  }
  // a run of large digits, so that the bytes after it decide overflow
  size_t at = pre ? pre + 1 : 0, nines = sym_param("nines", 0);
  for (size_t i = 0; i < nines; i++) in[at + i] = (u8)sym_param("digit", '9');
  // digits only after the first `free` bytes, and no delimiter: reaches deep deltas
  size_t free = sym_param("free", 99);
  for (size_t i = free; i < n; i++) sym_assume(spec::digit(in[i]) < 36);
  return n;
}
// C04: decoding against RFC 3492
extern "C" void puny_decode() {
  u8 in[CAP];
  size_t n = input(in);
  static spec::Seq<u32, CAP> want;
  want.n = 0;
  bool ok = spec::puny_decode(in, n, want);
  std::u32string out;
  bool got = punycode_to_utf32(std::string_view((const char*)in, n), out);
  sym_check(ok == got, "C04.accept");
  if (ok && got) {
    sym_check(spec::same(out.data(), out.size(), want.d, want.n), "C04.value");
    sym_reach("accept");
  } else {
    sym_reach("refuse");
  }
}
// C05: the verifier against the decoder
extern "C" void puny_verify() {
  u8 in[CAP];
  size_t n = input(in);
  std::string_view s((const char*)in, n);
  std::u32string out;
  bool a = punycode_to_utf32(s, out), b = verify_punycode(s);
  sym_check(a == b, "C05.agree");
  if (a) sym_reach("accept");
  else sym_reach("refuse");
}
// C03: every accepted string of scalar values is the encoding of what it decodes to
extern "C" void puny_back() {
  u8 in[CAP];
  size_t n = input(in);
  std::string_view s((const char*)in, n);
  std::u32string out;
  if (!punycode_to_utf32(s, out)) return;
  bool sc = true;
  for (size_t i = 0; i < out.size(); i++) sc = sc && spec::scalar(out[i]);
  if (!sc) return;
  std::string enc;
  bool ok = utf32_to_punycode(out, enc);
  sym_check(ok, "C03.encodable");
  sym_check(spec::same((const u8*)enc.data(), enc.size(), in, n), "C03.unique");
  sym_reach("accept");
}
// n code points, each in a window [base_i, base_i + 2^bits)
static const char* const basename_[] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15"};
static const char* const bitsname_[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11", "k12", "k13", "k14", "k15"};
static void label(u32* in, size_t n) {
  size_t k = sym_param("bits", 32);
  if (sym_param("il", 1)) sym_interleaved(in, n, k, "c");
  else
    for (size_t i = 0; i < n; i++) {
      in[i] = sym_u32("c");
      if (k < 32) sym_assume(in[i] >> k == 0);
    }
  for (size_t i = 0; i < n; i++) {
    size_t ki = sym_param(bitsname_[i], k);
    if (ki < k) sym_assume(in[i] >> ki == 0);
    in[i] += (u32)sym_param(basename_[i], 0);
  }
}
// a run of c, n code points each with a base and k free bits, another run
static size_t shape(u32* in) {
  size_t n = sym_param("n", 1), at = 0, pre = sym_param("pre", 0), post = sym_param("post", 0);
  for (size_t i = 0; i < pre; i++) in[at++] = (u32)sym_param("c", 'a');
  for (size_t i = 0; i < n; i++) {
    size_t k = sym_param(bitsname_[i], 0);
    u32 v = k ? sym_u32("c") : 0;
    if (k && k < 32) sym_assume(v >> k == 0);
    in[at++] = v + (u32)sym_param(basename_[i], 0);
  }
  for (size_t i = 0; i < post; i++) in[at++] = (u32)sym_param("d", 'b');
  return at;
}
static size_t label_in(u32* in) {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("sd", 0)) sym_policy(P_SPLITDIV, 1);
  if (sym_param("shape", 0)) return shape(in);
  size_t n = sym_param("n", 1);
  label(in, n);
  return n;
}
// C06: encoding against RFC 3492, C03: decoding the result gives the label back
extern "C" void puny_encode() {
  u32 in[CAP];
  size_t n = label_in(in);
  static spec::Seq<u8, 2 * CAP> want;
  want.n = 0;
  bool ok = spec::puny_encode(in, n, want);
  std::string out("Q-");
  bool got = utf32_to_punycode(std::u32string_view((const char32_t*)in, n), out);
  sym_check(ok == got, "C06.accept");
  if (ok && got) {
    sym_check(out.size() == want.n + 2 && out[0] == 'Q' && out[1] == '-', "C06.prefix");
    sym_check(spec::same((const u8*)out.data() + 2, out.size() - 2, want.d, want.n), "C06.value");
    sym_reach("accept");
  } else {
    sym_reach("refuse");
  }
}
extern "C" void puny_round() {
  u32 in[CAP];
  size_t n = label_in(in);
  std::string out;
  if (!utf32_to_punycode(std::u32string_view((const char32_t*)in, n), out)) return;
  std::u32string back;
  bool ok = punycode_to_utf32(out, back);
  bool ace = n >= 4 && in[0] == 'x' && in[1] == 'n' && in[2] == '-' && in[3] == '-';
  sym_check(ok != ace, "C03.accept");
  if (ok) sym_check(spec::same(back.data(), back.size(), in, n), "C03.inverse");
  sym_reach("accept");
}
