// C22, C26: table set-up with faults (compiled with -include fault_pre.h)
#include "common.h"
#include <new>
#include <cstdlib>
using namespace ada::idna;
static const size_t MAXB = 40;
static size_t mode = 0, fired = 0, burst_at = 0, burst_n = 0, new_size = 0;
static u8 burst[MAXB];
static bool once = false;
enum { OK = 0, NO_MEMORY = 1, REFUSED = 2, OTHER_SIZE = 3, CORRUPT = 4 };
static void* fault_new(size_t n) {
  if (mode == NO_MEMORY && !(once && fired)) {
    fired++;
    return nullptr;
  }
  return operator new[](n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault_new(n); }
namespace ada::idna::deflate {
size_t inflate_wrapped(const uint8_t* src, size_t src_len, uint8_t* dst, size_t dst_cap) {
  size_t n = inflate_genuine(src, src_len, dst, dst_cap);
  if (mode <= NO_MEMORY || (once && fired)) return n;
  fired++;
  if (mode == REFUSED) return 0;
  if (mode == OTHER_SIZE) return new_size;
  for (size_t i = 0; i < burst_n; i++) dst[burst_at + i] ^= burst[i];
  return n;
}
}
static bool nonempty_map_fails(char32_t c) {
  std::u32string in(1, c), out(U"zz");
  bool r = map(in, out);
  return !r && out.empty();
}
// every kind of fault; k chooses one
static void inject(size_t k) {
  once = sym_param("once", 0);
  mode = k;
  if (k == OTHER_SIZE) new_size = 224000 + sym_u8("size");  // never the real size (224608)
  if (k == CORRUPT) {
    burst_at = sym_param("at", 1000);
    burst_n = 1;
    burst[0] = sym_u8("burst");
    sym_assume(burst[0] != 0);
  }
}
template <class F>
static void fail_closed(F f) {
  f();
  f();
}
extern "C" {
// the operation itself triggers the set-up, which fails; then once more
void op_codepoint() {
  inject(sym_param("fault", 1));
  u32 c = sym_u32("c");
  size_t op = sym_param("op", 0);
  fail_closed([&] {
    std::u32string s(1, (char32_t)c);
    if (op == 0) {
      sym_check(nonempty_map_fails((char32_t)c), "C22.map");
      sym_check(map(std::u32string_view(s)).empty(), "C22.map");
    } else if (op == 1) {
      std::u32string t = s;
      sym_check(!normalize(t), "C22.normalize");
      sym_check(t == s, "C22.unchanged");
    } else if (op == 2) {
      sym_check(!is_already_nfc(s), "C22.nfc");
    } else if (op == 3) {
      sym_check(!is_label_valid(s), "C22.label");
      s.push_back((char32_t)c);
      sym_check(!is_label_valid(s), "C22.label");
    } else {
      bool first = sym_bool("first");
      bool r = valid_name_code_point((char32_t)c, first);
      bool ascii = c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (first ? c == '_' : c >= '0' && c <= '9');
      sym_check(!r || c < 128, "C22.ident");
      sym_check(!ascii || r, "C22.ident-ascii");
    }
  });
  sym_reach("done");
}
// to_ascii, to_unicode of any UTF-8 bytes behind fixed ones
static size_t name(char* b) {
  static const char* const fix[] = {"", "a.xn--", "\xc3\xa9.", "xn--mnchen-3ya."};
  const char* f = fix[sym_param("pre", 0)];
  size_t k = strlen(f), n = sym_param("n", 3);
  memcpy(b, f, k);
  for (size_t i = 0; i < n; i++) b[k + i] = (char)sym_u8("b");
  return k + n;
}
void op_domain() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  inject(sym_param("fault", 1));
  char b[40];
  size_t n = name(b);
  std::string_view v(b, n);
  bool ascii = true;
  for (size_t i = 0; i < n; i++) ascii = ascii && (u8)b[i] < 128;
  fail_closed([&] {
    if (sym_param("op", 0) == 0) {
      std::string out("zz");
      bool r = to_ascii(v, out);
      if (ascii) {
        sym_check(r && out.size() == n, "C22.ascii");
        bool ok = out.size() == n;
        for (size_t i = 0; i < n && ok; i++) ok = ok && (u8)out[i] == ((u8)b[i] >= 'A' && (u8)b[i] <= 'Z' ? (u8)b[i] + 32 : (u8)b[i]);
        sym_check(ok, "C22.ascii");
        sym_reach("ascii");
      } else {
        sym_check(!r && out.empty(), "C22.to_ascii");
        sym_check(to_ascii(v).empty(), "C22.to_ascii");
        sym_reach("other");
      }
    } else {
      std::string out("zz");
      sym_check(to_unicode(v, out), "C22.to_unicode");
      sym_check(spec::same((const u8*)out.data(), out.size(), (const u8*)b, n), "C22.to_unicode");
      sym_reach(ascii ? "ascii" : "other");
    }
  });
}
// transcoding, Punycode, lower-casing work without tables, before and after a failed set-up
void op_tableless() {
  inject(sym_param("fault", 1));
  (void)nonempty_map_fails(U'a');
  u32 c = sym_u32("c");
  spec::Seq<u8, 64> want;
  bool ok = spec::puny_encode(&c, 1, want);
  std::string out;
  char32_t cc = (char32_t)c;
  bool r = utf32_to_punycode(std::u32string_view(&cc, 1), out);
  sym_check(r == ok, "C22.puny");
  if (ok && r) sym_check(spec::same((const u8*)out.data(), out.size(), want.d, want.n), "C22.puny");
  char u8b[8];
  size_t k = utf32_to_utf8(&cc, 1, u8b);
  spec::Seq<u8, 8> w8;
  if (spec::utf8_encode(&c, 1, w8)) sym_check(spec::same((const u8*)u8b, k, w8.d, w8.n), "C22.utf8");
  else sym_check(k == 0, "C22.utf8");
  char b[3] = {(char)sym_u8("b"), (char)sym_u8("b"), (char)sym_u8("b")};
  bool f = false;
  for (char x : b) f = f || (u8)x <= 32 || (u8)x >= 127 || (x && std::string_view("#/:<>?@[\\]^|%").find(x) != std::string_view::npos);
  sym_check(contains_forbidden_domain_code_point(std::string_view(b, 3)) == f, "C22.forbidden");
  sym_check(!is_label_valid(std::u32string_view(&cc, 1)) && is_label_valid(std::u32string_view()), "C22.label");
  sym_reach("done");
}
// C26: with the payload changed in up to 32 consecutive bits no table is used
void corrupt() {
  mode = CORRUPT;
  size_t bits = sym_param("bits", 32), off = sym_param("off", 0);
  burst_at = sym_param("at", 0);
  u64 v = bits == 32 ? sym_u32("burst") : bits == 16 ? sym_u16("burst") : sym_u8("burst") & ((1u << bits) - 1);
  sym_assume(v != 0);
  v <<= off;
  burst_n = (bits + off + 7) / 8;
  for (size_t i = 0; i < burst_n; i++) burst[i] = (u8)(v >> (8 * i));
  u32 c = sym_param("cp", 0) ? sym_u32("c") : 0xe9;
  sym_check(nonempty_map_fails((char32_t)c), "C26.gate");
  sym_check(!valid_name_code_point((char32_t)c | 0x80, false), "C26.gate");
  sym_reach("corrupt");
}
// a decompressor that reports any other size
void other_size() {
  mode = OTHER_SIZE;
  new_size = sym_u64("size");
  sym_assume(new_size != 224608);
  sym_check(nonempty_map_fails(0xe9), "C26.size");
  sym_check(nonempty_map_fails('a'), "C26.size");
  sym_reach("size");
}
}
