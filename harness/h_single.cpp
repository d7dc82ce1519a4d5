// C29: the single-file distribution against the library, both compiled into one program
#define SYM_INIT_OWN
#include "h_pipe.cpp"
namespace single {
bool ascii_into(std::string_view v, std::string& o);
std::string ascii(std::string_view v);
bool unicode_into(std::string_view v, std::string& o);
std::string unicode(std::string_view v);
bool forbidden(std::string_view v);
bool verify(std::string_view v);
bool decode(std::string_view v, std::u32string& o);
bool encode(std::u32string_view v, std::string& o);
bool map_into(std::u32string_view v, std::u32string& o);
std::u32string map_of(std::u32string_view v);
bool norm(std::u32string& v);
bool nfc(std::u32string_view v);
bool label(std::u32string_view v);
bool ident(char32_t c, bool f);
size_t len32(const char* p, size_t n);
size_t to32(const char* p, size_t n, char32_t* o);
size_t len8(const char32_t* p, size_t n);
size_t to8(const char32_t* p, size_t n, char* o);
void amap(char* p, size_t n);
}
template <class S> static bool same(const S& a, const S& b) {
  if (a.size() != b.size()) return false;
  auto d = a[0] ^ a[0];
  for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i];
  return d == 0;
}
static void bytes(std::string_view v, size_t op) {
  std::string a("old"), b("old");
  if (op == 0) {
    bool x = to_ascii(v, a), y = single::ascii_into(v, b);
    sym_check(x == y, "to_ascii");
    sym_check(same(a, b), "to_ascii output");
  } else if (op == 1) {
    bool x = to_unicode(v, a), y = single::unicode_into(v, b);
    sym_check(x == y, "to_unicode");
    sym_check(same(a, b), "to_unicode output");
  } else if (op == 2) {
    sym_check(same(to_ascii(v), single::ascii(v)), "to_ascii string");
    sym_check(same(to_unicode(v), single::unicode(v)), "to_unicode string");
  } else if (op == 3) {
    sym_check(contains_forbidden_domain_code_point(v) == single::forbidden(v), "forbidden");
    sym_check(verify_punycode(v) == single::verify(v), "verify_punycode");
    std::u32string p(U"old"), q(U"old");
    bool x = punycode_to_utf32(v, p), y = single::decode(v, q);
    sym_check(x == y, "punycode_to_utf32");
    sym_check(same(p, q), "punycode_to_utf32 output");
  } else if (op == 4) {
    size_t k = utf32_length_from_utf8(v.data(), v.size()), l = single::len32(v.data(), v.size());
    sym_check(k == l, "utf32_length_from_utf8");
    if (k != l) return;
    std::u32string p(k, U'x'), q(k, U'x');
    k = utf8_to_utf32(v.data(), v.size(), p.data());
    l = single::to32(v.data(), v.size(), q.data());
    sym_check(k == l, "utf8_to_utf32");
    sym_check(same(p, q), "utf8_to_utf32 output");
  } else {
    a = v;
    b = v;
    ascii_map(a.data(), a.size());
    single::amap(b.data(), b.size());
    sym_check(same(a, b), "ascii_map");
  }
}
extern "C" {
__attribute__((used)) void sym_init() {
  std::u32string o;
  (void)map(U"a", o);
  (void)single::map_into(U"a", o);
}
void single_domain() {
  policies();
  Text in;
  fill(templates[sym_param("t", 0)], in);
  bytes(std::string_view((char*)in.d, in.n), sym_param("op", 0));
  sym_reach("end");
}
void single_bytes() {
  policies();
  u8 p[64];
  size_t n = sym_param("n", 3), pre = sym_param("pre", 0);
  for (size_t i = 0; i < n; i++) p[i] = i < pre ? 'a' : sym_u8("b");
  bytes(std::string_view((char*)p, n), sym_param("op", 0));
  sym_reach("end");
}
void single_points() {
  policies();
  size_t n = sym_param("n", 1), op = sym_param("op", 0);
  u32 in[8];
  for (size_t i = 0; i < n; i++) in[i] = sym_u32("c");
  std::u32string_view v((char32_t*)in, n);
  std::u32string a(U"old"), b(U"old");
  std::string s("old"), t("old");
  bool x = false, y = false;
  if (op == 0) {
    x = map(v, a);
    y = single::map_into(v, b);
    sym_check(same(map(v), single::map_of(v)), "map string");
  } else if (op == 1) {
    a = v;
    b = v;
    x = normalize(a);
    y = single::norm(b);
  } else if (op == 2) {
    x = is_already_nfc(v);
    y = single::nfc(v);
  } else if (op == 3) {
    x = is_label_valid(v);
    y = single::label(v);
  } else if (op == 4) {
    x = utf32_to_punycode(v, s);
    y = single::encode(v, t);
  } else if (op == 5) {
    size_t k = utf8_length_from_utf32((char32_t*)in, n), l = single::len8((char32_t*)in, n);
    sym_check(k == l, "utf8_length_from_utf32");
    if (k != l) return;
    s.resize(k);
    t.resize(k);
    sym_check(utf32_to_utf8((char32_t*)in, n, s.data()) == single::to8((char32_t*)in, n, t.data()), "utf32_to_utf8");
  } else {
    x = valid_name_code_point(in[0], n > 1 && in[1]);
    y = single::ident(in[0], n > 1 && in[1]);
  }
  sym_check(x == y, "result");
  sym_check(same(a, b), "output");
  sym_check(same(s, t), "output bytes");
  sym_reach("end");
}
}
