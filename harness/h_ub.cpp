// C27: every public operation on arbitrary input in blocks of exactly the right size; only undefined behaviour counts
#include "h_pipe.cpp"
static size_t sink;
static void use(bool b) { sink += b; }
static void domain_ops(std::string_view v, size_t op) {
  std::string out;
  if (op == 0) {
    use(to_ascii(v, out));
    use(to_ascii(v, out));
  } else if (op == 1) {
    use(to_unicode(v, out));
  } else if (op == 2) {
    std::string r = to_ascii(v);
    use(r.empty());
    r = to_unicode(v);
    use(r.empty());
  } else if (op == 3) {
    use(contains_forbidden_domain_code_point(v));
    use(verify_punycode(v));
    std::u32string u;
    use(punycode_to_utf32(v, u));
    use(punycode_to_utf32(v, u));
  } else if (op == 4) {
    size_t k = utf32_length_from_utf8(v.data(), v.size());
    char32_t* p = new char32_t[k];
    k = utf8_to_utf32(v.data(), v.size(), p);
    delete[] p;
    use(k);
  } else {
    char* p = new char[v.size()];
    memcpy(p, v.data(), v.size());
    ascii_map(p, v.size());
    delete[] p;
  }
}
extern "C" {
// a template in a block of its own
void ub_domain() {
  policies();
  Text in;
  fill(templates[sym_param("t", 0)], in);
  char* p = new char[in.n];
  memcpy(p, in.d, in.n);
  domain_ops(std::string_view(p, in.n), sym_param("op", 0));
  delete[] p;
  sym_reach("end");
}
// n arbitrary bytes
void ub_bytes() {
  policies();
  size_t n = sym_param("n", 3);
  char* p = new char[n];
  for (size_t i = 0; i < n; i++) p[i] = (char)sym_u8("b");
  domain_ops(std::string_view(p, n), sym_param("op", 0));
  delete[] p;
  sym_reach("end");
}
// n arbitrary 32-bit values
void ub_points() {
  policies();
  size_t n = sym_param("n", 2), op = sym_param("op", 0);
  char32_t* p = new char32_t[n];
  for (size_t i = 0; i < n; i++) p[i] = (char32_t)sym_u32("c");
  std::u32string_view v(p, n);
  if (op == 0) {
    std::u32string o;
    use(map(v, o));
    std::u32string q = map(v);
    use(q.empty());
  } else if (op == 1) {
    std::u32string o(v);
    use(normalize(o));
  } else if (op == 2) {
    use(is_already_nfc(v));
  } else if (op == 3) {
    use(is_label_valid(v));
  } else if (op == 4) {
    std::string o;
    use(utf32_to_punycode(v, o));
  } else if (op == 5) {
    size_t k = utf8_length_from_utf32(p, n);
    char* q = new char[k];
    use(utf32_to_utf8(p, n, q));
    delete[] q;
  } else {
    for (size_t i = 0; i < n; i++) use(valid_name_code_point(p[i], i & 1));
  }
  delete[] p;
  sym_reach("end");
}
// any value behind a long run: block boundaries of the fast paths
void ub_long() {
  policies();
  size_t n = sym_param("n", 40), at = sym_param("at", 20), k = sym_param("k", 2);
  char* p = new char[n];
  for (size_t i = 0; i < n; i++) p[i] = (char)('a' + i % 26);
  for (size_t i = at; i < at + k && i < n; i++) p[i] = (char)sym_u8("b");
  domain_ops(std::string_view(p, n), sym_param("op", 0));
  delete[] p;
  sym_reach("end");
}
}
