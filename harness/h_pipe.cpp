// C14-C18, C21, C31, C32: whole conversions of domains made from a template.
// Template characters: \1 any byte, \2 any ASCII byte, \3 \4 \5 a code point of
// 2, 3, 4 UTF-8 bytes, \6 a byte of [a-z0-9-], \7 a byte of [a-z0-9],
// \x10..\x1f a code point of the block in blocks[], \x0b N c a run of N times c,
// \x0e ... \x0f the Punycode form of what stands between.
#include "common.h"
#include "ada/idna/to_ascii.h"
#include "ada/idna/to_unicode.h"
using namespace ada::idna;
enum { CAP = 700 };
static const char* const templates[] = {
#include "templates.inc"
#include "templates2.inc"
};
// known data gaps: no check looks at code points whose Unicode data is outdated
static void excl(u32 c) {
  sym_assume(!spec::kf_norm(c) && !spec::kf_mark(c) && !spec::kf_bidi(c) && !spec::kf_join(c));
}
static const u32 blocks[][2] = {{0x00C0, 6}, {0x0300, 6}, {0x0600, 6}, {0x05D0, 4}, {0x0660, 4}, {0x2000, 6}, {0x4E00, 6}, {0x0940, 5}, {0xAC00, 6}, {0x1F1E6, 4}, {0x3000, 4}, {0xFF00, 6}, {0x0640, 6}, {0x0390, 6}};
typedef spec::Seq<u8, CAP> Text;
static void put8(Text& t, u32 c) {
  u32 one[1] = {c};
  spec::utf8_encode(one, 1, t);
}
static void cp(Text& t, u32 c, u32 lo, u32 hi) {
  sym_assume(c >= lo && c <= hi && (c >> 11) != 27);
  excl(c);
  if (hi == 0x7ff) {
    t.push(0xc0 | c >> 6);
  } else {
    if (hi == 0xffff) {
      t.push(0xe0 | c >> 12);
    } else {
      t.push(0xf0 | c >> 18);
      t.push(0x80 | (c >> 12 & 63));
    }
    t.push(0x80 | (c >> 6 & 63));
  }
  t.push(0x80 | (c & 63));
}
static u32 block(u8 c) {
  u32 b = blocks[c - 16][0], m = (1u << blocks[c - 16][1]) - 1;
  return b + (sym_u32("c") & m);
}
// the code points up to \x0f, Punycode
static const char* ace(const char* f, Text& t) {
  static spec::Seq<u32, CAP> l;
  l.n = 0;
  for (; *f != 0x0f; f++) {
    u8 c = *f;
    u32 x;
    if (c == 3 || c == 4 || c == 5) {
      u32 lo = c == 3 ? 0x80 : c == 4 ? 0x800 : 0x10000, hi = c == 3 ? 0x7ff : c == 4 ? 0xffff : 0x10ffff;
      x = sym_u32("c") & (c == 5 ? 0x1fffff : hi);
      sym_assume(x >= lo && x <= hi && (x >> 11) != 27);
      excl(x);
    } else if (c >= 16 && c < 32) {
      x = block(c);
      excl(x);
    } else if (c == 0x0b) {
      u8 k = f[1];
      f += 2;
      u32 v = (u8)*f;
      if (v >= 0xe0) v = (v & 15) << 12 | (f[1] & 63) << 6 | (f[2] & 63), f += 2;
      for (u8 i = 1; i < k; i++) l.push(v);
      x = v;
    } else if (c >= 0xe0) {
      x = (c & 15) << 12 | (f[1] & 63) << 6 | (f[2] & 63);
      f += 2;
    } else if (c >= 0xc0) {
      x = (c & 31) << 6 | (f[1] & 63);
      f++;
    } else {
      x = c;
    }
    l.push(x);
  }
  spec::puny_encode(l.d, l.n, t);
  return f;
}
static void fill(const char* f, Text& t) {
  for (; *f; f++) {
    u8 c = *f;
    if (c == 1) {
      t.push(sym_u8("b"));
    } else if (c == 2) {
      t.push(sym_u8("a") & 127);
    } else if (c == 3) {
      cp(t, sym_u32("c") & 0x7ff, 0x80, 0x7ff);
    } else if (c == 4) {
      cp(t, sym_u32("c") & 0xffff, 0x800, 0xffff);
    } else if (c == 5) {
      cp(t, sym_u32("c") & 0x1fffff, 0x10000, 0x10ffff);
    } else if (c == 6 || c == 7) {
      u8 x = sym_u8("l");
      sym_assume((x >= 'a' && x <= 'z') || (x >= '0' && x <= '9') || (c == 6 && x == '-'));
      t.push(x);
    } else if (c >= 16 && c < 32) {
      u32 b = blocks[c - 16][0], x = block(c);
      cp(t, x, b, b < 0x800 ? 0x7ff : b < 0x10000 ? 0xffff : 0x10ffff);
    } else if (c == 0x0b) {
      u8 k = f[1], w = (u8)f[2] >= 0xe0 ? 3 : (u8)f[2] >= 0xc0 ? 2 : 1;
      for (u8 i = 0; i < k; i++)
        for (u8 j = 0; j < w; j++) t.push(f[2 + j]);
      f += 1 + w;
    } else if (c == 0x0e) {
      f = ace(f + 1, t);
    } else {
      t.push(c);
    }
  }
}
static void policies() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
}
static std::string_view view(const Text& t) { return std::string_view((const char*)t.d, t.n); }

static bool starts_xn(const u8* p, size_t n) { return n >= 4 && p[0] == 'x' && p[1] == 'n' && p[2] == '-' && p[3] == '-'; }
// C14 (p=14) and C16 (p=16) against the reference
extern "C" void ascii_spec() {
  policies();
  Text in, want;
  fill(templates[sym_param("t", 0)], in);
  bool ok = spec::to_ascii(in.d, in.n, want);
  sym_assume(!spec::outdated);
  std::string out("left over");
  bool got = to_ascii(view(in), out);
  sym_check(ok == got, sym_param("p", 14) == 16 ? "C16.accept" : "C14.accept");
  if (!got) {
    if (!ok) sym_reach("refused");
    return;
  }
  if (!ok) return;
  bool same = spec::same((const u8*)out.data(), out.size(), want.d, want.n);
  sym_check(same, sym_param("p", 14) == 16 ? "C16.copied" : "C14.value");
  sym_reach("converted");
}
// C17
extern "C" void unicode_spec() {
  policies();
  Text in, want;
  fill(templates[sym_param("t", 0)], in);
  spec::to_unicode(in.d, in.n, want);
  sym_assume(!spec::outdated);
  std::string out("left over");
  bool got = to_unicode(view(in), out);
  sym_check(got, "C17.total");
  sym_check(spec::same((const u8*)out.data(), out.size(), want.d, want.n), "C17.value");
  if (spec::same(in.d, in.n, want.d, want.n)) sym_reach("kept");
  else sym_reach("decoded");
}
// C15
extern "C" void ascii_fixed() {
  policies();
  Text in;
  fill(templates[sym_param("t", 0)], in);
  std::string out("left over"), again;
  bool got = to_ascii(view(in), out);
  if (!got) {
    sym_check(out.empty(), "C15.empty");
    sym_reach("refused");
    return;
  }
  bool low = true;
  for (size_t i = 0; i < out.size(); i++) low = low && (u8)out[i] < 0x80 && !(out[i] >= 'A' && out[i] <= 'Z');
  sym_check(low, "C15.lower_ascii");
  sym_check(to_ascii(out, again), "C15.again");
  sym_check(spec::same(out.data(), out.size(), again.data(), again.size()), "C15.fixed");
  u32 hi = 0;
  for (size_t i = 0; i < in.n; i++) hi |= in.d[i];
  if (hi >= 0x80) {
    spec::Seq<u32, CAP> u, m;
    bool dec = spec::utf8_decode(in.d, in.n, u);
    sym_check(dec, "C15.utf8");
    if (!dec) return;
    bool ok = spec::map(u.d, u.n, m);
    sym_check(ok, "C15.mapped");
    u32 dots = 0, d2 = 0;
    for (size_t i = 0; i < m.n; i++) dots += m.d[i] == '.';
    for (size_t i = 0; i < out.size(); i++) d2 += out[i] == '.';
    sym_check(dots == d2, "C15.labels");
  }
  sym_reach("converted");
}
// C18
extern "C" void round_trip() {
  policies();
  Text in;
  fill(templates[sym_param("t", 0)], in);
  u8 hi = 0;
  for (size_t i = 0; i < in.n; i++) hi |= in.d[i];
  sym_assume(hi >= 0x80);
  std::string a, u, b;
  if (!to_ascii(view(in), a)) return;
  sym_check(to_unicode(a, u), "C18.to_unicode");
  // the mapped and normalized input, with the labels that were xn-- already decoded
  spec::Seq<u32, CAP> w;
  bool ok = spec::prepare(in.d, in.n, w);
  sym_check(ok, "C18.prepare");
  if (!ok) return;
  Text want;
  size_t n = 0;
  for (size_t i = 0, s = 0; i <= w.n; i++) {
    if (i < w.n && w.d[i] != '.') continue;
    spec::Seq<u32, CAP> dec;
    u8 t[CAP];
    bool ace = spec::ace_prefix(w.d + s, i - s);
    if (ace)
      for (size_t j = s + 4; j < i; j++) t[j - s - 4] = (u8)w.d[j];
    if (ace && spec::puny_decode(t, i - s - 4, dec)) spec::utf8_encode(dec.d, dec.n, want);
    else spec::utf8_encode(w.d + s, i - s, want);
    if (i < w.n) want.push('.');
    s = i + 1;
  }
  (void)n;
  sym_check(spec::same((const u8*)u.data(), u.size(), want.d, want.n), "C18.decoded");
  hi = 0;
  for (size_t i = 0; i < want.n; i++) hi |= want.d[i];
  sym_check(to_ascii(u, b), "C18.back");
  sym_check(spec::same(a.data(), a.size(), b.data(), b.size()), "C18.same");
  if (hi >= 0x80) sym_reach("non_ascii");
}
// C32: domain t = labels la.lb; to_ascii for non-ASCII labels and xn-- labels next to one, to_unicode for all
static void join(std::string& to, const std::string& a, const std::string& b) {
  to.append(a);
  to.push_back('.');
  to.append(b);
}
extern "C" void labels_ascii() {
  policies();
  Text a, b, ab;
  fill(templates[sym_param("a", 0)], a);
  fill(templates[sym_param("b", 0)], b);
  u8 ha = 0, hb = 0;
  for (size_t i = 0; i < a.n; i++) ha |= a.d[i];
  for (size_t i = 0; i < b.n; i++) hb |= b.d[i];
  sym_assume(ha >= 0x80 && hb >= 0x80);
  for (size_t i = 0; i < a.n; i++) ab.push(a.d[i]);
  ab.push('.');
  for (size_t i = 0; i < b.n; i++) ab.push(b.d[i]);
  std::string ra, rb, r("left over"), want;
  bool ok = to_ascii(view(ab), r);
  bool oa = to_ascii(view(a), ra), ob = to_ascii(view(b), rb);
  sym_check(ok == (oa && ob), "C32.accept");
  if (!ok || !oa || !ob) {
    sym_reach("refused");
    return;
  }
  join(want, ra, rb);
  sym_check(spec::same(r.data(), r.size(), want.data(), want.size()), "C32.join");
  sym_reach("converted");
}
extern "C" void labels_unicode() {
  policies();
  Text a, b, ab;
  fill(templates[sym_param("a", 0)], a);
  fill(templates[sym_param("b", 0)], b);
  for (size_t i = 0; i < a.n; i++) ab.push(a.d[i]);
  ab.push('.');
  for (size_t i = 0; i < b.n; i++) ab.push(b.d[i]);
  std::string ra, rb, r("left over"), want;
  bool ok = to_unicode(view(ab), r);
  bool oa = to_unicode(view(a), ra), ob = to_unicode(view(b), rb);
  sym_check(ok && oa && ob, "C32.total");
  join(want, ra, rb);
  sym_check(spec::same(r.data(), r.size(), want.data(), want.size()), "C32.unicode");
  sym_reach("joined");
}
// C32: a call leaves nothing behind for the next
extern "C" void calls() {
  policies();
  Text a, b;
  fill(templates[sym_param("a", 0)], a);
  fill(templates[sym_param("b", 0)], b);
  std::string r1, r2, s1, s2, x, y;
  bool k1 = to_ascii(view(b), r1);
  to_unicode(view(b), s1);
  (void)to_ascii(view(a), x);
  (void)to_unicode(view(a), y);
  bool k2 = to_ascii(view(b), r2);
  to_unicode(view(b), s2);
  sym_check(k1 == k2 && spec::same(r1.data(), r1.size(), r2.data(), r2.size()), "C32.call_ascii");
  sym_check(spec::same(s1.data(), s1.size(), s2.data(), s2.size()), "C32.call_unicode");
  sym_reach("calls");
}
// C21
extern "C" void forms() {
  policies();
  Text in;
  fill(templates[sym_param("t", 0)], in);
  std::string o1, o2("a much longer text that was here before, longer than any small buffer");
  std::u32string m1, m2(U"previous contents of the buffer");
  bool k1 = to_ascii(view(in), o1), k2 = to_ascii(view(in), o2);
  sym_check(k1 == k2 && spec::same(o1.data(), o1.size(), o2.data(), o2.size()), "C21.ascii_buffer");
  std::string s = to_ascii(view(in));
  if (k1) sym_check(spec::same(s.data(), s.size(), o1.data(), o1.size()), "C21.ascii_forms");
  else sym_check(s.empty(), "C21.ascii_failure");
  o2.assign("xyz");
  k1 = to_unicode(view(in), o1);
  k2 = to_unicode(view(in), o2);
  sym_check(k1 && k2 && spec::same(o1.data(), o1.size(), o2.data(), o2.size()), "C21.unicode_buffer");
  s = to_unicode(view(in));
  sym_check(spec::same(s.data(), s.size(), o1.data(), o1.size()), "C21.unicode_forms");
  spec::Seq<u32, CAP> u;
  if (spec::utf8_decode(in.d, in.n, u)) {
    std::u32string_view v((const char32_t*)u.d, u.n);
    k1 = map(v, m1);
    k2 = map(v, m2);
    sym_check(k1 == k2 && (!k1 || spec::same(m1.data(), m1.size(), m2.data(), m2.size())), "C21.map_buffer");
    std::u32string w = map(v);
    if (k1) sym_check(spec::same(w.data(), w.size(), m1.data(), m1.size()), "C21.map_forms");
    else sym_check(w.empty(), "C21.map_failure");
    sym_reach("mapped");
  }
  sym_reach("forms");
}
// C31: the template with one code point c in it (\4 etc.) against another spelling
static void variant(const Text& pre, const Text& a, const Text& b, const Text& post) {
  Text x, y;
  for (size_t i = 0; i < pre.n; i++) x.push(pre.d[i]), y.push(pre.d[i]);
  for (size_t i = 0; i < a.n; i++) x.push(a.d[i]);
  for (size_t i = 0; i < b.n; i++) y.push(b.d[i]);
  for (size_t i = 0; i < post.n; i++) x.push(post.d[i]), y.push(post.d[i]);
  u8 hx = 0, hy = 0;
  for (size_t i = 0; i < x.n; i++) hx |= x.d[i];
  for (size_t i = 0; i < y.n; i++) hy |= y.d[i];
  sym_assume(hx >= 0x80 && hy >= 0x80);
  std::string p, q;
  bool kp = to_ascii(view(x), p), kq = to_ascii(view(y), q);
  sym_check(kp == kq, "C31.accept");
  sym_check(spec::same(p.data(), p.size(), q.data(), q.size()), "C31.same");
  sym_reach("compared");
}
static u32 in_range(u32 c) {
  u32 lo = sym_param("lo", 0), hi = sym_param("hi", 0x10ffff);
  sym_assume(c >= lo && c <= hi && (c >> 11) != 27);
  excl(c);
  return c;
}
extern "C" void equiv() {
  policies();
  Text pre, post, a, b;
  fill(templates[sym_param("a", 0)], pre);
  fill(templates[sym_param("b", 0)], post);
  size_t k = sym_param("k", 0);
  if (k == 0) {  // a code point and what it maps to
    u32 c[1] = {in_range(sym_u32("c"))};
    spec::Seq<u32, 20> m;
    bool ok = spec::map(c, 1, m);
    sym_assume(ok);
    spec::utf8_encode(c, 1, a);
    spec::utf8_encode(m.d, m.n, b);
  } else if (k == 1) {  // a code point and its canonical decomposition
    u32 c[1] = {in_range(sym_u32("c"))};
    spec::Seq<u32, 20> m;
    spec::nfd(c, 1, m);
    spec::utf8_encode(c, 1, a);
    spec::utf8_encode(m.d, m.n, b);
  } else if (k == 2) {  // full stops
    u32 d[4] = {'.', 0x3002, 0xff0e, 0xff61};
    u32 i = sym_u8("i") & 3;
    spec::utf8_encode(d, 1, a);
    spec::utf8_encode(d + sym_concretize(i), 1, b);
  } else if (k == 3) {  // nothing and an ignored code point
    u32 c[1] = {in_range(sym_u32("c"))};
    sym_assume(spec::map_class(c[0]) == 1);
    spec::utf8_encode(c, 1, b);
  } else if (k == 5) {  // ASCII letters in either case
    fill(templates[sym_param("c", 0)], a);
    for (size_t i = 0; i < a.n; i++) {
      bool l = (a.d[i] >= 'a' && a.d[i] <= 'z') || (a.d[i] >= 'A' && a.d[i] <= 'Z');
      b.push(l && sym_bool("flip") ? a.d[i] ^ 32 : a.d[i]);
    }
  } else {  // two code points with equal canonical decompositions, and reordered marks
    u32 c[2], d[2];
    for (size_t i = 0; i < 2; i++) c[i] = in_range(0x300 + (sym_u32("c") & 0x7f));
    sym_assume(spec::map_class(c[0]) == 0 && spec::map_class(c[1]) == 0);  // U+0345 maps to a letter
    sym_assume(spec::ccc(c[0]) && spec::ccc(c[1]) && spec::ccc(c[0]) != spec::ccc(c[1]));
    d[0] = c[1], d[1] = c[0];
    spec::utf8_encode(c, 2, a);
    spec::utf8_encode(d, 2, b);
  }
  variant(pre, a, b, post);
}
