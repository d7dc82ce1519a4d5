// Reference model: the published algorithms (UTS #46, UAX #15, RFC 3492, 5891-5893,
// 3629, 1951) written directly over Unicode 17.0 data, with no code from the
// repository.  It is executed symbolically next to the code under test.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include "../spec/spec_tables.inc"

namespace spec {
typedef uint32_t u32;
typedef uint8_t u8;

enum Bidi { B_OTHER, B_R, B_AL, B_AN, B_EN, B_ES, B_CS, B_ET, B_ON, B_BN, B_NSM };
enum { JT_L = 1, JT_D = 2, JT_T = 3, JT_R = 4 };

#define SPEC2(name, c) name##_2[(size_t)name##_1[(c) >> 7] * 128 + ((c) & 127)]
static inline u32 prop(u32 c) { return c < 0x110000 ? SPEC2(spec_prop, c) : 0; }
static inline u32 ccc(u32 c) { return prop(c) & 255; }
static inline u32 jt(u32 c) { return prop(c) >> 8 & 7; }
static inline u32 bidi(u32 c) { return prop(c) >> 12 & 15; }
static inline bool is_mark(u32 c) { return prop(c) >> 16 & 1; }
static inline bool id_start(u32 c) { return prop(c) >> 17 & 1; }
static inline bool id_continue(u32 c) { return prop(c) >> 18 & 1; }
static inline bool idna_valid(u32 c) { return prop(c) >> 19 & 1; }
static inline bool kf_norm(u32 c) { return prop(c) >> 20 & 1; }
static inline bool kf_mark(u32 c) { return prop(c) >> 21 & 1; }
static inline bool kf_bidi(u32 c) { return prop(c) >> 22 & 1; }
static inline bool kf_join(u32 c) { return prop(c) >> 23 & 1; }
static inline bool scalar(u32 c) { return c < 0x110000 && (c >> 11) != 27; }

// A bounded sequence; the harness picks a capacity no result can exceed.
template <class T, size_t CAP>
struct Seq {
  T d[CAP];
  size_t n = 0;
  void push(T v) {
    if (n >= CAP) __builtin_trap();
    d[n++] = v;
  }
};
template <class A, class B>
static inline bool same(const A* a, size_t an, const B* b, size_t bn) {
  if (an != bn) return false;
  u32 diff = 0;
  for (size_t i = 0; i < an; i++) diff |= (u32)a[i] ^ (u32)b[i];
  return diff == 0;
}

// ---- UTS #46 mapping -------------------------------------------------------
// 0 valid, 1 ignored, 2 disallowed, >=3 mapped
static inline u32 map_class(u32 c) { return c < 0x110000 && (c >> 11) != 27 ? SPEC2(spec_map, c) : 2; }
template <size_t CAP>
static inline bool map(const u32* in, size_t n, Seq<u32, CAP>& out) {
  for (size_t i = 0; i < n; i++) {
    u32 k = map_class(in[i]);
    if (k == 2) return false;
    if (k == 0) {
      out.push(in[i]);
    } else if (k > 2) {
      size_t b = spec_mapping_off[k - 3], len = (size_t)spec_mapping_off[k - 2] - b;
      for (size_t j = 0; j < len; j++) out.push(spec_mapping_data[b + j]);
    }
  }
  return true;
}

// ---- UAX #15 NFC -----------------------------------------------------------
static inline u32 compose_pair(u32 a, u32 b) {
  if (a - 0x1100 < 19 && b - 0x1161 < 21) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
  if (a - 0xAC00 < 11172 && (a - 0xAC00) % 28 == 0 && b - 0x11A8 < 27) return a + (b - 0x11A7);
  if (a >= 0x110000 || b >= 0x110000) return 0;
  return spec_comp[(size_t)SPEC2(spec_fst, a) * SPEC_NSND + SPEC2(spec_snd, b)];
}
template <size_t CAP>
static inline void nfd(const u32* in, size_t n, Seq<u32, CAP>& out) {
  for (size_t i = 0; i < n; i++) {
    u32 c = in[i];
    if (c - 0xAC00 < 11172) {
      u32 s = c - 0xAC00;
      out.push(0x1100 + s / 588);
      out.push(0x1161 + s % 588 / 28);
      if (s % 28) out.push(0x11A7 + s % 28);
      continue;
    }
    u32 k = c < 0x110000 ? SPEC2(spec_dec, c) : 0;
    if (k == 0) {
      out.push(c);
    } else {
      size_t b = spec_nfd_off[k - 1], len = (size_t)spec_nfd_off[k] - b;
      for (size_t j = 0; j < len; j++) out.push(spec_nfd_data[b + j]);
    }
  }
  // canonical ordering: exchange neighbours until none is out of order
  for (size_t r = 1; r < out.n; r++)
    for (size_t i = 0; i + r < out.n; i++) {
      u32 a = out.d[i], b = out.d[i + 1], ca = ccc(a), cb = ccc(b);
      if (cb != 0 && ca > cb) {
        out.d[i] = b;
        out.d[i + 1] = a;
      }
    }
}
template <size_t CAP>
static inline void nfc(const u32* in, size_t n, Seq<u32, CAP>& out) {
  Seq<u32, CAP> d;
  nfd(in, n, d);
  size_t starter = (size_t)-1;
  u32 last = 0;
  for (size_t i = 0; i < d.n; i++) {
    u32 c = d.d[i], cc = ccc(c);
    if (starter != (size_t)-1 && (out.n - 1 == starter || last < cc)) {
      u32 p = compose_pair(out.d[starter], c);
      if (p != 0) {
        out.d[starter] = p;
        continue;
      }
    }
    if (cc == 0) starter = out.n;
    last = cc;
    out.push(c);
  }
}

// ---- label validity (UTS #46 section 4.1 with CheckJoiners and CheckBidi) ---
static inline bool joiners_ok(const u32* l, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (l[i] != 0x200C && l[i] != 0x200D) continue;
    if (i > 0 && ccc(l[i - 1]) == 9) continue;
    if (l[i] == 0x200D) return false;
    bool before = false, after = false, open = true;
    for (size_t j = i; j-- > 0;) {
      u32 t = jt(l[j]);
      if (open && (t == JT_L || t == JT_D)) before = true;
      if (t != JT_T) open = false;
    }
    open = true;
    for (size_t j = i + 1; j < n; j++) {
      u32 t = jt(l[j]);
      if (open && (t == JT_R || t == JT_D)) after = true;
      if (t != JT_T) open = false;
    }
    if (!before || !after) return false;
  }
  return true;
}
static inline bool bidi_ok(const u32* l, size_t n) {
  u32 seen = 0, lastb = B_NSM;
  for (size_t i = 0; i < n; i++) {
    u32 b = bidi(l[i]);
    seen |= 1u << b;
    if (b != B_NSM) lastb = b;
  }
  if (!(seen & (1u << B_R | 1u << B_AL | 1u << B_AN))) return true;
  u32 first = bidi(l[0]);
  if (first != B_R && first != B_AL) return false;  // condition 1; 5 for an L start
  if (seen & 1u << B_OTHER) return false;            // 2
  if (lastb != B_R && lastb != B_AL && lastb != B_EN && lastb != B_AN) return false;  // 3
  return !((seen & 1u << B_EN) && (seen & 1u << B_AN));  // 4
}
static inline bool label_ok(const u32* l, size_t n) {
  if (n == 0) return true;
  return !is_mark(l[0]) && joiners_ok(l, n) && bidi_ok(l, n);
}

// ---- RFC 3492 --------------------------------------------------------------
static inline u32 adapt(u32 delta, u32 np, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / np;
  u32 k = 0;
  while (delta > 455) {
    delta /= 35;
    k += 36;
  }
  return k + 36 * delta / (delta + 38);
}
static inline u32 digit(u8 c) {  // 36: not a digit
  return c >= 'a' && c <= 'z' ? c - 'a' : c >= '0' && c <= '9' ? c - '0' + 26 : 36;
}
// Decoding with lower-case digits and overflow beyond 31 bits; includes the
// rule that a result which starts with "xn--" is refused when `ace` is set.
template <size_t CAP>
static inline bool puny_decode(const u8* in, size_t n, Seq<u32, CAP>& out, bool ace = true) {
  size_t b = 0;
  for (size_t j = n; j-- > 0;)
    if (in[j] == '-') {
      b = j;
      if (b == 0) return false;
      break;
    }
  for (size_t j = 0; j < b; j++) {
    if (in[j] >= 0x80) return false;
    out.push(in[j]);
  }
  u32 cp = 128, bias = 72;
  uint64_t i = 0;
  size_t p = b > 0 ? b + 1 : 0;
  while (p < n) {
    uint64_t oldi = i, w = 1;
    for (u32 k = 36;; k += 36) {
      if (p >= n) return false;
      u32 dg = digit(in[p++]);
      if (dg >= 36) return false;
      uint64_t add = (uint64_t)dg * w;
      if (add > 0x7fffffff || i + add > 0x7fffffff) return false;
      i += add;
      u32 t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
      if (dg < t) break;
      w *= 36 - t;
      if (w > 0x7fffffff) return false;
    }
    u32 np = (u32)out.n + 1;
    bias = adapt((u32)(i - oldi), np, oldi == 0);
    if (i / np > 0x7fffffff - cp) return false;
    cp += (u32)(i / np);
    i %= np;
    if (cp < 0x80) return false;
    // insert at i
    size_t m = out.n;
    out.push(0);
    for (size_t j = m; j > 0; j--) out.d[j] = j > i ? out.d[j - 1] : out.d[j];
    for (size_t j = 0; j <= m; j++) out.d[j] = j == i ? cp : out.d[j];
    i++;
  }
  if (ace && out.n >= 4 && out.d[0] == 'x' && out.d[1] == 'n' && out.d[2] == '-' && out.d[3] == '-') return false;
  return true;
}
template <size_t CAP>
static inline bool puny_encode(const u32* in, size_t n, Seq<u8, CAP>& out) {
  for (size_t i = 0; i < n; i++)
    if (!scalar(in[i])) return false;
  size_t b = 0;
  for (size_t i = 0; i < n; i++)
    if (in[i] < 0x80) {
      out.push((u8)in[i]);
      b++;
    }
  if (b > 0) out.push('-');
  u32 cp = 128, bias = 72;
  u32 delta = 0;
  size_t h = b;
  while (h < n) {
    u32 m = 0xffffffff;
    for (size_t i = 0; i < n; i++)
      if (in[i] >= cp && in[i] < m) m = in[i];
    delta += (m - cp) * (u32)(h + 1);
    cp = m;
    for (size_t i = 0; i < n; i++) {
      if (in[i] < cp) delta++;
      if (in[i] == cp) {
        u32 q = delta;
        for (u32 k = 36;; k += 36) {
          u32 t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
          if (q < t) break;
          u32 c = t + (q - t) % (36 - t);
          out.push((u8)(c < 26 ? 'a' + c : '0' + (c - 26)));
          q = (q - t) / (36 - t);
        }
        out.push((u8)(q < 26 ? 'a' + q : '0' + (q - 26)));
        bias = adapt(delta, (u32)h + 1, h == b);
        delta = 0;
        h++;
      }
    }
    delta++;
    cp++;
  }
  return true;
}

// ---- RFC 3629 --------------------------------------------------------------
template <size_t CAP>
static inline bool utf8_decode(const u8* in, size_t n, Seq<u32, CAP>& out) {
  for (size_t i = 0; i < n;) {
    u32 b = in[i], len, c, min;
    if (b < 0x80) {
      len = 1, c = b, min = 0;
    } else if (b >> 5 == 6) {
      len = 2, c = b & 31, min = 0x80;
    } else if (b >> 4 == 14) {
      len = 3, c = b & 15, min = 0x800;
    } else if (b >> 3 == 30) {
      len = 4, c = b & 7, min = 0x10000;
    } else {
      return false;
    }
    if (n - i < len) return false;
    for (size_t k = 1; k < len; k++) {
      if (in[i + k] >> 6 != 2) return false;
      c = c << 6 | (in[i + k] & 63);
    }
    if (c < min || !scalar(c)) return false;
    out.push(c);
    i += len;
  }
  return true;
}
template <size_t CAP>
static inline bool utf8_encode(const u32* in, size_t n, Seq<u8, CAP>& out) {
  for (size_t i = 0; i < n; i++)
    if (!scalar(in[i])) return false;
  for (size_t i = 0; i < n; i++) {
    u32 c = in[i];
    if (c < 0x80) {
      out.push((u8)c);
    } else if (c < 0x800) {
      out.push((u8)(0xc0 | c >> 6));
      out.push((u8)(0x80 | (c & 63)));
    } else if (c < 0x10000) {
      out.push((u8)(0xe0 | c >> 12));
      out.push((u8)(0x80 | (c >> 6 & 63)));
      out.push((u8)(0x80 | (c & 63)));
    } else {
      out.push((u8)(0xf0 | c >> 18));
      out.push((u8)(0x80 | (c >> 12 & 63)));
      out.push((u8)(0x80 | (c >> 6 & 63)));
      out.push((u8)(0x80 | (c & 63)));
    }
  }
  return true;
}

// ---- whole domains: UTS #46 section 4 with the WHATWG carve-out for ASCII ----
static inline bool ace_prefix(const u32* l, size_t n) { return n >= 4 && l[0] == 'x' && l[1] == 'n' && l[2] == '-' && l[3] == '-'; }
static inline bool all_ascii(const u32* l, size_t n) {
  u32 o = 0;
  for (size_t i = 0; i < n; i++) o |= l[i];
  return o < 0x80;
}
// the decoded form of an xn-- label given by the characters after its prefix;
// outdated is set when the decoded label has a code point of the known data gaps
static bool outdated = false;
template <size_t CAP>
static inline bool ace_decode(const u8* p, size_t n, Seq<u32, CAP>& dec) {
  if (!puny_decode(p, n, dec)) return false;
  for (size_t i = 0; i < dec.n; i++) outdated = outdated || (prop(dec.d[i]) >> 20 & 15) != 0;
  if (all_ascii(dec.d, dec.n)) return false;
  Seq<u32, CAP> m, c;
  if (!map(dec.d, dec.n, m) || !same(m.d, m.n, dec.d, dec.n)) return false;
  nfc(m.d, m.n, c);
  return same(c.d, c.n, dec.d, dec.n) && label_ok(dec.d, dec.n);
}
// code points after mapping and normalization
template <size_t CAP>
static inline bool prepare(const u8* in, size_t n, Seq<u32, CAP>& out) {
  Seq<u32, CAP> u, m;
  if (!utf8_decode(in, n, u) || !map(u.d, u.n, m)) return false;
  for (size_t i = 0; i < u.n; i++) outdated = outdated || (prop(u.d[i]) >> 20 & 15) != 0;
  for (size_t i = 0; i < m.n; i++) outdated = outdated || (prop(m.d[i]) >> 20 & 15) != 0;
  nfc(m.d, m.n, out);
  return true;
}
template <size_t CAP>
static inline bool label_to_ascii(const u32* l, size_t k, Seq<u8, CAP>& out) {
  if (all_ascii(l, k) || ace_prefix(l, k)) {
    if (!all_ascii(l, k)) return false;
    for (size_t j = 0; j < k; j++) out.push((u8)l[j]);
    if (!ace_prefix(l, k)) return true;
    u8 t[CAP];
    for (size_t j = 4; j < k; j++) t[j - 4] = (u8)l[j];
    Seq<u32, CAP> dec;
    return ace_decode(t, k - 4, dec);
  }
  if (!label_ok(l, k)) return false;
  out.push('x'), out.push('n'), out.push('-'), out.push('-');
  return puny_encode(l, k, out);
}
template <size_t CAP>
static inline bool to_ascii(const u8* in, size_t n, Seq<u8, CAP>& out) {
  u8 hi = 0;
  for (size_t i = 0; i < n; i++) hi |= in[i];
  if (hi < 0x80) {
    for (size_t i = 0; i < n; i++) out.push(in[i] >= 'A' && in[i] <= 'Z' ? in[i] + 32 : in[i]);
    return true;
  }
  Seq<u32, CAP> w;
  if (!prepare(in, n, w)) return false;
  for (size_t b = 0;;) {
    size_t e = b;
    while (e < w.n && w.d[e] != '.') e++;
    if (!label_to_ascii(w.d + b, e - b, out)) return false;
    if (e == w.n) return true;
    out.push('.');
    b = e + 1;
  }
}
template <size_t CAP>
static inline void to_unicode(const u8* in, size_t n, Seq<u8, CAP>& out) {
  for (size_t b = 0;;) {
    size_t e = b;
    u8 hi = 0;
    while (e < n && in[e] != '.') hi |= in[e++];
    bool done = false;
    if (hi < 0x80 && e - b >= 4 && in[b] == 'x' && in[b + 1] == 'n' && in[b + 2] == '-' && in[b + 3] == '-') {
      Seq<u32, CAP> dec;
      if (ace_decode(in + b + 4, e - b - 4, dec)) done = utf8_encode(dec.d, dec.n, out);
    }
    if (!done)
      for (size_t j = b; j < e; j++) out.push(in[j]);
    if (e >= n) return;
    out.push('.');
    b = e + 1;
  }
}

// ---- RFC 1951 --------------------------------------------------------------
struct Bits {
  const u8* p;
  size_t n, pos = 0;  // in bits
  bool short_ = false;
  u32 get(u32 k) {  // least significant bit first
    if (pos + k > n * 8) {
      short_ = true;
      return 0;
    }
    u32 v = 0;
    for (u32 i = 0; i < k; i++, pos++) v |= (u32)(p[pos >> 3] >> (pos & 7) & 1) << i;
    return v;
  }
};
struct Code {  // RFC 1951 section 3.2.2: code of each symbol from the code lengths
  u8 len[288];
  u32 code[288], n = 0;
  bool over = false;
  void build(const u8* l, u32 k) {
    u32 bl_count[16], next[16], c = 0, left = 1;
    n = k;
    for (u32 b = 0; b < 16; b++) bl_count[b] = 0;
    for (u32 i = 0; i < k; i++) {
      len[i] = l[i];
      for (u32 b = 1; b < 16; b++) bl_count[b] += l[i] == b;
    }
    for (u32 b = 1; b < 16; b++) {
      c = (c + bl_count[b - 1]) << 1;
      next[b] = c;
      if (left * 2 < bl_count[b]) over = true;
      left = left * 2 - bl_count[b];
    }
    for (u32 i = 0; i < k; i++) {
      u32 v = 0;
      for (u32 b = 1; b < 16; b++)
        if (l[i] == b) v = next[b]++;
      code[i] = v;
    }
  }
  int decode(Bits& in) const {  // -1: not a code
    u32 c = 0;
    for (u32 b = 1; b < 16; b++) {
      c = c << 1 | in.get(1);
      if (in.short_) return -1;
      u32 sym = 0, hit = 0;
      for (u32 i = 0; i < n; i++) {
        u32 m = len[i] == b && code[i] == c;
        sym |= m ? i : 0;
        hit |= m;
      }
      if (hit) return (int)sym;
    }
    return -1;
  }
};
static const u8 length_extra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const u8 distance_extra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
struct Bases {  // section 3.2.5: the base values follow from the extra bits
  u32 len[29], dist[30];
  Bases() {
    u32 v = 3;
    for (int i = 0; i < 28; i++) len[i] = v, v += 1u << length_extra[i];
    len[28] = 258;
    v = 1;
    for (int i = 0; i < 30; i++) dist[i] = v, v += 1u << distance_extra[i];
  }
};
// -1 refused, -2 outside the format (over-subscribed code, reserved counts), 0 ok
template <size_t CAP>
static inline int inflate(const u8* src, size_t n, Seq<u8, CAP>& out, size_t cap) {
  Bits in{src, n};
  Bases base;
  Code lit, dist;
  for (;;) {
    u32 final = in.get(1), type = in.get(2);
    if (in.short_) return -1;
    if (type == 3) return -1;
    if (type == 0) {
      in.pos = (in.pos + 7) & ~(size_t)7;
      u32 len = in.get(16), nlen = in.get(16);
      if (in.short_ || (len ^ nlen) != 0xffff) return -1;
      if (len > n - in.pos / 8 || len > cap - out.n) return -1;
      for (u32 i = 0; i < len; i++) out.push(src[in.pos / 8 + i]);
      in.pos += 8 * (size_t)len;
    } else {
      u8 l[288 + 32];
      u32 hlit = 288, hdist = 32;
      if (type == 1) {
        for (u32 i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
        for (u32 i = 0; i < 32; i++) l[288 + i] = 5;
      } else {
        hlit = in.get(5) + 257, hdist = in.get(5) + 1;
        u32 hclen = in.get(4) + 4;
        static const u8 order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
        u8 cl[19];
        for (u32 i = 0; i < 19; i++) cl[i] = 0;
        for (u32 i = 0; i < hclen; i++) cl[order[i]] = (u8)in.get(3);
        if (in.short_) return -1;
        if (hlit > 286 || hdist > 30) return -2;
        Code c;
        c.build(cl, 19);
        if (c.over) return -2;
        for (u32 i = 0; i < hlit + hdist;) {
          int s = c.decode(in);
          if (s < 0) return -1;
          u32 rep = 1, v = (u32)s;
          if (s == 16) {
            rep = 3 + in.get(2);
            if (i == 0) return -1;
            v = l[i - 1];
          } else if (s == 17) {
            rep = 3 + in.get(3), v = 0;
          } else if (s == 18) {
            rep = 11 + in.get(7), v = 0;
          }
          if (in.short_ || rep > hlit + hdist - i) return -1;
          for (u32 r = 0; r < rep; r++) l[i++] = (u8)v;
        }
      }
      lit.build(l, hlit);
      dist.build(l + hlit, hdist);
      if (lit.over || dist.over) return -2;
      for (;;) {
        int s = lit.decode(in);
        if (s < 0) return -1;
        if (s < 256) {
          if (out.n == cap) return -1;
          out.push((u8)s);
          continue;
        }
        if (s == 256) break;
        if (s > 285) return -1;
        u32 len = base.len[s - 257] + in.get(length_extra[s - 257]);
        if (in.short_) return -1;
        int t = dist.decode(in);
        if (t < 0 || t > 29) return -1;
        u32 d = base.dist[t] + in.get(distance_extra[t]);
        if (in.short_ || d > out.n || len > cap - out.n) return -1;
        for (u32 i = 0; i < len; i++) out.push(out.d[out.n - d]);
      }
    }
    if (final) return 0;
  }
}
}  // namespace spec
