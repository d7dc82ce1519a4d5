// C24, C25
#include "common.h"
#include "raw_inflate.hpp"
// a stream: bits written by the harness first, then free bits
struct Put {
  u8* p;
  size_t pos = 0;
  void bits(u32 v, u32 k) {
    for (u32 i = 0; i < k; i++, pos++) p[pos >> 3] |= (u8)((v >> i & 1) << (pos & 7));
  }
  void code(u32 v, u32 k) {  // Huffman codes: most significant bit first
    for (u32 i = k; i-- > 0;) bits(v >> i & 1, 1);
  }
};
template <size_t OUT>
static void run_(u8* src, size_t n, size_t cap) {
  size_t p = sym_param("p", 25);
  u8* dst = new u8[cap];
  size_t got = ada::idna::deflate::inflate_raw(src, n, dst, cap);
  sym_check(got <= cap, p == 24 ? "C24.size" : "C25.size");
  if (p == 25) {
    spec::Seq<u8, OUT> want;
    int k = spec::inflate(src, n, want, cap);
    if (k == 0) {
      sym_check(spec::same(dst, got, want.d, want.n), "C25.data");
      sym_reach("inflated");
    } else if (k == -1) {
      sym_check(got == 0, "C25.refuse");
      sym_reach("refused");
    }
  } else {
    sym_reach(got ? "inflated" : "refused");
  }
  delete[] dst;
  delete[] src;
}
static void run(u8* src, size_t n, size_t cap) { return cap > 600 ? run_<33800>(src, n, cap) : run_<600>(src, n, cap); }
extern "C" {
// any n bytes; type= fixes the type of the first block
void any_stream() {
  if (sym_param("nm", 1)) sym_policy(P_NOMERGE, 1);
  size_t n = sym_param("n", 2), cap = sym_param("cap", 8), type = sym_param("type", 4);
  u8* src = new u8[n];
  for (size_t i = 0; i < n; i++) src[i] = sym_u8("b");
  if (type < 4 && n) sym_assume((src[0] >> 1 & 3) == type);
  run(src, n, cap);
}

// a stored block of `pre` fixed bytes, then a final block with fixed codes: `lit` fixed literals and n free bytes
void fixed_tail() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  size_t pre = sym_param("pre", 0), lit = sym_param("lit", 0), n = sym_param("n", 2), cap = sym_param("cap", 8);
  size_t total = (pre ? 5 + pre : 0) + (3 + 8 * lit + 7) / 8 + n;
  u8* src = new u8[total];
  memset(src, 0, total);
  Put o{src};
  if (pre) {
    o.bits(0, 8);
    o.bits((u32)pre, 16);
    o.bits((u32)pre ^ 0xffff, 16);
    for (size_t i = 0; i < pre; i++) src[5 + i] = (u8)(i ^ i >> 8);
    o.pos += 8 * pre;
  }
  o.bits(3, 3);
  for (size_t i = 0; i < lit; i++) o.code(0x30 + 97 + (u32)(i % 26), 8);
  size_t from = sym_param("lsym", 0);  // fixed length symbol
  if (from >= 280) o.code((u32)from - 280 + 0xc0, 8);
  else if (from) o.code((u32)from - 256, 7);
  while (o.pos < total * 8) o.bits(sym_u8("x") & 1, 1);
  run(src, total, cap);
}
// a final block with codes of its own: code length code {0 1 2 3 8 16 17 18} of 3 bits each, code lengths from
// items[] (symbol, value of its extra bits, -1 free), then n free bytes
struct Item {
  int s, x;
};
static const Item items[][24] = {
    /*0: a, end */ {{18, 86}, {1, 0}, {18, 127}, {18, 9}, {1, 0}, {0, 0}, {-1, 0}},
    /*1: a end 257 285, distances 1 2 */ {{18, 86}, {2, 0}, {18, 127}, {18, 9}, {2, 0}, {2, 0}, {18, 16}, {2, 0}, {1, 0}, {1, 0}, {-1, 0}},
    /*2: free zero runs */ {{18, 127}, {18, -1}, {-1, 0}},
    /*3: free repeats */ {{18, 127}, {18, 95}, {8, 0}, {16, -1}, {16, -1}, {1, 0}, {1, 0}, {-1, 0}},
    /*4: repeat first */ {{16, -1}, {-1, 0}},
    /*5: short zero runs at the end */ {{18, 127}, {18, 100}, {17, -1}, {17, -1}, {-1, 0}},
    /*6: repeats at the end */ {{18, 127}, {18, 98}, {8, 0}, {16, -1}, {16, -1}, {16, -1}, {-1, 0}},
    /*7: nothing */ {{-1, 0}},
    /*8: a end 265 280 with extra bits, distances 4-7 */ {{18, 86}, {2, 0}, {18, 127}, {18, 9}, {2, 0}, {17, 5}, {2, 0}, {18, 3}, {2, 0}, {17, 2}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {2, 0}, {2, 0}, {2, 0}, {2, 0}, {-1, 0}},
    /*9: incomplete codes */ {{18, 86}, {3, 0}, {18, 127}, {18, 9}, {3, 0}, {2, 0}, {17, 2}, {3, 0}, {-1, 0}},
    /*10: repeat crosses from the literal to the distance lengths */ {{18, 86}, {3, 0}, {18, 127}, {18, 9}, {3, 0}, {3, 0}, {3, 0}, {16, -1}, {-1, 0}},
};
void dynamic() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  size_t t = sym_param("t", 0), n = sym_param("n", 2), cap = sym_param("cap", 8), hlit = sym_param("hlit", 257), hdist = sym_param("hdist", 1);
  u8* tmp = new u8[200];
  memset(tmp, 0, 200);
  Put o{tmp};
  o.bits(5, 3);
  o.bits((u32)hlit - 257, 5);
  o.bits((u32)hdist - 1, 5);
  o.bits(15, 4);
  static const u8 order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
  static const int code[19] = {0, 1, 2, 3, -1, -1, -1, -1, 4, -1, -1, -1, -1, -1, -1, -1, 5, 6, 7};
  for (int i = 0; i < 19; i++) o.bits(code[order[i]] >= 0 ? 3 : 0, 3);
  for (const Item* it = items[t]; it->s >= 0; it++) {
    o.code((u32)code[it->s], 3);
    u32 k = it->s == 16 ? 2 : it->s == 17 ? 3 : it->s == 18 ? 7 : 0;
    for (u32 j = 0; j < k; j++) o.bits(it->x < 0 ? sym_u8("x") & 1 : it->x >> j & 1, 1);
  }
  size_t total = (o.pos + 7) / 8 + n;
  while (o.pos < total * 8) o.bits(sym_u8("y") & 1, 1);
  u8* src = new u8[total];
  memcpy(src, tmp, total);
  delete[] tmp;
  run(src, total, cap);
}
// dynamic block whose code length code is free: k of the 19 lengths (in stream order) are free, the others zero
void dynamic_code() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  size_t n = sym_param("n", 2), cap = sym_param("cap", 8), k = sym_param("k", 4);
  u8* tmp = new u8[200];
  memset(tmp, 0, 200);
  Put o{tmp};
  o.bits(5, 3);
  o.bits(sym_param("hlit", 257) - 257, 5);
  o.bits(sym_param("hdist", 1) - 1, 5);
  o.bits((u32)(k < 4 ? 4 : k) - 4, 4);
  for (size_t i = 0; i < (k < 4 ? 4 : k); i++) {
    u32 v = i < k ? sym_u8("l") & 7 : 0;
    if (sym_param("fork", 1)) v = (u32)sym_concretize(v);
    o.bits(v, 3);
  }
  size_t total = (o.pos + 7) / 8 + n;
  while (o.pos < total * 8) o.bits(sym_u8("y") & 1, 1);
  u8* src = new u8[total];
  memcpy(src, tmp, total);
  delete[] tmp;
  run(src, total, cap);
}
// several blocks: seq= one digit per block; ff=1: the final marks are free; n free bytes behind
void blocks() {
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  size_t seq = sym_param("seq", 1), n = sym_param("n", 0), cap = sym_param("cap", 16), ff = sym_param("ff", 0), div = 1;
  u8* tmp = new u8[400];
  memset(tmp, 0, 400);
  Put o{tmp};
  while (seq / div >= 10) div *= 10;
  for (; div; div /= 10) {
    size_t kind = seq / div % 10;
    if (kind == 9) kind = 0;
    u32 fin = ff ? sym_u8("f") & 1 : div == 1;
    if (kind <= 3) {  // stored: 0 empty, 1 empty with a free check field, 2 short with free length, 3 two bytes and free padding
      o.bits(fin, 3);
      while (o.pos & 7) o.bits(kind == 3 ? sym_u8("p") & 1 : 0, 1);
      u32 len = kind == 2 ? (u32)sym_concretize(sym_u8("l") & 3) : kind == 3 ? 2 : 0;
      u32 nl = kind == 1 ? sym_u16("nl") : kind == 2 ? 0xfffc | (sym_u8("m") & 3) : ~len & 0xffff;
      o.bits(len, 16);
      o.bits(nl, 16);
      if (kind >= 2) {
        o.bits(sym_u8("d"), 8);
        o.bits(sym_u8("d"), 8);
      }
    } else if (kind == 8) {  // reserved type
      o.bits(6 | fin, 3);
    } else if (kind == 7) {  // codes of its own: one literal, end
      o.bits(4 | fin, 3);
      o.bits(0, 10);
      o.bits(15, 4);
      static const u8 lens[19] = {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0};  // 18 and 1 (in stream order)
      for (int i = 0; i < 19; i++) o.bits(lens[i], 3);
      // codes: 1 -> 0, 18 -> 1
      o.bits(1, 1), o.bits(86, 7), o.bits(0, 1), o.bits(1, 1), o.bits(127, 7), o.bits(1, 1), o.bits(9, 7), o.bits(0, 1), o.bits(0, 1);
      o.bits(0, 1), o.bits(1, 1);
    } else {  // fixed codes: 4 one literal, 5 a literal and a match at a free distance, 6 empty
      o.bits(2 | fin, 3);
      if (kind < 6) o.code(0x30 + 98, 8);
      if (kind == 5) {
        o.code(2, 7);
        o.bits(0, 3);
        o.bits(sym_u8("q") & 1, 1);
        o.bits(sym_u8("q") & 1, 1);
      }
      o.code(0, 7);
    }
  }
  size_t total = (o.pos + 7) / 8 + n;
  while (o.pos < total * 8) o.bits(sym_u8("y") & 1, 1);
  u8* src = new u8[total];
  memcpy(src, tmp, total);
  delete[] tmp;
  run(src, total, cap);
}
}
