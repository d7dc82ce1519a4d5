// C26: the checksum itself
#include "common.h"
#include "table_store.hpp"
// remainder of the division of the message (first 32 bits inverted) by x^32+x^26+...+1
static u32 reference(const u8* p, size_t n) {
  u32 r = 0;
  for (size_t i = 0; i < 8 * n + 32; i++) {
    u32 in = i < 8 * n ? p[i / 8] >> (i % 8) & 1 : 0;
    if (i < 32) in ^= 1;
    u32 top = r >> 31;
    r = (r << 1 | in) ^ (0x04c11db7 & (0u - top));
  }
  u32 x = 0;
  for (int i = 0; i < 32; i++) x |= (r >> i & 1) << (31 - i);
  return ~x;
}
extern "C" {
void crc_value() {
  size_t n = sym_param("n", 4), fixed = sym_param("fixed", 0);
  u8* b = new u8[fixed + n];
  for (size_t i = 0; i < fixed; i++) b[i] = (u8)(i * 167 + (i >> 8));
  for (size_t i = 0; i < n; i++) b[fixed + i] = sym_u8("b");
  sym_check(ada::idna::crc32_ieee(b, fixed + n) == reference(b, fixed + n), "C26.crc");
  sym_reach("crc");
  delete[] b;
}
// a change confined to 32 consecutive bits changes the checksum, whatever precedes and follows it:
// four free bytes before it give the checksum register any value
void crc_burst() {
  size_t after = sym_param("after", 2), off = sym_param("off", 0), w = off ? 5 : 4;
  u8 b[64], c[64];
  size_t n = 0;
  for (int i = 0; i < 4; i++) b[n++] = sym_u8("before");
  for (size_t i = 0; i < w; i++) b[n++] = sym_u8("data");
  for (size_t i = 0; i < after; i++) b[n++] = sym_u8("after");
  memcpy(c, b, n);
  u32 v = sym_u32("burst");
  sym_assume(v != 0);
  for (size_t i = 0; i < w; i++) c[4 + i] ^= (u8)((u64)v << off >> (8 * i));
  sym_check(ada::idna::crc32_ieee(b, n) != ada::idna::crc32_ieee(c, n), "C26.burst");
  sym_reach("burst");
}
}
