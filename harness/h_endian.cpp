// C28: compiled for a big-endian target (IR) or with a host that claims to be big-endian (native replay)
#include "common.h"
#include "table_store.hpp"
namespace tb = ada::idna::table_blob;
struct Section {
  size_t off, count, width;
};
#define S(n, w) {tb::off_##n, tb::count_##n, w}
static const Section sections[] = {S(idna_stage1, 2), S(idna_stage2, 2), S(idna_bool_blocks, 8), S(idna_utf8_mappings, 1), S(decomposition_index, 1), S(decomposition_block, 2),
    S(decomposition_data, 4), S(ccc_index, 1), S(ccc_block, 1), S(composition_index, 1), S(composition_block, 2), S(composition_data, 4), S(id_continue_flat, 4),
    S(id_start_flat, 4), S(dir_start, 4), S(dir_final, 4), S(dir_value, 1), S(combining_flat, 4)};
static u64 little(const u8* p, size_t w) {
  u64 r = 0;
  for (size_t i = 0; i < w; i++) r |= (u64)p[i] << (8 * i);
  return r;
}
static u64 big(const u8* p, size_t w) {
  u64 r = 0;
  for (size_t i = 0; i < w; i++) r = r << 8 | p[i];
  return r;
}
static void compare(const u8* const* now, const u8* packed, const char* id) {
  for (int j = 0; j < 18; j++) {
    bool ok = true;
    const Section& s = sections[j];
    for (size_t i = 0; i < s.count; i++) ok &= big(now[j] + i * s.width, s.width) == little(packed + s.off + i * s.width, s.width);
    sym_check(ok, id);
  }
}
extern "C" {
// payload: a pattern, with len free bytes from at on
void convert() {
  size_t n = tb::uncompressed_size, at = sym_param("at", 0), len = sym_param("len", 64);
  u8 *a = new u8[n], *b = new u8[n];
  for (size_t i = 0; i < n; i++) a[i] = (u8)(i * 197 + (i >> 8) * 3 + (i >> 16));
  for (size_t i = at; i < at + len && i < n; i++) a[i] = sym_u8("b");
  memcpy(b, a, n);
  ada::idna::detail::convert_table_blob_to_host_endian(b);
  const u8* t[18];
  for (int j = 0; j < 18; j++) t[j] = b + sections[j].off;
  compare(t, a, "C28.element");
  sym_reach("converted");
  delete[] a;
  delete[] b;
}
// the tables in use after set-up, against the packed payload
void setup() {
  size_t n = tb::uncompressed_size;
  u8* a = new u8[n];
  size_t k = ada::idna::deflate::inflate_raw(tb::compressed, tb::compressed_size, a, n);
  sym_check(ada::idna::ensure_tables() && k == n, "C28.setup");
  const u8* t[18] = {(const u8*)ada::idna::idna_stage1, (const u8*)ada::idna::idna_stage2, (const u8*)ada::idna::idna_bool_blocks, ada::idna::idna_utf8_mappings, ada::idna::decomposition_index,
      (const u8*)ada::idna::decomposition_block_flat, (const u8*)ada::idna::decomposition_data, ada::idna::ccc_index, ada::idna::ccc_block_flat, ada::idna::composition_index,
      (const u8*)ada::idna::composition_block_flat, (const u8*)ada::idna::composition_data, (const u8*)ada::idna::id_continue, (const u8*)ada::idna::id_start, (const u8*)ada::idna::dir_start,
      (const u8*)ada::idna::dir_final, ada::idna::dir_value, (const u8*)ada::idna::combining_ranges};
  compare(t, a, "C28.setup");
  sym_reach("setup");
  delete[] a;
}
}
