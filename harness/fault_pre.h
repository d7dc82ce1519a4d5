// included before the library's sources: calls of the decompressor go through the harness
#pragma once
#include <cstddef>
#include <cstdint>
#include "raw_inflate.hpp"
namespace ada::idna::deflate {
size_t inflate_wrapped(const uint8_t* src, size_t src_len, uint8_t* dst, size_t dst_cap);
inline size_t inflate_genuine(const uint8_t* src, size_t src_len, uint8_t* dst, size_t dst_cap) { return inflate_raw(src, src_len, dst, dst_cap); }
}
#define inflate_raw inflate_wrapped
