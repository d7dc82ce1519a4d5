// C01, C02
#include "common.h"
using namespace ada::idna;
// UTF-8 decoding of n arbitrary bytes
extern "C" void codec_decode() {
  size_t n = sym_param("n", 1), pre = sym_param("ascii", 0);
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  u8* in = new u8[n + 1];
  sym_bytes(in, n, "b");
  for (size_t i = 0; i < pre; i++) sym_assume(in[i] < 0x80);
  spec::Seq<u32, 40> want;
  bool ok = spec::utf8_decode(in, n, want);
  size_t len = sym_concretize(utf32_length_from_utf8((const char*)in, n));
  if (ok) sym_check(len == want.n, "C01.length");
  char32_t* out = new char32_t[len];
  size_t got = utf8_to_utf32((const char*)in, n, out);
  if (ok) {
    sym_check(spec::same(out, got, want.d, want.n), "C01.value");
    sym_reach("accept");
  } else {
    sym_check(got == 0, "C01.refuse");
    sym_reach("refuse");
  }
  delete[] out;
  delete[] in;
}
// UTF-8 encoding of n arbitrary values, then decoding of the result
extern "C" void codec_encode() {
  size_t n = sym_param("n", 1);
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  u32 in[8];
  for (size_t i = 0; i < n; i++) in[i] = sym_u32("c");
  spec::Seq<u8, 40> want;
  bool ok = spec::utf8_encode(in, n, want);
  const char32_t* s = (const char32_t*)in;
  size_t len = sym_concretize(utf8_length_from_utf32(s, n));
  if (ok) sym_check(len == want.n, "C02.length");
  char* out = new char[len];
  size_t got = utf32_to_utf8(s, n, out);
  if (ok) {
    sym_check(spec::same((const u8*)out, got, want.d, want.n), "C02.bytes");
    size_t back = sym_concretize(utf32_length_from_utf8(out, got));
    sym_check(back == n, "C02.back_length");
    char32_t* r = new char32_t[n];
    if (back == n) sym_check(spec::same(r, utf8_to_utf32(out, got, r), in, n), "C02.roundtrip");
    delete[] r;
    sym_reach("accept");
  } else {
    sym_check(got == 0, "C02.refuse");
    sym_reach("refuse");
  }
  delete[] out;
}
