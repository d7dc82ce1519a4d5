// C08, C09
#include "common.h"
using namespace ada::idna;
static void judge(const u32* in, size_t n) {
  static spec::Seq<u32, 400> want;
  want.n = 0;
  spec::nfc(in, n, want);
  std::u32string s((const char32_t*)in, n);
  size_t p = sym_param("p", 0);  // 8: only C08, 9: only C09, 0: both
  if (p != 8) {
    bool already = is_already_nfc(s);
    bool eq = spec::same(in, n, want.d, want.n);
    sym_check(already == eq, "C09.iff");
    bool untouched = spec::same(s.data(), s.size(), in, n);
    sym_check(untouched, "C09.pure");
  }
  if (p != 9) {
    bool ok = normalize(s);
    sym_check(ok, "C08.ok");
    sym_check(spec::same(s.data(), s.size(), want.d, want.n), "C08.nfc");
  }
}
// one arbitrary sequence of n code points
extern "C" void norm_nfc() {
  size_t n = sym_param("n", 1);
  u32 in[140];
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  for (size_t i = 0; i < n; i++) in[i] = sym_u32("c");
  for (size_t i = 0; i < n; i++) sym_assume(!spec::kf_norm(in[i]));
  judge(in, n);
  sym_reach("norm");
}
// n code points, each from a range of its own: base b, k free low bits (k = 0: fixed)
static const char *bname[] = {"b0", "b1", "b2", "b3", "b4", "b5"}, *kname[] = {"k0", "k1", "k2", "k3", "k4", "k5"};
extern "C" void norm_ranges() {
  size_t n = sym_param("n", 1);
  u32 in[140];
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  for (size_t i = 0; i < n; i++) {
    size_t k = sym_param(kname[i], 0);
    in[i] = (k ? sym_u32("c") & (u32)((1ull << k) - 1) : 0) + (u32)sym_param(bname[i], 0);
  }
  for (size_t i = 0; i < n; i++) sym_assume(!spec::kf_norm(in[i]));
  judge(in, n);
  sym_reach("norm");
}
// a run of c, then n code points with ranges of their own, then another run
extern "C" void norm_long() {
  size_t n = sym_param("n", 1), pre = sym_param("pre", 20), post = sym_param("post", 20);
  u32 in[140];
  size_t at = 0;
  for (size_t i = 0; i < pre; i++) in[at++] = (u32)sym_param("c", 'a');
  for (size_t i = 0; i < n; i++) {
    size_t k = sym_param(kname[i], 0);
    in[at++] = (k ? sym_u32("c") & (u32)((1ull << k) - 1) : 0) + (u32)sym_param(bname[i], 0);
  }
  for (size_t i = 0; i < post; i++) in[at++] = (u32)sym_param("d", 'b');
  for (size_t i = 0; i < at; i++) sym_assume(!spec::kf_norm(in[i]));
  judge(in, at);
  sym_reach("norm");
}
