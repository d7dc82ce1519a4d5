// C07
#include "common.h"
using namespace ada::idna;
static void judge(const u32* in, size_t n) {
  static spec::Seq<u32, 600> want;
  want.n = 0;
  bool ok = spec::map(in, n, want);
  std::u32string out(U"old contents");
  std::u32string_view s((const char32_t*)in, n);
  bool got = map(s, out);
  sym_check(ok == got, "C07.accept");
  if (!ok || !got) {
    sym_reach("disallowed");
    return;
  }
  sym_check(spec::same(out.data(), out.size(), want.d, want.n), "C07.value");
  if (sym_param("again", 1)) {
    std::u32string twice;
    sym_check(map(out, twice), "C07.again");
    sym_check(spec::same(twice.data(), twice.size(), out.data(), out.size()), "C07.idempotent");
  }
  sym_reach("mapped");
}
extern "C" void map_seq() {
  size_t n = sym_param("n", 1);
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  u32 in[6];
  for (size_t i = 0; i < n; i++) in[i] = sym_u32("c");
  judge(in, n);
}
// c x pre, then n code points, then d x post. Code point i is base b_i with k_i free low bits, or code point r_i - 1 plus b_i.
// call = 1: the code points up to `cut` are mapped by a call of their own before
static const char *bname[] = {"b0", "b1", "b2", "b3", "b4", "b5"}, *kname[] = {"k0", "k1", "k2", "k3", "k4", "k5"}, *rname[] = {"r0", "r1", "r2", "r3", "r4", "r5"};
extern "C" void map_shape() {
  size_t n = sym_param("n", 1), pre = sym_param("pre", 0), post = sym_param("post", 0), cut = sym_param("cut", 0);
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  u32 in[200];
  size_t at = 0;
  for (size_t i = 0; i < pre; i++) in[at++] = (u32)sym_param("c", 'a');
  for (size_t i = 0; i < n; i++) {
    size_t k = sym_param(kname[i], 0), r = sym_param(rname[i], 0);
    in[at++] = (r ? in[pre + r - 1] : k ? sym_u32("c") & (u32)((1ull << k) - 1) : 0) + (u32)sym_param(bname[i], 0);
  }
  for (size_t i = 0; i < post; i++) in[at++] = (u32)sym_param("d", 'b');
  if (cut) {
    std::u32string before;
    (void)map(std::u32string_view((const char32_t*)in, cut), before);
  }
  judge(in + cut, at - cut);
}
