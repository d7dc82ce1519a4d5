// C10, C11, C12: is_label_valid on labels of code points that are valid in IDNA
#include "common.h"
using namespace ada::idna;
static void judge(const u32* in, size_t n, size_t p, bool any) {
  bool joiner = false, rtl = false, latermark = false;
  for (size_t i = 0; i < n; i++) {
    if (!any) sym_assume(spec::idna_valid(in[i]));
    else sym_assume(in[i] != 0x180F);  // known finding
    // characters whose class the repository takes from an older Unicode version
    sym_assume(!spec::kf_mark(in[i]) && !spec::kf_bidi(in[i]));
    bool j = in[i] == 0x200C || in[i] == 0x200D;
    joiner = joiner || j;
    u32 b = spec::bidi(in[i]);
    rtl = rtl || b == spec::B_R || b == spec::B_AL || b == spec::B_AN;
    latermark = latermark || (i > 0 && spec::is_mark(in[i]));
  }
  for (size_t i = 0; i < n; i++) sym_assume(!joiner || !spec::kf_join(in[i]));
  bool mark = spec::is_mark(in[0]), jok = spec::joiners_ok(in, n), bok = spec::bidi_ok(in, n), ok = !mark && jok && bok;
  bool got = is_label_valid(std::u32string_view((const char32_t*)in, n));
  if (p == 10) {
    sym_check(!(mark && got), "C10.leading_mark");
    if (!any) sym_check(got || !ok || !latermark, "C10.later_mark");
    if (mark) sym_reach("mark");
    if (ok && latermark) sym_reach("later");
  } else if (p == 11) {
    sym_check(!(joiner && !jok && got), "C11.context");
    sym_check(!(joiner && jok && got && !ok), "C11.other_rules");
    sym_check(got || !joiner || !ok, "C11.accept");
    if (joiner && ok) sym_reach("accept");
    if (joiner && !jok) sym_reach("refuse");
  } else {
    sym_check(!(rtl && !bok && got), "C12.rule");
    sym_check(got || !ok, "C12.accept");
    if (rtl && ok) sym_reach("accept");
    if (rtl && !bok) sym_reach("refuse");
  }
}
extern "C" void label_valid() {
  size_t n = sym_param("n", 1);
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  u32 in[12];
  size_t at = sym_param("zwnj", 99), at2 = sym_param("zwj", 99);
  for (size_t i = 0; i < n; i++) in[i] = i == at ? 0x200C : i == at2 ? 0x200D : sym_u32("c");
  judge(in, n, sym_param("p", 10), sym_param("any", 0));
}
// a run of c, n places each fixed or free (k), another run
static const char* const bname[] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"};
static const char* const kname[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"};
extern "C" void label_shape() {
  size_t n = sym_param("n", 1), pre = sym_param("pre", 0), post = sym_param("post", 0), at = 0;
  if (sym_param("nm", 0)) sym_policy(P_NOMERGE, 1);
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  u32 in[400];
  for (size_t i = 0; i < pre; i++) in[at++] = (u32)sym_param("c", 'a');
  for (size_t i = 0; i < n; i++) in[at++] = sym_param(kname[i], 0) ? sym_u32("c") : (u32)sym_param(bname[i], 0);
  for (size_t i = 0; i < post; i++) in[at++] = (u32)sym_param("d", 'a');
  judge(in, at, sym_param("p", 10), sym_param("any", 0));
}
