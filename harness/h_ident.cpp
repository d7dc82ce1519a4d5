// C20
#include "common.h"
using namespace ada::idna;
static bool want(u32 c, bool first) {
  if (c > 0x10ffff || (c >> 11) == 27) return false;
  if (first) return c == '$' || c == '_' || spec::id_start(c);
  return c == '$' || c == 0x200c || c == 0x200d || spec::id_continue(c);
}
extern "C" {
void ident() {
  u32 c = sym_u32("c");
  bool first = sym_param("first", 2) == 2 ? sym_bool("first") : sym_param("first", 2) != 0;
  bool got = valid_name_code_point((char32_t)c, first);
  sym_check(got == want(c, first), "C20.iff");
  if (got) sym_reach("accept");
  else sym_reach("refuse");
}
// the answer to one question does not change the answer to the next
void ident_twice() {
  if (sym_param("r64", 0)) sym_policy(P_REG64, 1);
  u32 c = sym_u32("c"), d = sym_u32("c");
  bool f = sym_bool("first"), g = sym_bool("first");
  (void)valid_name_code_point((char32_t)d, g);
  bool got = valid_name_code_point((char32_t)c, f);
  sym_check(got == want(c, f), "C20.again");
  sym_reach("again");
}
// neither does asking about the same or a nearby value, nor a long history of other questions
void ident_same() {
  u32 c = sym_u32("c"), k = (u32)sym_param("k", 0);
  bool f = sym_bool("first"), g = sym_bool("first");
  (void)valid_name_code_point((char32_t)(c + k), g);
  sym_check(valid_name_code_point((char32_t)c, f) == want(c, f), "C20.same");
  sym_check(valid_name_code_point((char32_t)(c + k), f) == want(c + k, f), "C20.after");
  sym_check(valid_name_code_point((char32_t)c, g) == want(c, g), "C20.same2");
  sym_reach("again");
}
void ident_history() {
  size_t n = sym_param("n", 300), step = sym_param("step", 0x61), from = sym_param("from", 0x24);
  for (size_t i = 0; i < n; i++) (void)valid_name_code_point((char32_t)((from + i * step) % 0x110400), i & 1);
  u32 c = sym_u32("c");
  bool f = sym_bool("first");
  sym_check(valid_name_code_point((char32_t)c, f) == want(c, f), "C20.history");
  sym_check(valid_name_code_point((char32_t)c, f) == want(c, f), "C20.history2");
  sym_reach("again");
}
}
