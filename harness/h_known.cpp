// One concrete witness per known finding: the check fails as long as the finding exists.
#include "common.h"
#include "ada/idna/to_ascii.h"
#include "ada/idna/to_unicode.h"
using namespace ada::idna;
extern "C" {
void known_norm() {  // U+105D2 U+0307 composes to U+105C9 since Unicode 16
  std::u32string s(U"\U000105D2\u0307");
  normalize(s);
  sym_check(s == U"\U000105C9", "norm");
}
void known_normtest() { sym_check(!is_already_nfc(U"\U000105D2\u0307"), "normtest"); }
void known_mark() { sym_check(!is_label_valid(U"\u1AE0"), "mark"); }         // gc=Mn since 17
void known_mark2() { sym_check(!is_label_valid(U"\u180Fa"), "mark2"); }      // gc=Mn since 14
void known_join() { sym_check(is_label_valid(U"\u0860\u200C\u0860"), "join"); }  // Joining_Type=D since 10
void known_bidi() { sym_check(!is_label_valid(U"\u0870\u0061"), "bidi"); }   // Bidi_Class=AL since 14
void known_ascii() { sym_check(to_ascii("\xe0\xa1\xb0\x61").empty(), "ascii"); }
void known_xn() { sym_check(to_ascii("xn--a-eld.\xc3\xa9").empty(), "xn"); }
void known_unicode() { sym_check(to_unicode("xn--a-eld") == "xn--a-eld", "unicode"); }
void known_same() { sym_check(to_ascii("\xf0\x90\x97\x92\xcc\x87") == to_ascii("\xf0\x90\x97\x89"), "same"); }
}
