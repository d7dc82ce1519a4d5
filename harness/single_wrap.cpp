// the single-file distribution's side of h_single: compiled with its header alone, namespace renamed by -Dada=adas
#include "ada_idna.h"
namespace single {
using namespace ada::idna;
bool ascii_into(std::string_view v, std::string& o) { return to_ascii(v, o); }
std::string ascii(std::string_view v) { return to_ascii(v); }
bool unicode_into(std::string_view v, std::string& o) { return to_unicode(v, o); }
std::string unicode(std::string_view v) { return to_unicode(v); }
bool forbidden(std::string_view v) { return contains_forbidden_domain_code_point(v); }
bool verify(std::string_view v) { return verify_punycode(v); }
bool decode(std::string_view v, std::u32string& o) { return punycode_to_utf32(v, o); }
bool encode(std::u32string_view v, std::string& o) { return utf32_to_punycode(v, o); }
bool map_into(std::u32string_view v, std::u32string& o) { return map(v, o); }
std::u32string map_of(std::u32string_view v) { return map(v); }
bool norm(std::u32string& v) { return normalize(v); }
bool nfc(std::u32string_view v) { return is_already_nfc(v); }
bool label(std::u32string_view v) { return is_label_valid(v); }
bool ident(char32_t c, bool f) { return valid_name_code_point(c, f); }
size_t len32(const char* p, size_t n) { return utf32_length_from_utf8(p, n); }
size_t to32(const char* p, size_t n, char32_t* o) { return utf8_to_utf32(p, n, o); }
size_t len8(const char32_t* p, size_t n) { return utf8_length_from_utf32(p, n); }
size_t to8(const char32_t* p, size_t n, char* o) { return utf32_to_utf8(p, n, o); }
void amap(char* p, size_t n) { ascii_map(p, n); }
}
