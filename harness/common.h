#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <string_view>
#include "idna.h"
#include "ada/idna/normalization.h"
#include "ada/idna/validity.h"
#include "ada/idna/mapping.h"
#include "ada/idna/punycode.h"
#include "ada/idna/unicode_transcoding.h"
#include "ada/idna/identifier.h"
#include "spec.h"
#include "sym.h"
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint64_t u64;
#ifndef SYM_INIT_OWN
extern "C" inline __attribute__((used)) void sym_init() {
  std::u32string o;
  (void)ada::idna::map(U"a", o);
}
#endif
