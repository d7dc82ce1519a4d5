// Interface between harnesses and the symbolic executor / the native replayer.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
bool sym_bool(const char* name);
void sym_bytes(void* p, size_t n, const char* name);
void sym_interleaved(uint32_t* p, size_t n, unsigned bits, const char* name);  // n values of `bits` bits
void sym_assume(bool c);
void sym_check(bool c, const char* id);
uint64_t sym_param(const char* name, uint64_t dflt);
void sym_reach(const char* id);
uint64_t sym_concretize(uint64_t v);           // case split on every feasible value
uint64_t sym_choice(const char* name, uint64_t n);  // case split, value in [0,n)
void sym_policy(uint64_t flag, uint64_t value);
void sym_note(const char* name, uint64_t v);
void sym_concretize_bytes(const void* p, size_t n);
void sym_simplify();
void sym_event(uint64_t a, uint64_t b);
}
enum { P_REG64 = 0, P_PTR = 1, P_MEM64 = 2, P_NOREUSE = 3, P_NOMERGE = 4, P_UNINIT = 5, P_SPLITDIV = 6 };
