// Native implementation of the harness interface: runs one harness entry on the
// real code with the input values of a file (lines "value NAME NUMBER",
// "param NAME NUMBER").  Exit status: 0 every assertion held, 1 an assertion
// failed, 3 an assumption does not hold; a sanitizer or valgrind exits with 99.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include "sym.h"
static std::map<std::string, uint64_t> vals, params;
static std::map<std::string, int> occ;
static bool failed = false;
static uint64_t next(const char* n) {
  int k = occ[n]++;
  std::string f = k ? std::string(n) + "#" + std::to_string(k) : n;
  auto it = vals.find(f);
  return it == vals.end() ? 0 : it->second;
}
extern "C" {
uint8_t sym_u8(const char* n) { return next(n); }
uint16_t sym_u16(const char* n) { return next(n); }
uint32_t sym_u32(const char* n) { return next(n); }
uint64_t sym_u64(const char* n) { return next(n); }
bool sym_bool(const char* n) { return next(n) & 1; }
void sym_bytes(void* p, size_t n, const char* nm) {
  for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = next((std::string(nm) + "." + std::to_string(i)).c_str());
}
void sym_interleaved(uint32_t* p, size_t n, unsigned bits, const char* nm) {
  for (size_t i = 0; i < n; i++) p[i] = next((std::string(nm) + "." + std::to_string(i)).c_str()) & (bits >= 32 ? ~0u : (1u << bits) - 1);
}
void sym_assume(bool c) {
  if (!c) {
    printf("assumption does not hold\n");
    fflush(stdout);
    _Exit(failed ? 1 : 3);
  }
}
void sym_check(bool c, const char* id) {
  if (!c) {
    printf("FAILED %s\n", id);
    fflush(stdout);
    failed = true;
  }
}
uint64_t sym_param(const char* n, uint64_t d) { return params.count(n) ? params[n] : d; }
void sym_reach(const char* id) { printf("REACHED %s\n", id); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_choice(const char* n, uint64_t) { return next(n); }
void sym_policy(uint64_t, uint64_t) {}
void sym_note(const char* n, uint64_t v) { printf("NOTE %s %llu\n", n, (unsigned long long)v); }
void sym_concretize_bytes(const void*, size_t) {}
void sym_simplify() {}
void sym_event(uint64_t, uint64_t) {}
}
int main(int argc, char** argv) {
  std::string entry;
  bool init = true;
  std::ifstream f(argv[1]);
  std::string l;
  while (std::getline(f, l)) {
    std::stringstream ss(l);
    std::string k, n;
    uint64_t v;
    ss >> k >> n;
    if (k == "entry") entry = n;
    else if (k == "noinit") init = false;
    else if (k == "value" && ss >> v) vals[n] = v;
    else if (k == "param" && ss >> v) params[n] = v;
  }
  typedef void (*Fn)();
  Fn e = (Fn)dlsym(RTLD_DEFAULT, entry.c_str()), i = (Fn)dlsym(RTLD_DEFAULT, "sym_init");
  if (!e) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
  try {
    if (init && i) i();
    e();
  } catch (std::exception& x) {
    printf("FAILED exception %s\n", x.what());
    return 1;
  }
  return failed ? 1 : 0;
}
