// LLVM IR (bitcode, LLVM 18) decoded into a compact form for symbolic execution.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "term.h"

enum IOp : uint8_t {
  I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_CALL, I_RET, I_BR,
  I_CBR, I_SWITCH, I_SELECT, I_ALLOCA, I_INSERT, I_CMPXCHG, I_RMW, I_UNREACH, I_LANDING, I_NOP, I_FP, I_UNSUP
};

enum Builtin : uint16_t {
  BI_NONE, BI_NOP, BI_MEMCPY, BI_MEMSET, BI_MEMMOVE, BI_MEMCMP, BI_MEMCHR, BI_STRLEN, BI_NEW, BI_NEW_NT,
  BI_DELETE, BI_THROW, BI_ABORT, BI_GUARD_ACQ, BI_GUARD_REL, BI_LIFE_START, BI_LIFE_END, BI_EXPECT,
  BI_ISCONST, BI_ASSUME, BI_BSWAP, BI_CTPOP, BI_UMIN, BI_UMAX, BI_SMIN, BI_SMAX, BI_CTLZ, BI_CTTZ, BI_ABS,
  BI_UADDO, BI_USUBO, BI_UMULO, BI_SADDO, BI_SSUBO, BI_SMULO, BI_FSHL, BI_FSHR, BI_OBJSIZE, BI_ATEXIT,
  BI_SYM, BI_SYM_BYTES, BI_SYM_INTERLEAVED, BI_SYM_ASSUME, BI_SYM_CHECK, BI_SYM_PARAM, BI_SYM_REACH,
  BI_SYM_CONC, BI_SYM_CHOICE, BI_SYM_POLICY, BI_SYM_NOTE, BI_SYM_CONC_BYTES, BI_SYM_SIMPLIFY, BI_SYM_EVENT, BI_FIRST, BI_UADDSAT, BI_USUBSAT, BI_BITREV, BI_UNKNOWN
};

struct GepTerm { int opd; u64 scale; uint8_t w; };
struct Instr {
  IOp op;
  uint8_t sub = 0;   // Op / predicate
  uint8_t w = 0;     // operand width in bits
  uint8_t w2 = 0;    // destination width
  uint8_t nsw = 0, nuw = 0, isptr = 0, order = 0;
  int dst = -1;
  int ns = 1;        // slots
  int a = 0, b = 0, c = 0;
  u64 imm = 0;
  std::vector<int> args;
  std::vector<GepTerm> gep;
  std::vector<std::pair<u64, int>> cases;  // value -> edge
  std::vector<std::pair<int, int>> offs;   // aggregate load/store: (byte offset, width|ptr<<8)
  std::vector<std::pair<int, u64>> byval;  // argument -> size
  int e0 = -1, e1 = -1;  // edges
  struct Fn* fn = nullptr;
  Builtin bi = BI_NONE;
  uint32_t line = 0;
  const char* file = nullptr;
};
struct Move { int dst, src, w; };
struct Edge { int from, to; std::vector<Move> moves; };
struct Block {
  std::vector<Instr> ins;
  std::vector<std::pair<int, int>> loops;  // (order in parent region, loop id), outermost first
  int ord = 0;
};
struct Fn {
  std::string name, pretty;
  bool decl = true;
  Builtin bi = BI_NONE;
  int nregs = 0;
  std::vector<uint8_t> regw, regptr;
  std::vector<Val> consts;
  std::vector<Block> blocks;
  std::vector<Edge> edges;
  std::vector<int> params;  // register of each parameter slot
  struct LoopInfo { int header; std::set<int> blocks; };
  std::vector<LoopInfo> loops;
  std::vector<int> headerOf;  // block -> loop id it heads, or -1
  std::map<std::pair<int, int>, std::vector<int>> liveCache;
  std::vector<std::vector<uint8_t>> liveIn;
  u64 addr = 0;
  u64 calls = 0;
  bool isHarness = false;
  void* llvm = nullptr;
};
struct GlobalInit { std::string name; bool isConst; std::vector<uint8_t> bytes; std::vector<uint8_t> def; u64 slot; };
struct Module {
  std::vector<std::unique_ptr<Fn>> fns;
  std::map<std::string, Fn*> byName;
  std::vector<GlobalInit> globals;
  std::map<u64, Fn*> fnAt;
  std::map<std::string, u64> gaddr;
  bool be = false;
  std::vector<std::string> ctors;
};
void uses(const Instr& n, std::vector<int>& u);
Module* loadModule(const std::string& path);
constexpr u64 SLOT = 24, OFF0 = 4096;
constexpr u64 G0 = 1, S0 = 1 << 16, H0 = 1 << 17;
