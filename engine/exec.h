#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
// Symbolic executor with state merging.
#pragma once
#include <array>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "ir.h"

template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  bool operator==(const Ref& o) const { return p == o.p; }
  T* mut() {  // copy on write
    if (p->rc > 1) { T* q = new T(*p); q->rc = 0; *this = Ref(q); }
    return p;
  }
};

// cell tags
constexpr uint8_t TG_UNDEF = 0, TG_CONC = 1, TG_SYM = 2, TG_MASK = 3, TG_WIDE = 4, TG_PTR = 8;

struct SymByte { Term* t; uint8_t k; };
struct Obj {
  int rc = 0;
  uint8_t kind = 0;  // 0 global, 1 stack, 2 heap
  bool ro = false;
  bool anySym = false;
  uint64_t ver = 0;  // content id for caching (read-only objects)
  std::vector<uint8_t> d, tag;
  std::vector<SymByte> s;
  const char* site = nullptr;
  uint32_t line = 0;
  size_t size() const { return d.size(); }
};
struct Frame {
  int rc = 0;
  Fn* fn;
  int bb = 0, ip = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> iters;
  size_t stkBase = 0;
};
struct State {
  std::vector<Ref<Frame>> fr;
  std::vector<Ref<Obj>> g, stk, heap;
  B pc = BT;
  std::vector<uint32_t> cls;             // explicit case splits (never merged across)
  std::vector<std::pair<std::string, u64>> clsNames;
  std::map<std::string, int> occ;        // occurrences of input names
  std::map<std::string, u64> notes;
  std::vector<std::array<Val, 5>> events;
  std::vector<uint8_t> pol;
  u64 nsteps = 0, mh = 0;
  u64 fork = 0;                          // pending case split of the current instruction: not to be merged back
};
struct Candidate {
  std::string kind, msg, where;
  std::vector<std::pair<std::string, u64>> model;  // input name#occ -> value
};
struct Budget : std::exception { std::string why; Budget(std::string w) : why(w) {} };

enum Pol { P_REG64 = 0, P_PTR = 1, P_MEM64 = 2, P_NOREUSE = 3, P_NOMERGE = 4, P_UNINIT = 5, P_SPLITDIV = 6, P_N = 8 };

struct Engine {
  ::Module* M = nullptr;
  Sym S;
  std::vector<Ref<Obj>> constObj;      // by slot
  std::vector<int> gIndex;             // slot -> index into State::g, or -1
  std::vector<std::string> gName;
  std::map<std::string, u64> params;
  // results
  std::vector<Candidate> cands;
  std::map<std::string, u64> reach;
  std::map<std::string, u64> usedParams;
  std::map<std::string, std::pair<u64, u64>> checks;  // id -> (times, by solver)
  std::set<std::string> candKeys;
  std::set<Fn*> entered;
  bool incomplete = false;
  std::string incompleteWhy;
  bool haltFirst = true;
  u64 maxAtomics = 8;
  bool record = false;                 // events are recorded (concurrency extraction)
  bool concreteMode = false;           // inputs come from values
  std::map<std::string, u64> values;
  double deadline = 0;
  size_t maxConc = 4096, maxForkVals = 600;
  std::vector<State> finals;           // kept in record mode
  int trace = 0;
  size_t maxCands = 4;
  size_t maxNodes = 100u << 20;
  size_t heapFloor = 0;
  Val retval;

  State initState();
  void run(State& init, Fn* entry, const std::vector<Val>& args, bool keepFinal, State* out);

 public:
  typedef std::vector<uint32_t> Key;
  std::map<Key, std::vector<State*>> work;
  std::map<std::string, uint32_t> inputIdx;  // name#occ -> invar
  std::vector<Val> inputVal;
  std::unordered_map<uint64_t, std::vector<std::pair<std::array<u64, 4>, Val>>> loadCache;

  uint32_t sigOf(const State& s);
  u64 memSig(const State& s) const;
  u64 slotOfPtr(const Val& v) const;
  Key keyOf(const State& s);
  void push(State* s);
  bool tryMerge(State* a, State* b);
  const std::vector<int>& liveAt(Fn* f, int bb, int ip);
  enum R { CONT, DEAD, FORKED, DONE };
  R step(State*& s);
  Val get(Frame* f, int o) const { return o >= 0 ? f->regs[o] : f->fn->consts[-1 - o]; }
  bool takeEdge(State* s, int e);
  void enter(State* s, Fn* fn, const std::vector<Val>& args, const Instr* call);
  Obj* robj(State* s, u64 slot);
  Obj* wobj(State* s, u64 slot);
  bool access(State*& s, Val& addr, u64 n, bool write, int opdReg, u64& slot, R& r);
  Val loadBytes(State* s, Obj* o, u64 off, u64 n);
  Val loadSym(State* s, Obj* o, u64 slot, const Val& addr, u64 n);
  void storeBytes(State* s, Obj* o, u64 off, u64 n, const Val& v, bool ptr);
  bool concretize(State* s, int opd, int w, size_t cap, R& r, const char* what);
  R call(State*& s, Instr& I);
  R builtin(State*& s, Instr& I);
  bool require(State* s, B cond, const char* kind, const std::string& msg, const Instr* I);
  void addCand(State* s, B bad, const char* kind, const std::string& msg, const Instr* I);
  std::string cstr(State* s, const Val& p);
  Val input(State* s, const std::string& name, int w);
  u64 heapAlloc(State* s, u64 n, const Instr* I);
  u64 forkCtr = 0;
  double confirmBudget = 5;
  std::vector<Candidate> samples;
  size_t maxSamples = 4;
  u64 rng = 1;
  size_t splitK = 0;
  int splitW = 8, splitId = 0;
  std::vector<State*> splitPool;
  std::atomic<unsigned>* splitCtr = nullptr;
  std::vector<pid_t> kids;
  void splitWork();
  bool nextShare();
  State* curS = nullptr;
  const Instr* curI = nullptr;
 public:
  std::string curWhere();
  int slowTrace = getenv("SYM_TRACE") ? atoi(getenv("SYM_TRACE")) : 0;
  void fail(const std::string& w) { throw Budget(w); }
  void retTo(State* s, const std::vector<Val>& v);
  B nswOk(Op op, const Val& a, const Val& b, const Val& r, int w);
  B wideMul(const Val& a, const Val& b, int w, B* fits);
  void recordAccess(State* s, const Val& a, u64 n, int wr, const Val& v);
  u64 atomicsOf(State* s);
  Val recordAtomic(State* s, const Instr& I, const Val& a, int kind, const Val& cur);
  bool undefSeen = false;
  int nlive = 0;
};
