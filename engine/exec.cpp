#include <signal.h>
#include <sys/prctl.h>
#include "exec.h"

#include <time.h>

static double nowS() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
constexpr u64 OFFM = (1ull << SLOT) - 1;

// ---------------------------------------------------------------- objects
Obj* Engine::robj(State* s, u64 slot) {
  if (slot >= H0) { u64 i = slot - H0; return i < s->heap.size() ? s->heap[i].p : nullptr; }
  if (slot >= S0) { u64 i = slot - S0; return i < s->stk.size() ? s->stk[i].p : nullptr; }
  if (slot >= gIndex.size()) return nullptr;
  int g = gIndex[slot];
  return g >= 0 ? s->g[g].p : constObj[slot].p;
}
Obj* Engine::wobj(State* s, u64 slot) {
  Obj* o;
  if (slot >= H0) o = s->heap[slot - H0].mut();
  else if (slot >= S0) o = s->stk[slot - S0].mut();
  else o = s->g[gIndex[slot]].mut();
  o->ver = 0;
  return o;
}
State Engine::initState() {
  State st;
  st.pol.assign(P_N, 0);
  st.pol[P_PTR] = 2;
  u64 mx = 0;
  for (auto& f : M->fns) mx = std::max(mx, f->addr >> SLOT);
  for (auto& g : M->globals) mx = std::max(mx, g.slot);
  gIndex.assign(mx + 1, -1);
  constObj.resize(mx + 1);
  gName.resize(mx + 1);
  for (auto& g : M->globals) {
    Obj* o = new Obj;
    o->d = g.bytes;
    o->tag.resize(g.bytes.size());
    for (size_t i = 0; i < g.bytes.size(); i++) o->tag[i] = g.def[i] ? TG_CONC : TG_UNDEF;
    gName[g.slot] = g.name;
    if (g.isConst) { o->ro = true; o->ver = g.slot; constObj[g.slot] = Ref<Obj>(o); }
    else { gIndex[g.slot] = st.g.size(); st.g.push_back(Ref<Obj>(o)); }
  }
  return st;
}
static std::string whereOf(State* s, const Instr* I) {
  std::string r;
  char buf[64];
  for (size_t k = s->fr.size(); k-- && k + 6 > s->fr.size();) {
    Frame* f = s->fr[k].p;
    const Instr* i = (k + 1 == s->fr.size() && I) ? I : (f->ip < (int)f->fn->blocks[f->bb].ins.size() ? &f->fn->blocks[f->bb].ins[f->ip] : nullptr);
    std::string fn = f->fn->pretty;
    size_t p = fn.find('(');
    if (p != std::string::npos && p > 0) fn = fn.substr(0, p);
    std::string file = i && i->file ? i->file : "";
    size_t q = file.rfind('/');
    if (q != std::string::npos) file = file.substr(q + 1);
    snprintf(buf, sizeof buf, ":%u", i ? i->line : 0);
    if (!r.empty()) r += " < ";
    r += fn + "@" + file + buf;
  }
  return r;
}
void Engine::addCand(State* s, B bad, const char* kind, const std::string& msg, const Instr* I) {
  std::string where = whereOf(s, I);
  std::string k = std::string(kind) + "|" + msg + "|" + where.substr(0, where.find(" < "));
  if (candKeys.count(k)) return;
  std::vector<u64> m;
  int r = S.solve({bad}, &m);
  if (r == 0) {
    if (!S.bdd.hasDef(bad)) fail("internal: BDD and solver disagree");
    return;
  }
  if (r < 0) {
    if (S.bdd.hasDef(bad)) { incomplete = true; incompleteWhy = "solver gave no answer for " + k; return; }
    std::vector<int8_t> a;
    S.bdd.anySat(bad, a);
    m.assign(S.invars.size(), 0);
    for (size_t i = 0; i < S.invars.size(); i++)
      for (int b = 0; b < S.invars[i].w; b++) if (a[S.invars[i].bitvar[b]] == 1) m[i] |= 1ull << b;
  }
  candKeys.insert(k);
  Candidate c;
  c.kind = kind;
  c.msg = msg;
  c.where = where;
  for (size_t i = 0; i < S.invars.size(); i++) c.model.push_back({S.invars[i].name, m[i]});
  for (auto& x : s->clsNames) c.model.push_back(x);
  cands.push_back(c);
  if (cands.size() >= maxCands) { if (splitCtr) *splitCtr = 1u << 30; fail("candidates"); }
}
// Obligation: cond must hold.  Returns false if the state is dead afterwards.
bool Engine::require(State* s, B cond, const char* kind, const std::string& msg, const Instr* I) {
  if (cond == BT) return true;
  B bad = S.pcAnd(s->pc, cond ^ 1);
  if (bad == BF) return true;
  S.st.vc_z3++;
  if (S.feasible(bad)) addCand(s, bad, kind, msg, I);
  s->pc = S.pcAnd(s->pc, cond);
  return S.feasible(s->pc);
}
bool Engine::concretize(State* s, int o, int w, size_t cap, R& r, const char* what) {
  Frame* f = s->fr.back().p;
  Val v = get(f, o);
  if (v.conc()) return true;
  std::vector<std::pair<u64, B>> vals;
  if (!S.enumVals(v, w, s->pc, cap, vals)) fail(std::string("too many values for ") + what + " at " + whereOf(s, nullptr));
  if (vals.empty()) { delete s; r = DEAD; return false; }
  for (size_t i = 1; i < vals.size(); i++) {
    State* n = new State(*s);
    n->pc = vals[i].second;
    n->fork = ++forkCtr;
    n->fr.back().mut()->regs[o] = Val(vals[i].first);
    push(n);
    S.st.forks++;
  }
  s->pc = vals[0].second;
  s->fr.back().mut()->regs[o] = Val(vals[0].first);
  if (vals.size() == 1) return true;
  s->fork = ++forkCtr;
  push(s);
  r = FORKED;
  return false;
}
// Resolves an address to (slot, in-bounds); on return true the access is safe.
bool Engine::access(State*& s, Val& addr, u64 n, bool write, int opdReg, u64& slot, R& r) {
  const Instr* I = nullptr;
  auto die = [&](const char* kind, const std::string& m) {
    S.st.vc_z3++;
    addCand(s, s->pc, kind, m, I);
    delete s;
    s = nullptr;
    r = DEAD;
    return false;
  };
  if (addr.conc()) slot = addr.c >> SLOT;
  else {
    B b[64];
    S.bits(addr, 64, b);
    bool k = true;
    u64 hi = 0;
    for (int i = SLOT; i < 64; i++) { if (!Bdd::isc(b[i])) k = false; else if (b[i] == BT) hi |= 1ull << (i - SLOT); }
    if (!k) {
      Val up = S.mkBits(b + SLOT, 64 - SLOT);
      std::vector<std::pair<u64, B>> vals;
      if (!S.enumVals(up, 64 - SLOT, s->pc, 64, vals)) fail("pointer to too many objects");
      if (vals.empty()) { delete s; s = nullptr; r = DEAD; return false; }
      for (size_t i = vals.size(); i--;) {
        State* q = i ? new State(*s) : s;
        q->pc = vals[i].second;
        B c[64];
        for (int j = 0; j < (int)SLOT; j++) c[j] = b[j];
        for (int j = SLOT; j < 64; j++) c[j] = (vals[i].first >> (j - SLOT) & 1) ? BT : BF;
        Val nv = S.under(S.mkBits(c, 64), 64, q->pc);
        if (opdReg >= 0) q->fr.back().mut()->regs[opdReg] = nv;
        else fail("symbolic constant address");
        if (vals.size() > 1) { q->fork = ++forkCtr; push(q); }
        else { addr = nv; slot = vals[0].first; }
      }
      if (vals.size() > 1) { r = FORKED; return false; }
    } else slot = hi;
  }
  Obj* o = robj(s, slot);
  if (!o) {
    if (slot == 0 || slot == (~0ull >> SLOT)) return die("null", "null or near-null pointer access");
    if (slot >= H0 && slot - H0 < s->heap.size()) return die("uaf", "use of freed memory");
    if (slot >= S0 && slot < H0) return die("uaf", "use of dead stack memory");
    return die("wild", "access through an invalid pointer");
  }
  if (write && o->ro) return die("const", "write to a constant");
  u64 sz = o->size();
  if (addr.conc()) {
    i64 off = (i64)(addr.c & OFFM) - (i64)OFF0;
    if (off < 0 || (u64)off + n > sz) {
      char buf[96];
      snprintf(buf, sizeof buf, "%s of %llu bytes at offset %lld of a %llu-byte object", write ? "write" : "read", (unsigned long long)n, (long long)off, (unsigned long long)sz);
      return die(write ? "oob-write" : "oob-read", buf);
    }
    return true;
  }
  Val lo = S.trunc(addr, SLOT);
  if (sz < n) return die(write ? "oob-write" : "oob-read", "object too small");
  B ok = S.bdd.and_(S.cmpUlt(lo, Val(OFF0), SLOT) ^ 1, S.cmpUlt(lo, Val(OFF0 + sz - n + 1), SLOT));
  if (!require(s, ok, write ? "oob-write" : "oob-read", "symbolic offset outside the object", I)) {
    delete s;
    s = nullptr;
    r = DEAD;
    return false;
  }
  return true;
}
static inline u64 rdle(const uint8_t* p, u64 n) {
  u64 v = 0;
  memcpy(&v, p, n);
  return v;
}
Val Engine::loadBytes(State* s, Obj* o, u64 off, u64 n) {
  bool conc = true, und = false;
  for (u64 i = 0; i < n; i++) {
    uint8_t t = o->tag[off + i] & TG_MASK;
    if (t == TG_SYM) conc = false;
    else if (t == TG_UNDEF) und = true;
  }
  if (und) undefSeen = true;
  if (conc) {
    u64 v = rdle(&o->d[off], n);
    if (M->be) v = __builtin_bswap64(v) >> (64 - 8 * n);
    return Val(v);
  }
  // whole term?
  if (!M->be && (o->tag[off] & TG_MASK) == TG_SYM && o->s[off].k == 0) {
    Term* t = o->s[off].t;
    if (t->w <= 8 * n) {
      bool same = true;
      for (u64 i = 0; i < n && same; i++) {
        if ((o->tag[off + i] & TG_MASK) == TG_SYM) same = o->s[off + i].t == t && o->s[off + i].k == i;
        else {
          // constant byte inside the term
          for (int k = 0; k < 8 && same; k++) {
            B b = i * 8 + k < t->w ? t->b[i * 8 + k] : BF;
            same = b == ((o->d[off + i] >> k & 1) ? BT : BF);
          }
        }
      }
      if (same) return Val(0, t);
    }
  }
  B b[64];
  for (u64 i = 0; i < n; i++) {
    u64 j = M->be ? n - 1 - i : i;
    u64 p = off + i;
    if ((o->tag[p] & TG_MASK) == TG_SYM) {
      Term* t = o->s[p].t;
      int k = o->s[p].k;
      for (int q = 0; q < 8; q++) b[j * 8 + q] = (unsigned)(k * 8 + q) < t->w ? t->b[k * 8 + q] : BF;
    } else
      for (int q = 0; q < 8; q++) b[j * 8 + q] = (o->d[p] >> q & 1) ? BT : BF;
  }
  return S.mkBits(b, 8 * n);
}
static inline void setSym(Obj* o, u64 p, Term* t, int k, uint8_t fl) {
  bool c = true;
  uint8_t v = 0;
  for (int q = 0; q < 8; q++) {
    B b = (unsigned)(k * 8 + q) < t->w ? t->b[k * 8 + q] : BF;
    if (!Bdd::isc(b)) { c = false; break; }
    if (b == BT) v |= 1 << q;
  }
  if (c) { o->d[p] = v; o->tag[p] = TG_CONC | fl; return; }
  if (o->s.size() != o->d.size()) o->s.resize(o->d.size());
  o->anySym = true;
  o->tag[p] = TG_SYM | fl;
  o->s[p] = SymByte{t, (uint8_t)k};
}
void Engine::storeBytes(State* s, Obj* o, u64 off, u64 n, const Val& v, bool ptr) {
  uint8_t fl = (ptr ? TG_PTR : 0) | (n == 8 ? TG_WIDE : 0);
  if (v.conc()) {
    u64 c = v.c;
    if (M->be) c = __builtin_bswap64(c) >> (64 - 8 * n);
    memcpy(&o->d[off], &c, n);
    memset(&o->tag[off], TG_CONC | fl, n);
    return;
  }
  for (u64 i = 0; i < n; i++) setSym(o, off + i, v.t, M->be ? n - 1 - i : i, fl);
}
Val Engine::loadSym(State* s, Obj* o, u64 slot, const Val& addr, u64 n) {
  u64 k1 = o->ver ? o->ver : 0;
  std::array<u64, 4> key{k1, (u64)(uintptr_t)addr.t, n, 0};
  u64 h = k1 * 1000003 + (u64)(uintptr_t)addr.t * 31 + n;
  if (k1) {
    auto it = loadCache.find(h);
    if (it != loadCache.end()) for (auto& e : it->second) if (e.first == key) return e.second;
  }
  Val lo = S.trunc(addr, SLOT);
  bool hasUndef = false;
  for (uint8_t t : o->tag) if ((t & TG_MASK) == TG_UNDEF) { hasUndef = true; break; }
  if (hasUndef) {
    std::vector<std::pair<u64, B>> vals;
    if (S.enumVals(lo, SLOT, s->pc, 512, vals)) {
      for (auto& v : vals)
        for (u64 i = 0; i < n; i++)
          if ((o->tag[v.first - OFF0 + i] & TG_MASK) == TG_UNDEF) {
            addCand(s, v.second, "uninit", "read of uninitialised memory", nullptr);
            break;
          }
    }
  }
  auto leaf = [&](const uint8_t* bv, B* ob) {
    u64 a = 0;
    for (int i = 0; i < (int)SLOT; i++) a |= (u64)bv[i] << i;
    u64 off = a - OFF0;
    if (a < OFF0 || off + n > o->size()) { for (u64 i = 0; i < 8 * n; i++) ob[i] = BF; return; }
    bool sv = undefSeen;
    Val v = loadBytes(s, o, off, n);
    undefSeen = sv;
    S.bits(v, 8 * n, ob);
  };
  B in[SLOT], ob[64];
  auto attempt = [&](const Val& ad, u64 nodes, u64 entries) {
    S.bits(ad, SLOT, in);
    Sym::Cap cap(S.bdd, nodes);
    S.vapply(in, SLOT, 8 * n, leaf, ob, entries);
    return S.mkBits(ob, 8 * n);
  };
  Val r;
  try {
    r = attempt(lo, S.loadcap, S.loadcap);
  } catch (BddLimit&) {
    Val l2 = S.under(lo, SLOT, s->pc);
    try {
      return attempt(l2, S.loadcap * 4, S.loadcap * 4);
    } catch (BddLimit&) {}
    // explicit case analysis over the feasible addresses
    std::vector<std::pair<u64, B>> vals;
    if (!S.enumVals(lo, SLOT, s->pc, 3000, vals)) fail("symbolic load with too many addresses");
    r = Val(0);
    bool first = true;
    for (auto& v : vals) {
      Val x = loadBytes(s, o, v.first - OFF0, n);
      if (first) { r = x; first = false; }
      else r = S.ite(S.bdd.restrict_(v.second, s->pc), x, r, 8 * n);
    }
    return r;
  }
  if (k1) loadCache[h].push_back({key, r});
  return r;
}
u64 Engine::heapAlloc(State* s, u64 n, const Instr* I) {
  u64 i = s->heap.size();
  if (!s->pol[P_NOREUSE])
    for (u64 k = heapFloor; k < s->heap.size(); k++) if (!s->heap[k]) { i = k; break; }
  if (n > OFFM - 2 * OFF0) fail("allocation too large for the memory model");
  Obj* o = new Obj;
  o->kind = 2;
  o->d.assign(n, 0);
  o->tag.assign(n, TG_UNDEF);
  if (I) { o->site = I->file; o->line = I->line; }
  if (i == s->heap.size()) s->heap.push_back(Ref<Obj>(o));
  else s->heap[i] = Ref<Obj>(o);
  return ((H0 + i) << SLOT) + OFF0;
}
std::string Engine::cstr(State* s, const Val& p) {
  if (!p.conc()) fail("symbolic name");
  Obj* o = robj(s, p.c >> SLOT);
  if (!o) fail("bad name");
  std::string r;
  for (u64 i = (p.c & OFFM) - OFF0; i < o->size() && o->d[i]; i++) r.push_back(o->d[i]);
  return r;
}
Val Engine::input(State* s, const std::string& name, int w) {
  int k = s->occ[name]++;
  std::string full = k ? name + "#" + std::to_string(k) : name;
  if (concreteMode) { auto it = values.find(full); return Val(it == values.end() ? 0 : it->second & maskw(w)); }
  auto it = inputIdx.find(full);
  if (it == inputIdx.end()) {
    it = inputIdx.emplace(full, inputVal.size()).first;
    inputVal.push_back(S.newInput(full, w));
  }
  return inputVal[it->second];
}

// ---------------------------------------------------------------- scheduling
Engine::Key Engine::keyOf(const State& s) {
  Key k;
  k.reserve(8 + s.fr.size() * 6);
  k.push_back(s.cls.size());
  k.insert(k.end(), s.cls.begin(), s.cls.end());
  for (auto& fr : s.fr) {
    Frame* f = fr.p;
    Block& b = f->fn->blocks[f->bb];
    k.push_back(f->fn->addr >> SLOT);
    for (auto& l : b.loops) { k.push_back(l.first); k.push_back(f->iters[l.second]); }
    k.push_back(b.ord);
    k.push_back(f->ip);
  }
  return k;
}
// Hash of the concrete values that must agree for a merge.
uint32_t Engine::sigOf(const State& s) {
  u64 h = s.heap.size() * 31 + s.stk.size();
  Frame* f = s.fr.back().p;
  const auto& lv = liveAt(f->fn, f->bb, f->ip);
  const bool m64 = s.pol[P_REG64];
  const int mptr = s.pol[P_PTR];
  for (int r : lv) {
    const Val& v = f->regs[r];
    bool p = f->fn->regptr[r];
    if (p ? mptr == 1 : (f->fn->regw[r] != 64 || m64)) continue;
    if (p) h = h * 0x9E3779B97F4A7C15ull + (v.conc() ? mptr ? v.c & ~OFFM : v.c : slotOfPtr(v));
    else h = h * 0x9E3779B97F4A7C15ull + (v.conc() ? v.c * 2 + 1 : 2);
    h ^= h >> 31;
  }
  return (uint32_t)(h ^ h >> 32);
}
u64 Engine::memSig(const State& s) const {
  u64 h = 0;
  const int mptr = s.pol[P_PTR];
  const bool mm64 = s.pol[P_MEM64];
  auto add = [&](const Obj* o) {
    if (o->ver) return;
    for (size_t i = 0; i + 7 < o->size(); i += 8) {
      uint8_t t = o->tag[i];
      if ((t & TG_MASK) != TG_CONC) continue;
      if (((t & TG_PTR) && mptr != 1) || ((t & TG_WIDE) && !(t & TG_PTR) && !mm64)) {
        u64 v;
        memcpy(&v, &o->d[i], 8);
        if ((t & TG_PTR) && mptr) v = (M->be ? __builtin_bswap64(v) : v) & ~OFFM;
        h = (h ^ v) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 31;
      }
    }
  };
  for (auto& o : s.stk) add(o.p);
  for (auto& o : s.heap) if (o) add(o.p);
  return h;
}
u64 Engine::slotOfPtr(const Val& v) const {
  B b[64];
  S.bits(v, 64, b);
  u64 r = 0;
  for (int i = SLOT; i < 64; i++) {
    if (!Bdd::isc(b[i])) return ~0ull;
    if (b[i] == BT) r |= 1ull << i;
  }
  return r;
}
void Engine::push(State* s) {
  Key k = keyOf(*s);
  if (!record && !s->pol[P_NOMERGE]) k.push_back(sigOf(*s));
  auto& v = work[k];
  if (!record && !s->pol[P_NOMERGE])
    {
      s->mh = v.size() > 12 ? memSig(*s) : 0;
      if (v.size() == 13) for (State* x : v) x->mh = memSig(*x);
      bool big = v.size() > 12;
      for (size_t i = v.size(); i--;)
        if ((!big || v[i]->mh == s->mh) && tryMerge(v[i], s)) {
          if (big) v[i]->mh = memSig(*v[i]);
          delete s;
          return;
        }
    }
  v.push_back(s);
  nlive = 0;
}
std::string Engine::curWhere() { return curI ? whereOf(curS, curI) : "?"; }
const std::vector<int>& Engine::liveAt(Fn* f, int bb, int ip) {
  auto it = f->liveCache.find({bb, ip});
  if (it != f->liveCache.end()) return it->second;
  std::vector<uint8_t> l(f->nregs);
  for (auto& E : f->edges)
    if (E.from == bb) {
      std::vector<uint8_t> t = f->liveIn[E.to];
      for (auto& m : E.moves) t[m.dst] = 0;
      for (auto& m : E.moves) if (f->liveIn[E.to][m.dst] && m.src >= 0) t[m.src] = 1;
      for (int r = 0; r < f->nregs; r++) l[r] |= t[r];
    }
  auto& ins = f->blocks[bb].ins;
  for (size_t i = ins.size(); (int)i-- > ip;) {
    if (ins[i].dst >= 0) for (int k = 0; k < std::max(1, ins[i].ns); k++) if (ins[i].dst + k < f->nregs) l[ins[i].dst + k] = 0;
    std::vector<int> u;
    uses(ins[i], u);
    for (int r : u) l[r] = 1;
  }
  std::vector<int> v;
  for (int r = 0; r < f->nregs; r++) if (l[r]) v.push_back(r);
  return f->liveCache[{bb, ip}] = v;
}
bool Engine::tryMerge(State* a, State* b) {
  if (a->fork != b->fork) return false;
  if (a->fr.size() != b->fr.size() || a->stk.size() != b->stk.size() || a->heap.size() != b->heap.size()) return false;
  if (a->occ != b->occ || a->notes != b->notes || a->pol != b->pol || a->clsNames != b->clsNames) return false;
  const bool m64 = a->pol[P_REG64], mm64 = a->pol[P_MEM64], strict = a->pol[P_UNINIT];
  const int mptr = a->pol[P_PTR];  // pointers: 0 not merged, 1 merged, 2 merged inside one object
  // shapes
  for (size_t i = 0; i < a->heap.size(); i++) {
    Obj *x = a->heap[i].p, *y = b->heap[i].p;
    if (x != y && (!x || !y || x->size() != y->size())) return false;
  }
  for (size_t i = 0; i < a->stk.size(); i++) if (a->stk[i]->size() != b->stk[i]->size()) return false;
  size_t n = a->fr.size();
  for (size_t k = 0; k < n; k++) {
    Frame *x = a->fr[k].p, *y = b->fr[k].p;
    if (x == y) continue;
    if (x->fn != y->fn || x->bb != y->bb || x->ip != y->ip || x->stkBase != y->stkBase) return false;
    const auto& lv = k + 1 == n ? liveAt(x->fn, x->bb, x->ip) : liveAt(x->fn, x->bb, x->ip + 1);
    for (int r : lv) {
      const Val &p = x->regs[r], &q = y->regs[r];
      if (p.conc() && q.conc() && p.c != q.c) {
        if (x->fn->regptr[r] ? !mptr || (mptr == 2 && (p.c ^ q.c) >> SLOT) : (x->fn->regw[r] == 64 && !m64)) { S.st.mergeFail++; return false; }
      } else if (x->fn->regptr[r] && mptr != 1 && !(p == q) && (slotOfPtr(p) != slotOfPtr(q) || slotOfPtr(p) == ~0ull)) { S.st.mergeFail++; return false; }
    }
  }
  auto objBlocked = [&](Obj* x, Obj* y) {
    if (x == y) return false;
    size_t sz = x->size();
    for (size_t i = 0; i < sz; i++) {
      uint8_t t = x->tag[i] & TG_MASK, u = y->tag[i] & TG_MASK;
      if (t == TG_CONC && u == TG_CONC) {
        if (x->d[i] != y->d[i]) {
          uint8_t fl = x->tag[i] | y->tag[i];
          if ((fl & TG_PTR) && (!mptr || (mptr == 2 && ((M->be ? 7 - i : i) & 7) >= SLOT / 8))) return true;
          if ((fl & TG_WIDE) && !(fl & TG_PTR) && !mm64) return true;
        }
      } else if (t != u && (t == TG_UNDEF || u == TG_UNDEF) && strict) return true;
    }
    return false;
  };
  auto blockedV = [&](std::vector<Ref<Obj>>& x, std::vector<Ref<Obj>>& y) {
    for (size_t i = 0; i < x.size(); i++) if (x[i].p != y[i].p && objBlocked(x[i].p, y[i].p)) return true;
    return false;
  };
  if (blockedV(a->stk, b->stk) || blockedV(a->heap, b->heap) || blockedV(a->g, b->g)) { S.st.mergeFail++; return false; }
  B pc, c;
  try {
    pc = S.pcOr(a->pc, b->pc);
    Sym::Cap cap(S.bdd, S.pccap);
    c = S.bdd.restrict_(a->pc, pc);
  } catch (BddLimit&) { S.st.mergeFail++; return false; }
  S.care = pc;
  for (size_t k = 0; k < n; k++) {
    if (a->fr[k].p == b->fr[k].p) continue;
    Frame* y = b->fr[k].p;
    Frame* x = a->fr[k].mut();
    const auto& lv = k + 1 == n ? liveAt(x->fn, x->bb, x->ip) : liveAt(x->fn, x->bb, x->ip + 1);
    std::vector<uint8_t> isl;
    for (int r : lv) if (!(x->regs[r] == y->regs[r])) x->regs[r] = S.ite(c, x->regs[r], y->regs[r], x->fn->regw[r]);
    for (size_t i = 0; i < x->iters.size(); i++) x->iters[i] = std::max(x->iters[i], y->iters[i]);
  }
  auto mergeV = [&](std::vector<Ref<Obj>>& xs, std::vector<Ref<Obj>>& ys) {
    for (size_t i = 0; i < xs.size(); i++) {
      if (xs[i].p == ys[i].p) continue;
      Obj* y = ys[i].p;
      Obj* x0 = xs[i].p;
      size_t sz = x0->size();
      Obj* x = nullptr;
      for (size_t j = 0; j < sz; j++) {
        uint8_t t = x0->tag[j], u = y->tag[j];
        uint8_t fl = (t | u) & (TG_WIDE | TG_PTR);
        if (t == u && (t & TG_MASK) != TG_SYM && ((t & TG_MASK) == TG_UNDEF || x0->d[j] == y->d[j])) continue;
        if ((t & TG_MASK) == TG_SYM && (u & TG_MASK) == TG_SYM && x0->s[j].t == y->s[j].t && x0->s[j].k == y->s[j].k) continue;
        if ((u & TG_MASK) == TG_UNDEF) continue;
        if (!x) { x = xs[i].mut(); x->ver = 0; }
        x0 = x;
        if ((t & TG_MASK) == TG_UNDEF) {
          x->tag[j] = u;
          x->d[j] = y->d[j];
          if ((u & TG_MASK) == TG_SYM) setSym(x, j, y->s[j].t, y->s[j].k, fl);
          continue;
        }
        if ((t & TG_MASK) == TG_CONC && (u & TG_MASK) == TG_CONC && x->d[j] == y->d[j]) { x->tag[j] = TG_CONC | fl; continue; }
        // group bytes of the same pair of terms
        size_t e = j + 1;
        auto byteVal = [&](Obj* o, size_t p) { bool sv = undefSeen; Val v = loadBytes(a, o, p, 1); undefSeen = sv; return v; };
        Val v = S.ite(c, byteVal(x, j), byteVal(y, j), 8);
        (void)e;
        if (v.conc()) { x->d[j] = v.c; x->tag[j] = TG_CONC | fl; }
        else setSym(x, j, v.t, 0, fl);
      }
    }
  };
  mergeV(a->stk, b->stk);
  mergeV(a->heap, b->heap);
  mergeV(a->g, b->g);
  a->pc = pc;
  S.st.merges++;
  return true;
}
bool Engine::takeEdge(State* s, int e) {
  Frame* f = s->fr.back().mut();
  Edge& E = f->fn->edges[e];
  size_t n = E.moves.size();
  if (n == 1) f->regs[E.moves[0].dst] = get(f, E.moves[0].src);
  else if (n) {
    Val tmp[64];
    std::vector<Val> big;
    Val* t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = get(f, E.moves[i].src);
    for (size_t i = 0; i < n; i++) f->regs[E.moves[i].dst] = t[i];
  }
  int h = f->fn->headerOf[E.to];
  if (h >= 0) {
    if (f->fn->loops[h].blocks.count(E.from)) f->iters[h]++;
    else f->iters[h] = 0;
  }
  f->bb = E.to;
  f->ip = 0;
  return true;
}
void Engine::enter(State* s, Fn* fn, const std::vector<Val>& args, const Instr* call) {
  if (s->fr.size() > 400) fail("call depth");
  Frame* f = new Frame;
  f->fn = fn;
  f->regs.resize(fn->nregs);
  f->iters.resize(fn->loops.size());
  f->stkBase = s->stk.size();
  for (size_t i = 0; i < fn->params.size() && i < args.size(); i++) f->regs[fn->params[i]] = args[i];
  if (!fn->calls++) entered.insert(fn);
  if (call)
    for (auto& bv : call->byval) {
      Val src = args[bv.first];
      if (!src.conc()) fail("symbolic byval pointer");
      Obj* so = robj(s, src.c >> SLOT);
      u64 off = (src.c & OFFM) - OFF0;
      if (!so || off + bv.second > so->size()) fail("byval argument");
      Obj* o = new Obj;
      o->kind = 1;
      o->d.assign(so->d.begin() + off, so->d.begin() + off + bv.second);
      o->tag.assign(so->tag.begin() + off, so->tag.begin() + off + bv.second);
      if (so->anySym) { o->anySym = true; o->s.assign(so->s.begin() + off, so->s.begin() + off + bv.second); }
      s->stk.push_back(Ref<Obj>(o));
      f->regs[fn->params[bv.first]] = Val(((S0 + s->stk.size() - 1) << SLOT) + OFF0);
    }
  s->fr.push_back(Ref<Frame>(f));
}
void Engine::retTo(State* s, const std::vector<Val>& v) {
  Frame* t = s->fr.back().p;
  s->stk.resize(t->stkBase);
  s->fr.pop_back();
  if (s->fr.empty()) { retval = v.empty() ? Val(0) : v[0]; return; }
  Frame* f = s->fr.back().mut();
  Instr& c = f->fn->blocks[f->bb].ins[f->ip];
  if (c.dst >= 0) for (size_t i = 0; i < v.size(); i++) f->regs[c.dst + i] = v[i];
  f->ip++;
}

// Distribute the pending states over several processes (a shared counter hands them out).
void Engine::splitWork() {
  splitK = 0;
  for (auto& kv : work) for (State* x : kv.second) splitPool.push_back(x);
  work.clear();
  splitCtr = (std::atomic<unsigned>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 1; i < splitW; i++) {
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL);
      splitId = i;
      S.st = Stats();
      checks.clear();
      reach.clear();
      kids.clear();
      alarm((unsigned)std::max(1.0, (deadline - nowS()) + 10));
      return;
    }
    kids.push_back(p);
  }
}
bool Engine::nextShare() {
  unsigned k = (*splitCtr)++;
  if (k >= splitPool.size()) return false;
  push(splitPool[k]);
  return true;
}
void Engine::run(State& init, Fn* entry, const std::vector<Val>& args, bool keepFinal, State* out) {
  State* s = new State(init);
  enter(s, entry, args, nullptr);
  S.st.states++;
  try {
    while (true) {
      if (!s) {
        if (work.empty() && !(splitPool.size() && nextShare())) break;
        if (splitK && work.size() >= 1) {
          size_t tot = 0;
          for (auto& kv : work) tot += kv.second.size();
          if (tot >= splitK) { splitWork(); continue; }
        }
        auto it = work.begin();
        s = it->second.back();
        it->second.pop_back();
        if (it->second.empty()) work.erase(it);
      }
      R r = step(s);
      if (r == DONE) {
        S.st.paths++;
        if (keepFinal) { if (record) finals.push_back(*s); else if (out) *out = *s; }
        delete s;
        s = nullptr;
      } else s = nullptr;
    }
  } catch (Budget& b) {
    if (b.why != "candidates") { incomplete = true; incompleteWhy = b.why; }
  } catch (BddLimit&) {
    incomplete = true;
    incompleteWhy = "path condition exceeds the BDD cap";
  } catch (BddOut&) {
    incomplete = true;
    incompleteWhy = "BDD memory exhausted";
  }
  if (S.unknownSeen && !incomplete) { /* infeasible paths may have been explored: harmless */ }
  work.clear();
}
static inline bool icmpC(int p, u64 a, u64 b, int w) {
  switch (p) {
    case 32: return a == b;
    case 33: return a != b;
    case 34: return a > b;
    case 35: return a >= b;
    case 36: return a < b;
    case 37: return a <= b;
    case 38: return sxt(a, w) > sxt(b, w);
    case 39: return sxt(a, w) >= sxt(b, w);
    case 40: return sxt(a, w) < sxt(b, w);
    case 41: return sxt(a, w) <= sxt(b, w);
  }
  abort();
}
// no-signed-wrap obligation of a op b
static bool nswOkC(Op op, u64 a, u64 b, int w) {
  i64 x = sxt(a, w), y = sxt(b, w), r;
  bool o = op == O_ADD ? __builtin_add_overflow(x, y, &r) : op == O_SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
  if (o) return false;
  return sxt((u64)r, w) == r;
}
// a * b of 64-bit unsigned values: true when it does not fit; *fits: at most 2^63-1
B Engine::wideMul(const Val& a, const Val& b, int w, B* fits) {
  if (w != 64) fail("product of width " + std::to_string(w));
  Val m(0xffffffffull);
  Val ah = S.bin(O_LSHR, a, Val(32), 64), al = S.bin(O_AND, a, m, 64), bh = S.bin(O_LSHR, b, Val(32), 64), bl = S.bin(O_AND, b, m, 64);
  B both = S.bdd.and_(S.cmpEq(ah, Val(0), 64) ^ 1, S.cmpEq(bh, Val(0), 64) ^ 1);
  Val p = S.bin(O_MUL, al, bl, 64);
  Val mid = S.bin(O_ADD, S.bin(O_MUL, ah, bl, 64), S.bin(O_MUL, al, bh, 64), 64);  // one of them is zero unless `both`
  Val top = S.bin(O_ADD, S.bin(O_LSHR, p, Val(32), 64), mid, 64);
  if (fits) *fits = S.cmpUlt(top, Val(1ull << 31), 64);
  return S.bdd.or_(both, S.cmpUlt(m, top, 64));
}
B Engine::nswOk(Op op, const Val& a, const Val& b, const Val& r, int w) {
  B x[64], y[64], z[64];
  S.bits(a, w, x);
  S.bits(b, w, y);
  S.bits(r, w, z);
  B sa = x[w - 1], sb = y[w - 1], sr = z[w - 1];
  if (op == O_ADD) {  // overflow: sa == sb && sr != sa
    B same = S.bdd.xor_(sa, sb) ^ 1;
    return S.bdd.and_(same, S.bdd.xor_(sr, sa)) ^ 1;
  }
  if (op == O_SUB) {
    B diff = S.bdd.xor_(sa, sb);
    return S.bdd.and_(diff, S.bdd.xor_(sr, sa)) ^ 1;
  }
  if (op == O_MUL) {
    if (w == 64 && !Bdd::isc(sa)) S.trimTop(x, w);
    if (w == 64 && !Bdd::isc(sb)) S.trimTop(y, w);
    int ga = Sym::sigw(x, w), gb = Sym::sigw(y, w);
    if (ga + gb < w) return BT;
    if (2 * w <= 64) {
      Val wa = S.sext(a, w, 2 * w), wb = S.sext(b, w, 2 * w);
      Val p = S.bin(O_MUL, wa, wb, 2 * w);
      Val q = S.sext(S.trunc(p, w), w, 2 * w);
      return S.cmpEq(p, q, 2 * w);
    }
    // magnitudes, multiplied in halves
    sa = x[w - 1], sb = y[w - 1];
    Val va = S.mkBits(x, w), vb = S.mkBits(y, w);
    Val ma = S.ite(sa, S.bin(O_SUB, Val(0), va, w), va, w), mb = S.ite(sb, S.bin(O_SUB, Val(0), vb, w), vb, w);
    B fits;
    B over = wideMul(ma, mb, w, &fits);
    // fits: the magnitude is at most 2^(w-1)-1; a negative product may also be 2^(w-1)
    Val lo = S.bin(O_MUL, ma, mb, w);
    B edge = S.bdd.and_(S.cmpEq(lo, Val(1ull << (w - 1)), w), S.bdd.xor_(sa, sb));
    return S.bdd.and_(over ^ 1, S.bdd.or_(fits, edge));
  }
  return BT;
}

Engine::R Engine::step(State*& s) {
  Ref<Frame>* fb = &s->fr.back();
  Frame* f = fb->mut();
  R r;
  while (true) {
    if ((++S.st.steps & 0xfff) == 0) {
      if (deadline && nowS() > deadline) fail("time budget");
      if (S.bdd.n.size() > maxNodes) fail("BDD node budget");
    }
    Instr& I = f->fn->blocks[f->bb].ins[f->ip];
    S.care = S.pcNow = s->pc;
    s->fork = 0;
    curS = s;
    curI = &I;
    if (slowTrace) {
      static double t0 = 0; static u64 n0 = 0, o0 = 0; static Instr* pi = nullptr;
      double t = nowS();
      if (pi && (t - t0 > slowTrace * 0.01 || S.st.opaque != o0)) fprintf(stderr, "[%.1fs +%lluk nodes, opaque %llu] op%d/%d w%d %s\n", t - t0, (unsigned long long)(S.bdd.n.size() - n0) / 1000, (unsigned long long)S.st.opaque, pi->op, pi->sub, pi->w, whereOf(s, pi).c_str());
      t0 = t; n0 = S.bdd.n.size(); o0 = S.st.opaque; pi = &I;
    }
    switch (I.op) {
      case I_BIN: {
        Val a = get(f, I.a), b = get(f, I.b);
        Op op = (Op)I.sub;
        if (a.conc() && b.conc()) {
          if ((op >= O_UDIV && op <= O_SREM)) {
            if ((b.c & maskw(I.w)) == 0 || ((op == O_SDIV || op == O_SREM) && sxt(b.c, I.w) == -1 && sxt(a.c, I.w) == sxt(1ull << (I.w - 1), I.w))) {
              addCand(s, s->pc, "div", "division by zero or overflow", &I);
              delete s;
              return DEAD;
            }
          } else if (op >= O_SHL && op <= O_ASHR) {
            if ((b.c & maskw(I.w)) >= I.w) { addCand(s, s->pc, "shift", "shift amount out of range", &I); delete s; return DEAD; }
          } else if (I.nsw && op <= O_MUL && !nswOkC(op, a.c, b.c, I.w)) {
            addCand(s, s->pc, "overflow", "signed integer overflow", &I);
            delete s;
            return DEAD;
          }
          f->regs[I.dst] = Val(Sym::cfold(op, a.c, b.c, I.w));
          f->ip++;
          break;
        }
        B ok = BT;
        if (op >= O_UDIV && op <= O_SREM) {
          ok = S.cmpEq(b, Val(0), I.w) ^ 1;
          if (op == O_SDIV || op == O_SREM) {
            B ov = S.bdd.and_(S.cmpEq(a, Val(1ull << (I.w - 1)), I.w), S.cmpEq(b, Val(maskw(I.w)), I.w));
            ok = S.bdd.and_(ok, ov ^ 1);
          }
          if (!require(s, ok, "div", "division by zero or overflow", &I)) { delete s; return DEAD; }
        } else if (op >= O_SHL && op <= O_ASHR) {
          if (!require(s, S.cmpUlt(b, Val(I.w), I.w), "shift", "shift amount out of range", &I)) { delete s; return DEAD; }
        }
        // values that are constant under the path condition keep the terms small
        Val v = S.bin(op, a, b, I.w);
        if (I.nsw && op <= O_MUL) {
          if (!require(s, nswOk(op, a, b, v, I.w), "overflow", "signed integer overflow", &I)) { delete s; return DEAD; }
        }
        if (op >= O_UDIV && op <= O_SREM && !b.conc() && !v.conc() && s->pol[P_SPLITDIV]) {
          std::vector<std::pair<u64, B>> vals;
          if (!S.enumVals(v, I.w, s->pc, 4096, vals)) fail("too many quotients at " + whereOf(s, &I));
          if (vals.empty()) { delete s; return DEAD; }
          f->ip++;
          for (size_t i = 1; i < vals.size(); i++) {
            State* n = new State(*s);
            n->pc = vals[i].second;
            n->fr.back().mut()->regs[I.dst] = Val(vals[i].first);
            push(n);
            S.st.forks++;
          }
          s->pc = vals[0].second;
          f = s->fr.back().mut();
          f->regs[I.dst] = Val(vals[0].first);
          if (vals.size() == 1) break;
          push(s);
          return FORKED;
        }
        f->regs[I.dst] = v;
        f->ip++;
        break;
      }
      case I_ICMP: {
        Val a = get(f, I.a), b = get(f, I.b);
        if (a.conc() && b.conc()) f->regs[I.dst] = Val(icmpC(I.sub, a.c & maskw(I.w), b.c & maskw(I.w), I.w));
        else {
          B x;
          switch (I.sub) {
            case 32: x = S.cmpEq(a, b, I.w); break;
            case 33: x = S.cmpEq(a, b, I.w) ^ 1; break;
            case 34: x = S.cmpUlt(b, a, I.w); break;
            case 35: x = S.cmpUlt(a, b, I.w) ^ 1; break;
            case 36: x = S.cmpUlt(a, b, I.w); break;
            case 37: x = S.cmpUlt(b, a, I.w) ^ 1; break;
            case 38: x = S.cmpSlt(b, a, I.w); break;
            case 39: x = S.cmpSlt(a, b, I.w) ^ 1; break;
            case 40: x = S.cmpSlt(a, b, I.w); break;
            default: x = S.cmpSlt(b, a, I.w) ^ 1; break;
          }
          f->regs[I.dst] = S.fromB(x);
        }
        f->ip++;
        break;
      }
      case I_LOAD: {
        Val a0 = get(f, I.a);
        u64 tot = I.offs.back().first + ((I.offs.back().second & 255) + 7) / 8;
        u64 slot;
        if (!access(s, a0, tot, false, I.a, slot, r)) return r;
        fb = &s->fr.back();
        f = fb->mut();
        Obj* o = robj(s, slot);
        if (record && I.order && atomicsOf(s) >= maxAtomics) { s->events.push_back({Val(99), Val(0), Val(0), Val(0), Val(0)}); return DONE; }
        for (size_t k = 0; k < I.offs.size(); k++) {
          int w = I.offs[k].second & 255;
          u64 n = (w + 7) / 8;
          Val v;
          if (a0.conc()) {
            undefSeen = false;
            v = loadBytes(s, o, (a0.c & OFFM) - OFF0 + I.offs[k].first, n);
            if (undefSeen && I.offs.size() == 1 && !I.sub) { S.st.vc_z3++; addCand(s, s->pc, "uninit", "read of uninitialised memory", &I); }
          } else {
            Val ad = I.offs[k].first ? S.bin(O_ADD, a0, Val(I.offs[k].first), 64) : a0;
            v = loadSym(s, o, slot, ad, n);
          }
          if (w & 7) v = S.trunc(v, w);
          f->regs[I.dst + k] = v;
        }
        if (record && !I.order && robj(s, slot)->kind != 1) recordAccess(s, a0, tot, 0, I.offs.size() == 1 ? f->regs[I.dst] : Val(0));
        if (record && I.order) { Val v = recordAtomic(s, I, a0, 0, f->regs[I.dst]); s->fr.back().mut()->regs[I.dst] = v; f = s->fr.back().mut(); }
        f->ip++;
        break;
      }
      case I_STORE: {
        Val a0 = get(f, I.a);
        u64 tot = I.offs.back().first + ((I.offs.back().second & 255) + 7) / 8;
        u64 slot;
        if (!access(s, a0, tot, true, I.a, slot, r)) return r;
        fb = &s->fr.back();
        f = fb->mut();
        if (record && I.order && atomicsOf(s) >= maxAtomics) { s->events.push_back({Val(99), Val(0), Val(0), Val(0), Val(0)}); return DONE; }
        if (record && I.order) { if (!a0.conc()) fail("symbolic atomic address"); s->events.push_back({Val(1), a0, Val(tot), Val(I.order), get(f, I.b)}); }
        else if (record && robj(s, slot)->kind != 1) recordAccess(s, a0, tot, 1, I.offs.size() == 1 ? get(f, I.b) : Val(0));
        if (a0.conc()) {
          Obj* o = wobj(s, slot);
          for (size_t k = 0; k < I.offs.size(); k++) {
            int w = I.offs[k].second & 255;
            Val v = get(f, I.b >= 0 ? I.b + (int)k : I.b - (int)k);
            storeBytes(s, o, (a0.c & OFFM) - OFF0 + I.offs[k].first, (w + 7) / 8, v, I.offs[k].second >> 8);
          }
        } else {
          std::vector<std::pair<u64, B>> vals;
          if (!S.enumVals(S.trunc(a0, SLOT), SLOT, s->pc, maxConc, vals)) fail("symbolic store to too many addresses");
          Obj* o = wobj(s, slot);
          for (auto& av : vals) {
            B c = vals.size() == 1 ? BT : S.bdd.restrict_(av.second, s->pc);
            for (size_t k = 0; k < I.offs.size(); k++) {
              int w = I.offs[k].second & 255;
              u64 n = (w + 7) / 8, off = av.first - OFF0 + I.offs[k].first;
              Val v = get(f, I.b >= 0 ? I.b + (int)k : I.b - (int)k);
              if (c != BT) { bool sv = undefSeen; Val old = loadBytes(s, o, off, n); undefSeen = sv; v = S.ite(c, v, old, 8 * n); }
              storeBytes(s, o, off, n, v, I.offs[k].second >> 8);
            }
          }
        }
        f->ip++;
        break;
      }
      case I_GEP: {
        Val a = get(f, I.a);
        if (I.gep.empty()) {
          f->regs[I.dst] = a.conc() ? Val(a.c + I.imm) : S.bin(O_ADD, a, Val(I.imm), 64);
        } else {
          u64 c = I.imm;
          Val sum;
          bool have = false;
          for (auto& g : I.gep) {
            Val ix = get(f, g.opd);
            if (ix.conc()) { c += g.scale * (u64)sxt(ix.c, g.w); continue; }
            Val x = g.w < 64 ? S.sext(ix, g.w, 64) : ix;
            x = S.bin(O_MUL, x, Val(g.scale), 64);
            sum = have ? S.bin(O_ADD, sum, x, 64) : x;
            have = true;
          }
          if (a.conc()) { c += a.c; f->regs[I.dst] = have ? S.bin(O_ADD, sum, Val(c), 64) : Val(c); }
          else {
            Val x = have ? S.bin(O_ADD, a, sum, 64) : a;
            f->regs[I.dst] = c ? S.bin(O_ADD, x, Val(c), 64) : x;
          }
        }
        f->ip++;
        break;
      }
      case I_TRUNC: f->regs[I.dst] = S.trunc(get(f, I.a), I.w2); f->ip++; break;
      case I_ZEXT: f->regs[I.dst] = S.zext(get(f, I.a), I.w, I.w2); f->ip++; break;
      case I_SEXT: f->regs[I.dst] = S.sext(get(f, I.a), I.w, I.w2); f->ip++; break;
      case I_COPY:
        for (int k = 0; k < I.ns; k++) f->regs[I.dst + k] = get(f, I.a >= 0 ? I.a + k : I.a - k);
        f->ip++;
        break;
      case I_INSERT:
        for (int k = 0; k < I.ns; k++) f->regs[I.dst + k] = get(f, I.a >= 0 ? I.a + k : I.a - k);
        for (int k = 0; k < I.w; k++) f->regs[I.dst + I.imm + k] = get(f, I.b >= 0 ? I.b + k : I.b - k);
        f->ip++;
        break;
      case I_SELECT: {
        Val c = get(f, I.a);
        if (!c.conc()) {
          bool split = false;
          for (int k = 0; k < I.ns && !split; k++) {
            Val x = get(f, I.b >= 0 ? I.b + k : I.b - k), y = get(f, I.c >= 0 ? I.c + k : I.c - k);
            if (x == y) continue;
            if (f->fn->regptr[I.dst + k]) split = !s->pol[P_PTR] || (s->pol[P_PTR] == 2 && (slotOfPtr(x) != slotOfPtr(y) || slotOfPtr(x) == ~0ull));
            else if (f->fn->regw[I.dst + k] == 64 && x.conc() && y.conc()) split = !s->pol[P_REG64];
          }
          if (split) {
            if (!concretize(s, I.a, 1, 2, r, "select")) return r;
            fb = &s->fr.back();
            f = fb->mut();
            break;
          }
          for (int k = 0; k < I.ns; k++)
            f->regs[I.dst + k] = S.ite(S.toB(c), get(f, I.b >= 0 ? I.b + k : I.b - k), get(f, I.c >= 0 ? I.c + k : I.c - k), f->fn->regw[I.dst + k]);
        } else
          for (int k = 0; k < I.ns; k++) {
            int q = (c.c & 1) ? I.b : I.c;
            f->regs[I.dst + k] = get(f, q >= 0 ? q + k : q - k);
          }
        f->ip++;
        break;
      }
      case I_ALLOCA: {
        u64 sz = I.imm;
        if (I.sub) {
          R r;
          if (!concretize(s, I.a, I.w, maxForkVals, r, "alloca")) return r;
          f = s->fr.back().mut();
          sz *= get(f, I.a).c;
        }
        Obj* o = new Obj;
        o->kind = 1;
        o->d.assign(sz, 0);
        o->tag.assign(sz, TG_UNDEF);
        s->stk.push_back(Ref<Obj>(o));
        f->regs[I.dst] = Val(((S0 + s->stk.size() - 1) << SLOT) + OFF0);
        f->ip++;
        break;
      }
      case I_BR:
      case I_CBR:
      case I_SWITCH: {
        if (I.op == I_BR) takeEdge(s, I.e0);
        else {
          Val c = get(f, I.a);
          if (c.conc()) {
            int e = I.e0;
            if (I.op == I_CBR) e = (c.c & 1) ? I.e0 : I.e1;
            else { u64 v = c.c & maskw(I.w); for (auto& cs : I.cases) if (cs.first == v) { e = cs.second; break; } }
            takeEdge(s, e);
          } else if (I.op == I_CBR) {
            B b = S.toB(c);
            B p1 = S.pcAnd(s->pc, b), p0;
            if (p1 == BF) { takeEdge(s, I.e1); }
            else if (p1 == s->pc) { takeEdge(s, I.e0); }
            else {
              p0 = S.pcAnd(s->pc, b ^ 1);
              bool f1 = S.feasible(p1), f0 = S.feasible(p0);
              if (f1 && f0) {
                State* n = new State(*s);
                n->pc = p0;
                takeEdge(n, I.e1);
                s->pc = p1;
                takeEdge(s, I.e0);
                push(n);
                push(s);
                S.st.forks++;
                return FORKED;
              }
              if (f1) { s->pc = p1; takeEdge(s, I.e0); }
              else if (f0) { s->pc = p0; takeEdge(s, I.e1); }
              else { delete s; return DEAD; }
            }
          } else {
            std::vector<std::pair<int, B>> br;
            B rest = s->pc;
            for (auto& cs : I.cases) {
              B eq = S.cmpEq(c, Val(cs.first), I.w);
              B p = S.pcAnd(rest, eq);
              if (p == BF) continue;
              rest = S.pcAnd(rest, eq ^ 1);
              if (!S.feasible(p)) continue;
              bool found = false;
              for (auto& x : br) if (f->fn->edges[x.first].to == f->fn->edges[cs.second].to && f->fn->edges[x.first].moves.empty() && f->fn->edges[cs.second].moves.empty()) { x.second = S.pcOr(x.second, p); found = true; break; }
              if (!found) br.push_back({cs.second, p});
            }
            if (rest != BF && S.feasible(rest)) br.push_back({I.e0, rest});
            if (br.empty()) { delete s; return DEAD; }
            if (br.size() == 1) { s->pc = br[0].second; takeEdge(s, br[0].first); }
            else {
              for (size_t i = 1; i < br.size(); i++) {
                State* n = new State(*s);
                n->pc = br[i].second;
                takeEdge(n, br[i].first);
                push(n);
                S.st.forks++;
              }
              s->pc = br[0].second;
              takeEdge(s, br[0].first);
              push(s);
              return FORKED;
            }
          }
        }
        if (!work.empty()) {
          Key k = keyOf(*s);
          if (!(k < work.begin()->first)) { push(s); return FORKED; }
        }
        fb = &s->fr.back();
        f = fb->mut();
        break;
      }
      case I_RET: {
        std::vector<Val> v;
        for (int k = 0; k < I.ns; k++) v.push_back(get(f, I.a >= 0 ? I.a + k : I.a - k));
        retTo(s, v);
        if (s->fr.empty()) return DONE;
        if (!work.empty()) {
          Key k = keyOf(*s);
          if (!(k < work.begin()->first)) { push(s); return FORKED; }
        }
        fb = &s->fr.back();
        f = fb->mut();
        break;
      }
      case I_CALL: {
        R q = call(s, I);
        if (q != CONT) return q;
        fb = &s->fr.back();
        f = fb->mut();
        break;
      }
      case I_CMPXCHG: {
        if (record && atomicsOf(s) >= maxAtomics) { s->events.push_back({Val(99), Val(0), Val(0), Val(0), Val(0)}); return DONE; }
        Val a = get(f, I.a);
        u64 slot;
        if (!access(s, a, I.w / 8, true, I.a, slot, r)) return r;
        if (!a.conc()) fail("symbolic atomic address");
        Val old = loadBytes(s, robj(s, slot), (a.c & OFFM) - OFF0, I.w / 8);
        fb = &s->fr.back();
        f = fb->mut();
        Val cmp = get(f, I.b), nv = get(f, I.c);
        if (record) old = recordAtomic(s, I, a, 2, old);
        f = s->fr.back().mut();
        B eq = S.cmpEq(old, cmp, I.w);
        if (!Bdd::isc(eq)) {
          // fork on success
          B p1 = S.pcAnd(s->pc, eq), p0 = S.pcAnd(s->pc, eq ^ 1);
          for (int t = 0; t < 2; t++) {
            B p = t ? p1 : p0;
            if (!S.feasible(p)) continue;
            State* n = new State(*s);
            n->pc = p;
            Frame* g = n->fr.back().mut();
            g->regs[I.dst] = old;
            g->regs[I.dst + 1] = Val(t);
            if (t) storeBytes(n, wobj(n, slot), (a.c & OFFM) - OFF0, I.w / 8, nv, false);
            if (record && t) n->events.back()[3] = Val(n->events.back()[3].c | 256), n->events.back()[4] = nv;  // 256: it succeeded
            g->ip++;
            push(n);
          }
          delete s;
          return FORKED;
        }
        f->regs[I.dst] = old;
        f->regs[I.dst + 1] = Val(eq == BT);
        if (eq == BT) storeBytes(s, wobj(s, slot), (a.c & OFFM) - OFF0, I.w / 8, nv, false);
        f->ip++;
        break;
      }
      case I_RMW: {
        if (record && atomicsOf(s) >= maxAtomics) { s->events.push_back({Val(99), Val(0), Val(0), Val(0), Val(0)}); return DONE; }
        Val a = get(f, I.a);
        u64 slot;
        if (!access(s, a, I.w / 8, true, I.a, slot, r)) return r;
        if (!a.conc()) fail("symbolic atomic address");
        fb = &s->fr.back();
        f = fb->mut();
        Val old = loadBytes(s, robj(s, slot), (a.c & OFFM) - OFF0, I.w / 8), b = get(f, I.b), nv;
        if (record) { old = recordAtomic(s, I, a, 3, old); f = s->fr.back().mut(); }
        switch (I.sub) {
          case 0: nv = b; break;
          case 1: nv = S.bin(O_ADD, old, b, I.w); break;
          case 2: nv = S.bin(O_SUB, old, b, I.w); break;
          case 3: nv = S.bin(O_AND, old, b, I.w); break;
          case 5: nv = S.bin(O_OR, old, b, I.w); break;
          case 6: nv = S.bin(O_XOR, old, b, I.w); break;
          default: fail("atomicrmw operation");
        }
        if (record) s->events.back()[4] = nv;
        storeBytes(s, wobj(s, slot), (a.c & OFFM) - OFF0, I.w / 8, nv, false);
        f->regs[I.dst] = old;
        f->ip++;
        break;
      }
      case I_UNREACH:
        S.st.vc_z3++;
        addCand(s, s->pc, "unreachable", "unreachable code reached", &I);
        delete s;
        return DEAD;
      case I_FP: {
        Val a = get(f, I.a), b = get(f, I.b);
        if (!a.conc() || !b.conc()) fail("floating point on free values");
        auto F = [&](u64 c, int w) { if (w == 32) { float x; uint32_t v = (uint32_t)c; memcpy(&x, &v, 4); return (double)x; } double x; memcpy(&x, &c, 8); return x; };
        auto T = [&](double x, int w) { if (w == 32) { float y = (float)x; uint32_t v; memcpy(&v, &y, 4); return (u64)v; } u64 v; memcpy(&v, &x, 8); return v; };
        u64 o = 0;
        if (I.sub >= 10) {
          if (I.w == 32) {  // rounded once
            float x = (float)F(a.c, 32), y = (float)F(b.c, 32);
            o = T(I.sub == 10 ? x + y : I.sub == 11 ? x - y : I.sub == 12 ? x * y : x / y, 32);
          } else {
            double x = F(a.c, 64), y = F(b.c, 64);
            o = T(I.sub == 10 ? x + y : I.sub == 11 ? x - y : I.sub == 12 ? x * y : x / y, 64);
          }
        } else if (I.sub == 1) {
          double x = F(a.c, I.w), y = F(b.c, I.w);
          int p = (int)I.imm;  // bits: equal 1, greater 2, less 4, unordered 8
          bool un = x != x || y != y;
          o = un ? (p & 8) != 0 : ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
        } else if (I.sub == 2 || I.sub == 3) {
          double x = F(a.c, I.w);
          if (!(x > -9.2e18 && x < 1.8e19)) fail("floating point value out of range");
          o = (I.sub == 2 ? (u64)x : (u64)(i64)x) & maskw(I.w2);
        } else if (I.sub == 4) o = I.w2 == 32 ? T((float)(a.c & maskw(I.w)), 32) : T((double)(a.c & maskw(I.w)), 64);
        else if (I.sub == 5) o = I.w2 == 32 ? T((float)sxt(a.c, I.w), 32) : T((double)sxt(a.c, I.w), 64);
        else if (I.sub == 6) o = T(F(a.c, I.w), I.w2);
        else o = a.c ^ 1ull << (I.w - 1);
        f->regs[I.dst] = Val(o);
        f->ip++;
        break;
      }
      case I_UNSUP: fail(I.file); break;
      case I_LANDING: fail("landing pad reached"); break;
      case I_NOP:
        if (record && I.sub) fail("memory fence");
        f->ip++;
        break;
    }
  }
}
u64 Engine::atomicsOf(State* s) {
  u64 n = 0;
  for (auto& e : s->events) n += e[0].c < 10;
  return n;
}
// plain access: {10 read | 11 write, slot, first byte, end, heap slot the value points to}; accesses to one object
// between two atomic operations are joined
void Engine::recordAccess(State* s, const Val& a, u64 n, int wr, const Val& v) {
  if (!a.conc()) fail("symbolic address of a shared access");
  u64 slot = a.c >> SLOT, lo = (a.c & OFFM) - OFF0;
  Obj* o = robj(s, slot);
  if (o && o->ro) return;
  u64 pt = 0;
  if (v.conc() && (v.c >> SLOT) >= H0 && (v.c >> SLOT) < H0 + s->heap.size()) pt = v.c >> SLOT;
  for (size_t i = s->events.size(); i-- > 0;) {
    auto& e = s->events[i];
    if (e[0].c < 10) break;
    if (e[0].c == (u64)(10 + wr) && e[1].c == slot && e[4].c == pt && (slot >= H0 || e[2].c == lo)) {
      if (lo < e[2].c) e[2] = Val(lo);
      if (lo + n > e[3].c) e[3] = Val(lo + n);
      return;
    }
  }
  s->events.push_back({Val(10 + wr), Val(slot), Val(lo), Val(lo + n), Val(pt)});
}
Val Engine::recordAtomic(State* s, const Instr& I, const Val& a, int kind, const Val& cur) {
  // the value read comes from any thread: a fresh variable per occurrence
  int w = I.op == I_LOAD ? (I.offs[0].second & 255) : I.w;
  Val v = input(s, "atomic." + gName[a.c >> SLOT], w);
  s->events.push_back({Val(kind), a, v, Val(I.order | (u64)(I.op == I_LOAD ? 0 : I.sub) << 16), Val(0)});
  return v;
}
Engine::R Engine::call(State*& s, Instr& I) {
  Frame* f = s->fr.back().mut();
  Fn* fn = I.fn;
  if (!fn) {
    R r;
    if (!concretize(s, I.a, 64, 16, r, "function pointer")) return r;
    f = s->fr.back().mut();
    auto it = M->fnAt.find(get(f, I.a).c);
    if (it == M->fnAt.end()) { addCand(s, s->pc, "wild", "call through an invalid pointer", &I); delete s; s = nullptr; return DEAD; }
    fn = it->second;
  }
  if (fn->decl || fn->bi != BI_NONE) {
    Builtin sv = I.bi;
    if (!I.fn) fail("indirect call of an external function " + fn->name);
    (void)sv;
    return builtin(s, I);
  }
  std::vector<Val> args(I.args.size());
  for (size_t i = 0; i < I.args.size(); i++) args[i] = get(f, I.args[i]);
  enter(s, fn, args, &I);
  return CONT;
}
Engine::R Engine::builtin(State*& s, Instr& I) {
  Frame* f = s->fr.back().mut();
  R r;
  auto arg = [&](int k) { return get(s->fr.back().p, I.args[k]); };
  auto conc = [&](int k, int w) {
    if (!concretize(s, I.args[k], w, maxForkVals, r, I.fn->name.c_str())) { if (r == DEAD) s = nullptr; return false; }
    f = s->fr.back().mut();
    return true;
  };
  auto ret = [&](const Val& v) { if (I.dst >= 0) f->regs[I.dst] = v; f->ip++; return CONT; };
  auto dead = [&]() { delete s; s = nullptr; return DEAD; };
  switch (I.bi) {
    case BI_NOP: return ret(Val(0));
    case BI_LIFE_START:
    case BI_LIFE_END: {
      Val p = arg(1);
      if (p.conc()) {
        u64 slot = p.c >> SLOT;
        Obj* o = robj(s, slot);
        if (o && slot >= S0 && slot < H0 && (p.c & OFFM) == OFF0) {
          bool any = false;
          for (uint8_t t : o->tag) if (t) { any = true; break; }
          if (any) {
            o = wobj(s, slot);
            memset(o->tag.data(), TG_UNDEF, o->tag.size());
            o->anySym = false;
            o->s.clear();
          }
        }
      }
      f->ip++;
      return CONT;
    }
    case BI_EXPECT:
    case BI_FIRST: return ret(arg(0));
    case BI_UADDSAT: {
      Val v = S.bin(O_ADD, arg(0), arg(1), I.w2);
      return ret(S.ite(S.cmpUlt(v, arg(0), I.w2), Val(maskw(I.w2)), v, I.w2));
    }
    case BI_USUBSAT: {
      Val v = S.bin(O_SUB, arg(0), arg(1), I.w2);
      return ret(S.ite(S.cmpUlt(arg(0), arg(1), I.w2), Val(0), v, I.w2));
    }
    case BI_BITREV: {
      Val v = arg(0);
      int w = I.w2;
      if (v.conc()) { u64 o = 0; for (int i = 0; i < w; i++) o |= (v.c >> i & 1) << (w - 1 - i); return ret(Val(o)); }
      B b[64], o[64];
      S.bits(v, w, b);
      for (int i = 0; i < w; i++) o[i] = b[w - 1 - i];
      return ret(S.mkBits(o, w));
    }
    case BI_ISCONST: return ret(Val(0));
    case BI_ASSUME: {
      Val c = arg(0);
      if (!require(s, S.toB(c), "assume", "compiler assumption violated", &I)) return dead();
      f->ip++;
      return CONT;
    }
    case BI_BSWAP: {
      Val v = arg(0);
      int w = I.w2;
      if (v.conc()) return ret(Val(__builtin_bswap64(v.c) >> (64 - w)));
      B b[64], o[64];
      S.bits(v, w, b);
      for (int i = 0; i < w; i++) o[i] = b[(w / 8 - 1 - i / 8) * 8 + i % 8];
      return ret(S.mkBits(o, w));
    }
    case BI_CTPOP:
    case BI_CTLZ:
    case BI_CTTZ:
    case BI_ABS: {
      Val v = arg(0);
      int w = I.w2;
      if (!v.conc()) {
        if (I.bi == BI_ABS) return ret(S.ite(S.cmpSlt(v, Val(0), w), S.bin(O_SUB, Val(0), v, w), v, w));
        B b[64];
        S.bits(v, w, b);
        Val o(I.bi == BI_CTPOP ? 0 : w);
        for (int i = 0; i < w; i++) {
          int j = I.bi == BI_CTTZ ? w - 1 - i : i;
          o = I.bi == BI_CTPOP ? S.bin(O_ADD, o, S.zext(S.fromB(b[i]), 1, w), w) : S.ite(b[j], Val(I.bi == BI_CTTZ ? j : w - 1 - j), o, w);
        }
        return ret(o);
      }
      u64 c = v.c & maskw(w);
      if (I.bi == BI_CTPOP) return ret(Val(__builtin_popcountll(c)));
      if (I.bi == BI_CTLZ) return ret(Val(c ? __builtin_clzll(c) - (64 - w) : w));
      if (I.bi == BI_CTTZ) return ret(Val(c ? __builtin_ctzll(c) : w));
      i64 x = sxt(c, w);
      return ret(Val((u64)(x < 0 ? -x : x) & maskw(w)));
    }
    case BI_UMIN: case BI_UMAX: case BI_SMIN: case BI_SMAX: {
      Val a = arg(0), b = arg(1);
      B lt = (I.bi == BI_UMIN || I.bi == BI_UMAX) ? S.cmpUlt(a, b, I.w2) : S.cmpSlt(a, b, I.w2);
      bool mn = I.bi == BI_UMIN || I.bi == BI_SMIN;
      return ret(S.ite(lt, mn ? a : b, mn ? b : a, I.w2));
    }
    case BI_UADDO: case BI_USUBO: case BI_UMULO: case BI_SADDO: case BI_SSUBO: case BI_SMULO: {
      Val a = arg(0), b = arg(1);
      int w = I.w;
      Op op = I.bi == BI_UADDO || I.bi == BI_SADDO ? O_ADD : I.bi == BI_USUBO || I.bi == BI_SSUBO ? O_SUB : O_MUL;
      Val v = S.bin(op, a, b, w);
      B ov;
      if (I.bi == BI_UADDO) ov = S.cmpUlt(v, a, w);
      else if (I.bi == BI_USUBO) ov = S.cmpUlt(a, b, w);
      else if (I.bi == BI_UMULO) {
        if (a.conc() && b.conc()) { unsigned __int128 p = (unsigned __int128)(a.c & maskw(w)) * (b.c & maskw(w)); ov = (p >> w) ? BT : BF; }
        else {
          B x[64], y[64];
          S.bits(a, w, x);
          S.bits(b, w, y);
          if (Sym::sigw(x, w) + Sym::sigw(y, w) <= w) ov = BF;
          else if (2 * w <= 64) ov = S.cmpUlt(Val(maskw(w)), S.bin(O_MUL, S.zext(a, w, 2 * w), S.zext(b, w, 2 * w), 2 * w), 2 * w);
          else ov = wideMul(a, b, w, nullptr);
        }
      } else ov = (a.conc() && b.conc()) ? (nswOkC(op, a.c, b.c, w) ? BF : BT) : nswOk(op, a, b, v, w) ^ 1;
      f->regs[I.dst] = v;
      f->regs[I.dst + 1] = S.fromB(ov);
      f->ip++;
      return CONT;
    }
    case BI_FSHL: case BI_FSHR: {
      Val a = arg(0), b = arg(1);
      if (!conc(2, I.w2)) return r;
      int w = I.w2, k = arg(2).c % w;
      if (I.bi == BI_FSHR) k = (w - k) % w, (void)0;
      if (I.bi == BI_FSHR && k == 0) return ret(b);
      if (k == 0) return ret(a);
      return ret(S.bin(O_OR, S.bin(O_SHL, a, Val(k), w), S.bin(O_LSHR, b, Val(w - k), w), w));
    }
    case BI_OBJSIZE: return ret(Val(~0ull));
    case BI_ATEXIT: return ret(Val(0));
    case BI_MEMCPY:
    case BI_MEMMOVE: {
      if (!conc(2, 64)) return r;
      u64 n = arg(2).c;
      if (n == 0) return ret(arg(0));
      if (!conc(0, 64)) return r;
      if (!arg(1).conc() && n <= 264 && !record) {
        // a source with many possible places inside initialised data: read like a symbolic load
        std::vector<std::pair<u64, B>> vals;
        if (!S.enumVals(arg(1), 64, s->pc, 24, vals)) {
          Val q = arg(1), d = arg(0);
          u64 qs, ds;
          if (!access(s, q, n, false, I.args[1], qs, r)) return r;
          Ref<Obj> keep(robj(s, qs));
          Obj* so = keep.p;
          bool plain = true;
          Val lo = S.trunc(q, SLOT);
          size_t runs = 0;
          for (size_t i = 0; i < so->size() && plain;) {  // no undefined byte or pointer may be among those read
            auto bad = [&](size_t k) { return (so->tag[k] & TG_MASK) == TG_UNDEF || (so->tag[k] & TG_PTR); };
            if (!bad(i)) { i++; continue; }
            size_t e = i;
            while (e < so->size() && bad(e)) e++;
            B hit = S.bdd.and_(S.cmpUlt(lo, Val(OFF0 + e), SLOT), S.cmpUlt(lo, Val(OFF0 + (i >= n ? i - n + 1 : 0)), SLOT) ^ 1);
            if (++runs > 40 || S.pcAnd(s->pc, hit) != BF) plain = false;
            i = e;
          }
          if (plain && (d.c >> SLOT) == qs && I.bi == BI_MEMCPY) {
            u64 df = d.c & OFFM;
            B apart = S.bdd.or_(S.cmpUlt(lo, Val(df > n ? df - n + 1 : 0), SLOT), S.cmpUlt(lo, Val(df + n), SLOT) ^ 1);
            if (!require(s, S.bdd.or_(apart, S.cmpEq(lo, Val(df), SLOT)), "overlap", "memcpy with overlapping ranges", &I)) { delete s; s = nullptr; return DEAD; }
          }
          if (plain) {
            if (!access(s, d, n, true, I.args[0], ds, r)) return r;
            f = s->fr.back().mut();
            u64 off = (d.c & OFFM) - OFF0, step = n % 4 ? 1 : 4;
            std::vector<Val> v;
            for (u64 i = 0; i < n; i += step) v.push_back(loadSym(s, keep.p, qs, i ? S.bin(O_ADD, q, Val(i), 64) : q, step));
            Obj* o = wobj(s, ds);
            for (u64 i = 0; i < n; i += step) storeBytes(s, o, off + i, step, v[i / step], false);
            return ret(arg(0));
          }
        }
      }
      if (!conc(1, 64)) return r;
      Val d = arg(0), q = arg(1);
      u64 ds, qs;
      if (!access(s, q, n, false, I.args[1], qs, r)) return r;
      if (!access(s, d, n, true, I.args[0], ds, r)) return r;
      f = s->fr.back().mut();
      u64 doff = (d.c & OFFM) - OFF0, qoff = (q.c & OFFM) - OFF0;
      if (I.bi == BI_MEMCPY && ds == qs && d.c != q.c && doff < qoff + n && qoff < doff + n) {
        addCand(s, s->pc, "overlap", "memcpy with overlapping ranges", &I);
      }
      if (record) {
        if (robj(s, qs)->kind != 1) recordAccess(s, q, n, 0, Val(0));
        if (robj(s, ds)->kind != 1) recordAccess(s, d, n, 1, Val(0));
      }
      Ref<Obj> keep(robj(s, qs));
      Obj* so = keep.p;
      std::vector<uint8_t> td(so->d.begin() + qoff, so->d.begin() + qoff + n), tt(so->tag.begin() + qoff, so->tag.begin() + qoff + n);
      std::vector<SymByte> ts;
      if (so->anySym && so->s.size()) ts.assign(so->s.begin() + qoff, so->s.begin() + qoff + n);
      keep = Ref<Obj>();
      Obj* o = wobj(s, ds);
      memcpy(&o->d[doff], td.data(), n);
      memcpy(&o->tag[doff], tt.data(), n);
      if (ts.size()) {
        if (o->s.size() != o->d.size()) o->s.resize(o->d.size());
        std::copy(ts.begin(), ts.end(), o->s.begin() + doff);
        o->anySym = true;
      }
      return ret(arg(0));
    }
    case BI_MEMSET: {
      if (!conc(2, 64)) return r;
      u64 n = arg(2).c;
      if (n == 0) return ret(arg(0));
      if (!conc(0, 64)) return r;
      Val d = arg(0), v = S.trunc(arg(1), 8);
      u64 ds;
      if (!access(s, d, n, true, I.args[0], ds, r)) return r;
      f = s->fr.back().mut();
      if (record && robj(s, ds)->kind != 1) recordAccess(s, d, n, 1, Val(0));
      Obj* o = wobj(s, ds);
      u64 off = (d.c & OFFM) - OFF0;
      if (v.conc()) { memset(&o->d[off], v.c, n); memset(&o->tag[off], TG_CONC, n); }
      else for (u64 i = 0; i < n; i++) setSym(o, off + i, v.t, 0, 0);
      return ret(arg(0));
    }
    case BI_MEMCMP: {
      if (!conc(2, 64)) return r;
      u64 n = arg(2).c;
      if (n == 0) return ret(Val(0));
      if (!conc(0, 64) || !conc(1, 64)) return r;
      Val p = arg(0), q = arg(1);
      u64 ps, qs;
      if (!access(s, p, n, false, I.args[0], ps, r)) return r;
      if (!access(s, q, n, false, I.args[1], qs, r)) return r;
      f = s->fr.back().mut();
      Obj *po = robj(s, ps), *qo = robj(s, qs);
      u64 pf = (p.c & OFFM) - OFF0, qf = (q.c & OFFM) - OFF0;
      Val acc(0);
      undefSeen = false;
      for (u64 i = n; i--;) {
        Val a = loadBytes(s, po, pf + i, 1), b = loadBytes(s, qo, qf + i, 1);
        B eq = S.cmpEq(a, b, 8);
        if (eq == BT) continue;
        Val ne = S.ite(S.cmpUlt(a, b, 8), Val(0xffffffffu), Val(1), 32);
        acc = S.ite(eq, acc, ne, 32);
      }
      if (undefSeen) addCand(s, s->pc, "uninit", "memcmp of uninitialised memory", &I);
      return ret(acc);
    }
    case BI_STRLEN:
    case BI_MEMCHR: {
      bool sl = I.bi == BI_STRLEN;
      if (!sl && !conc(2, 64)) return r;
      if (!conc(0, 64)) return r;
      Val p = arg(0);
      u64 n = sl ? 0 : arg(2).c, slot;
      if (!sl && n == 0) return ret(Val(0));
      if (sl) {
        Obj* o = robj(s, p.c >> SLOT);
        if (o) n = o->size() - ((p.c & OFFM) - OFF0);
      }
      if (!access(s, p, n, false, I.args[0], slot, r)) return r;
      f = s->fr.back().mut();
      Obj* o = robj(s, slot);
      u64 off = (p.c & OFFM) - OFF0;
      Val c = sl ? Val(0) : S.trunc(arg(1), 8);
      B rest = s->pc;
      std::vector<std::pair<u64, B>> outs;
      for (u64 i = 0; i <= n && rest != BF; i++) {
        if (i == n) {
          if (sl) { addCand(s, rest, "oob-read", "unterminated string", &I); break; }
          outs.push_back({0, rest});
          break;
        }
        undefSeen = false;
        Val b = loadBytes(s, o, off + i, 1);
        if (undefSeen) { addCand(s, rest, "uninit", "search in uninitialised memory", &I); }
        B eq = S.cmpEq(b, c, 8);
        if (eq == BF) continue;
        B hit = S.pcAnd(rest, eq);
        if (hit != BF && S.feasible(hit)) outs.push_back({sl ? i : p.c + i, hit});
        rest = S.pcAnd(rest, eq ^ 1);
      }
      // drop an infeasible remainder
      if (!outs.empty() && !sl && outs.back().first == 0 && !S.feasible(outs.back().second)) outs.pop_back();
      if (outs.empty()) return dead();
      if (outs.size() == 1) { s->pc = outs[0].second; return ret(Val(outs[0].first)); }
      for (auto& x : outs) {
        State* q = new State(*s);
        q->pc = x.second;
        Frame* g = q->fr.back().mut();
        if (I.dst >= 0) g->regs[I.dst] = Val(x.first);
        g->ip++;
        push(q);
        S.st.forks++;
      }
      delete s;
      s = nullptr;
      return FORKED;
    }
    case BI_NEW:
    case BI_NEW_NT: {
      if (!conc(0, 64)) return r;
      u64 n = arg(0).c;
      if (n > (1ull << 40)) {
        if (I.bi == BI_NEW_NT) return ret(Val(0));
        return dead();  // memory exhaustion is outside every property
      }
      u64 a = heapAlloc(s, n, &I);
      return ret(Val(a));
    }
    case BI_DELETE: {
      if (!conc(0, 64)) return r;
      Val p = arg(0);
      if (p.c == 0) { f->ip++; return CONT; }
      u64 slot = p.c >> SLOT;
      Obj* o = robj(s, slot);
      if (slot < H0 || !o || (p.c & OFFM) != OFF0) {
        S.st.vc_z3++;
        addCand(s, s->pc, "free", o ? "free of a pointer that was not allocated" : "double free", &I);
        return dead();
      }
      s->heap[slot - H0] = Ref<Obj>();
      if (!s->pol[P_NOREUSE]) while (s->heap.size() > heapFloor && !s->heap.back()) s->heap.pop_back();
      f->ip++;
      return CONT;
    }
    case BI_THROW:
      if (I.fn->name.find("__cxa_allocate_exception") != std::string::npos) { u64 a = heapAlloc(s, 64, &I); return ret(Val(a)); }
      S.st.vc_z3++;
      addCand(s, s->pc, "exception", "exception thrown: " + I.fn->pretty, &I);
      return dead();
    case BI_ABORT:
      S.st.vc_z3++;
      addCand(s, s->pc, "abort", "abnormal termination: " + I.fn->pretty, &I);
      return dead();
    case BI_GUARD_ACQ: {
      Val p = arg(0);
      Obj* o = robj(s, p.c >> SLOT);
      u64 off = (p.c & OFFM) - OFF0;
      return ret(Val(o->d[off] == 0));
    }
    case BI_GUARD_REL: {
      Val p = arg(0);
      Obj* o = wobj(s, p.c >> SLOT);
      o->d[(p.c & OFFM) - OFF0] = 1;
      f->ip++;
      return CONT;
    }
    // ------------------------------------------------------------ harness
    case BI_SYM: {
      std::string n = cstr(s, arg(0));
      int w = I.fn->name == "sym_bool" ? 1 : I.fn->name == "sym_u8" ? 8 : I.fn->name == "sym_u16" ? 16 : I.fn->name == "sym_u32" ? 32 : 64;
      return ret(input(s, n, w));
    }
    case BI_SYM_BYTES: {
      u64 n = arg(1).c;
      std::string nm = cstr(s, arg(2));
      Val p = arg(0);
      u64 slot;
      if (n) {
        if (!access(s, p, n, true, I.args[0], slot, r)) return r;
        f = s->fr.back().mut();
        Obj* o = wobj(s, slot);
        for (u64 i = 0; i < n; i++) {
          Val v = input(s, nm + "." + std::to_string(i), 8);
          storeBytes(s, o, (p.c & OFFM) - OFF0 + i, 1, v, false);
        }
      }
      f->ip++;
      return CONT;
    }
    case BI_SYM_INTERLEAVED: {
      Val p = arg(0);
      u64 n = arg(1).c, w = arg(2).c;
      std::string nm = cstr(s, arg(3));
      u64 slot;
      if (n) {
        if (!access(s, p, n * 4, true, I.args[0], slot, r)) return r;
        f = s->fr.back().mut();
        Obj* o = wobj(s, slot);
        std::vector<std::string> names;
        for (u64 i = 0; i < n; i++) {
          std::string base = nm + "." + std::to_string(i);
          int k = s->occ[base]++;
          names.push_back(k ? base + "#" + std::to_string(k) : base);
        }
        if (!concreteMode && !inputIdx.count(names[0])) {
          auto vs = S.newInterleaved(names, w);
          for (u64 i = 0; i < n; i++) { inputIdx[names[i]] = inputVal.size(); inputVal.push_back(vs[i]); }
        }
        for (u64 i = 0; i < n; i++) {
          Val v = concreteMode ? Val(values.count(names[i]) ? values[names[i]] & maskw(w) : 0) : inputVal[inputIdx[names[i]]];
          storeBytes(s, o, (p.c & OFFM) - OFF0 + 4 * i, 4, v, false);
        }
      }
      f->ip++;
      return CONT;
    }
    case BI_SYM_ASSUME: {
      B c = S.toB(arg(0));
      s->pc = S.pcAnd(s->pc, c);
      if (!S.feasible(s->pc)) return dead();
      f->ip++;
      return CONT;
    }
    case BI_SYM_CHECK: {
      std::string id = cstr(s, arg(1));
      auto& ck = checks[id];
      ck.first++;
      S.st.vc_total++;
      B c = S.toB(arg(0));
      if (c == BT) { S.st.vc_const++; f->ip++; return CONT; }
      B bad = S.pcAnd(s->pc, c ^ 1);
      ck.second++;
      S.st.vc_z3++;
      if (bad == BF) {
        // the BDD layer refutes the negation; let the SMT solver confirm it
        int q = -1;
        if (S.st.z3_time < confirmBudget) q = S.solve({s->pc, c ^ 1}, nullptr, 1000);
        if (q == 1) fail("internal: BDD and solver disagree");
        if (q < 0) S.st.bddOnly++;
        f->ip++;
        return CONT;
      }
      std::vector<u64> m;
      if (!S.bdd.hasDef(bad) || S.feasible(bad)) addCand(s, bad, "check", id, &I);
      s->pc = S.pcAnd(s->pc, c);
      if (!S.feasible(s->pc)) return dead();
      f->ip++;
      return CONT;
    }
    case BI_SYM_PARAM: {
      std::string n = cstr(s, arg(0));
      auto it = params.find(n);
      u64 v = it == params.end() ? arg(1).c : it->second;
      usedParams[n] = v;
      return ret(Val(v));
    }
    case BI_SYM_REACH: {
      std::string id = cstr(s, arg(0));
      reach[id]++;
      if (samples.size() < maxSamples && (reach[id] & (reach[id] - 1)) == 0) {
        std::vector<u64> m(S.invars.size(), 0);
        bool ok = true;
        if (!S.bdd.hasDef(s->pc)) {
          B p = s->pc;
          while (!Bdd::isc(p)) {
            rng = rng * 6364136223846793005ull + 1442695040888963407ull;
            bool hi = S.bdd.lo(p) == BF || (S.bdd.hi(p) != BF && (rng >> 40 & 1));
            auto vi = S.vinfo[S.bdd.var(p)];
            if (hi) m[vi.owner] |= 1ull << vi.bit;
            p = hi ? S.bdd.hi(p) : S.bdd.lo(p);
          }
        } else ok = S.solve({s->pc}, &m, 3000) == 1;
        if (ok) {
          Candidate c;
          c.msg = id;
          for (size_t i = 0; i < S.invars.size(); i++) c.model.push_back({S.invars[i].name, m[i]});
          for (auto& x : s->clsNames) c.model.push_back(x);
          samples.push_back(c);
        }
      }
      f->ip++;
      return CONT;
    }
    case BI_SYM_CONC: {
      if (!conc(0, 64)) return r;
      Val v = arg(0);
      s->cls.push_back((uint32_t)v.c);
      return ret(v);
    }
    case BI_SYM_CHOICE: {
      std::string n = cstr(s, arg(0));
      u64 k = arg(1).c;
      int oc = s->occ[n]++;
      std::string full = oc ? n + "#" + std::to_string(oc) : n;
      if (concreteMode) { return ret(Val(values.count(full) ? values[full] : 0)); }
      for (u64 i = 0; i < k; i++) {
        State* q = i + 1 == k ? s : new State(*s);
        q->cls.push_back(i);
        q->clsNames.push_back({full, i});
        Frame* g = q->fr.back().mut();
        if (I.dst >= 0) g->regs[I.dst] = Val(i);
        g->ip++;
        push(q);
      }
      s = nullptr;
      return FORKED;
    }
    case BI_SYM_POLICY: s->pol[arg(0).c] = arg(1).c; f->ip++; return CONT;
    case BI_SYM_NOTE: {
      std::string n = cstr(s, arg(0));
      if (!conc(1, 64)) return r;
      s->notes[n] = arg(1).c;
      f->ip++;
      return CONT;
    }
    case BI_SYM_CONC_BYTES: {
      Val p = arg(0);
      u64 n = arg(1).c;
      for (u64 i = 0; i < n; i++) {
        u64 slot = p.c >> SLOT, off = (p.c & OFFM) - OFF0 + i;
        Obj* o = robj(s, slot);
        if ((o->tag[off] & TG_MASK) != TG_SYM) continue;
        Val v = loadBytes(s, o, off, 1);
        std::vector<std::pair<u64, B>> vals;
        S.enumVals(v, 8, s->pc, 256, vals);
        if (vals.empty()) return dead();
        for (size_t k = vals.size(); k--;) {
          State* q = k ? new State(*s) : s;
          q->pc = vals[k].second;
          storeBytes(q, wobj(q, slot), off, 1, Val(vals[k].first), false);
          q->cls.push_back(vals[k].first);
          if (vals.size() > 1) push(q);
        }
        if (vals.size() > 1) { s = nullptr; return FORKED; }
      }
      f = s->fr.back().mut();
      f->ip++;
      return CONT;
    }
    case BI_SYM_SIMPLIFY: {
      // sound: values are only ever used under the path condition
      auto fix = [&](std::vector<Ref<Obj>>& v) {
        for (auto& x : v) {
          if (!x || !x->anySym) continue;
          Obj* o = x.mut();
          for (size_t i = 0; i < o->size(); i++)
            if ((o->tag[i] & TG_MASK) == TG_SYM) {
              bool sv = undefSeen;
              Val b = S.under(loadBytes(s, o, i, 1), 8, s->pc);
              undefSeen = sv;
              uint8_t fl = o->tag[i] & (TG_WIDE | TG_PTR);
              if (b.conc()) { o->d[i] = b.c; o->tag[i] = TG_CONC | fl; }
              else setSym(o, i, b.t, 0, fl);
            }
        }
      };
      fix(s->stk);
      fix(s->heap);
      fix(s->g);
      f->ip++;
      return CONT;
    }
    case BI_SYM_EVENT: {
      s->events.push_back({Val(100), arg(0), arg(1), Val(0), Val(0)});
      f->ip++;
      return CONT;
    }
    default: break;
  }
  fail("call of unmodelled external function " + I.fn->pretty);
  return DEAD;
}
