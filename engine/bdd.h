// Reduced ordered BDDs with complement edges.
//
// Used by the engine as the canonical form of every symbolic bit: feasibility of
// path conditions, table look-ups at symbolic offsets and state merging are decided
// on BDDs; bits the BDDs cannot represent within the node cap become "defined"
// variables whose meaning only the SMT solver knows (see term.h).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <unordered_map>
#include <vector>

typedef uint32_t B;  // (node index << 1) | complement
constexpr B BT = 0, BF = 1;

struct BddLimit {};       // per-operation cap exceeded
struct BddOut {};         // total memory exhausted

struct Bdd {
  struct Node {
    uint32_t var;   // bit 31: depends on a defined variable
    B lo, hi;
    uint32_t next;
  };
  std::vector<Node> n;
  std::vector<uint32_t> ht;
  uint32_t mask;
  struct CE { uint32_t a, b, c, r; };
  std::vector<CE> cache;
  uint32_t cmask;
  uint64_t cap = ~0ull;        // absolute node count at which BddLimit is thrown
  uint64_t hardcap = 120u << 20;
  std::vector<uint8_t> vardef;  // per variable: is a defined variable
  static constexpr uint32_t TERMV = 0x7fffffffu;

  Bdd() {
    n.reserve(1 << 20);
    n.push_back({TERMV, 0, 0, 0});
    ht.assign(1 << 20, 0);
    mask = (1 << 20) - 1;
    cache.assign(1 << 21, CE{~0u, 0, 0, 0});
    cmask = (1 << 21) - 1;
  }
  uint32_t newVar(bool def) {
    vardef.push_back(def);
    return vardef.size() - 1;
  }
  static uint32_t idx(B x) { return x >> 1; }
  uint32_t var(B x) const { return n[x >> 1].var & TERMV; }
  bool hasDef(B x) const { return n[x >> 1].var >> 31; }
  B lo(B x) const { return n[x >> 1].lo ^ (x & 1); }
  B hi(B x) const { return n[x >> 1].hi ^ (x & 1); }
  static bool isc(B x) { return x < 2; }
  static uint32_t h3(uint32_t a, uint32_t b, uint32_t c) {
    uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^
                 (c + 0x165667B1ull) * 0xD6E8FEB86659FD93ull;
    h ^= h >> 29;
    h *= 0x94D049BB133111EBull;
    return uint32_t(h >> 31);
  }
  void rehash() {
    uint32_t sz = (mask + 1) * 2;
    ht.assign(sz, 0);
    mask = sz - 1;
    for (uint32_t i = 1; i < n.size(); i++) {
      uint32_t h = h3(n[i].var & TERMV, n[i].lo, n[i].hi) & mask;
      n[i].next = ht[h];
      ht[h] = i;
    }
    if (cmask + 1 < (1u << 24)) {
      uint32_t cs = (cmask + 1) * 2;
      cache.assign(cs, CE{~0u, 0, 0, 0});
      cmask = cs - 1;
    }
  }
  B mk(uint32_t v, B l, B h) {
    if (l == h) return l;
    B comp = 0;
    if (h & 1) { comp = 1; l ^= 1; h ^= 1; }
    uint32_t k = h3(v, l, h) & mask;
    for (uint32_t i = ht[k]; i; i = n[i].next)
      if (n[i].lo == l && n[i].hi == h && (n[i].var & TERMV) == v) return (i << 1) | comp;
    if (n.size() >= cap) throw BddLimit();
    if (n.size() >= hardcap) throw BddOut();
    uint32_t d = (vardef[v] || hasDef(l) || hasDef(h)) ? 0x80000000u : 0;
    uint32_t i = n.size();
    n.push_back({v | d, l, h, ht[k]});
    ht[k] = i;
    if (n.size() > mask) rehash();
    return (i << 1) | comp;
  }
  B varB(uint32_t v) { return mk(v, BF, BT); }
  CE& slot(uint32_t a, uint32_t b, uint32_t c) { return cache[h3(a, b, c) & cmask]; }

  B and_(B a, B b) {
    if (a == b) return a;
    if (a == BF || b == BF || a == (b ^ 1)) return BF;
    if (a == BT) return b;
    if (b == BT) return a;
    if (a > b) std::swap(a, b);
    {
      CE& e = slot(a, b, 0xfffffff1u);
      if (e.a == a && e.b == b && e.c == 0xfffffff1u) return e.r;
    }
    uint32_t va = var(a), vb = var(b), v = va < vb ? va : vb;
    B r0 = and_(va == v ? lo(a) : a, vb == v ? lo(b) : b);
    B r1 = and_(va == v ? hi(a) : a, vb == v ? hi(b) : b);
    B r = mk(v, r0, r1);
    slot(a, b, 0xfffffff1u) = CE{a, b, 0xfffffff1u, r};
    return r;
  }
  B or_(B a, B b) { return and_(a ^ 1, b ^ 1) ^ 1; }
  B xor_(B a, B b) {
    if (a == b) return BF;
    if (a == (b ^ 1)) return BT;
    B comp = (a & 1) ^ (b & 1);
    a &= ~1u; b &= ~1u;
    if (a == BT) return (b ^ 1) ^ comp;
    if (b == BT) return (a ^ 1) ^ comp;
    if (a > b) std::swap(a, b);
    {
      CE& e = slot(a, b, 0xfffffff2u);
      if (e.a == a && e.b == b && e.c == 0xfffffff2u) return e.r ^ comp;
    }
    uint32_t va = var(a), vb = var(b), v = va < vb ? va : vb;
    B r0 = xor_(va == v ? lo(a) : a, vb == v ? lo(b) : b);
    B r1 = xor_(va == v ? hi(a) : a, vb == v ? hi(b) : b);
    B r = mk(v, r0, r1);
    slot(a, b, 0xfffffff2u) = CE{a, b, 0xfffffff2u, r};
    return r ^ comp;
  }
  B ite(B c, B t, B e) {
    if (c == BT) return t;
    if (c == BF) return e;
    if (t == e) return t;
    if (c & 1) { c ^= 1; std::swap(t, e); }
    if (t == c) t = BT; else if (t == (c ^ 1)) t = BF;
    if (e == c) e = BF; else if (e == (c ^ 1)) e = BT;
    if (t == e) return t;
    if (t == BT) return or_(c, e);
    if (t == BF) return and_(c ^ 1, e);
    if (e == BF) return and_(c, t);
    if (e == BT) return or_(c ^ 1, t);
    if (t == (e ^ 1)) return xor_(c, e);
    B comp = 0;
    if (t & 1) { comp = 1; t ^= 1; e ^= 1; }
    {
      CE& x = slot(c, t, e);
      if (x.a == c && x.b == t && x.c == e) return x.r ^ comp;
    }
    uint32_t vc = var(c), vt = var(t), ve = var(e), v = vc;
    if (vt < v) v = vt;
    if (ve < v) v = ve;
    B r0 = ite(vc == v ? lo(c) : c, vt == v ? lo(t) : t, ve == v ? lo(e) : e);
    B r1 = ite(vc == v ? hi(c) : c, vt == v ? hi(t) : t, ve == v ? hi(e) : e);
    B r = mk(v, r0, r1);
    slot(c, t, e) = CE{c, t, e, r};
    return r ^ comp;
  }
  // Coudert-Madre restrict: agrees with f wherever c holds.
  B restrict_(B f, B c) {
    if (isc(f) || c == BT) return f;
    if (c == BF) return f;
    B comp = f & 1;
    f &= ~1u;
    return restrictR(f, c) ^ comp;
  }
  B restrictR(B f, B c) {
    if (isc(f) || isc(c)) return f;
    if (f & 1) return restrictR(f ^ 1, c) ^ 1;
    {
      CE& e = slot(f, c, 0xfffffff3u);
      if (e.a == f && e.b == c && e.c == 0xfffffff3u) return e.r;
    }
    uint32_t vf = var(f), vc = var(c);
    B r;
    if (vc < vf) {
      r = restrictR(f, or_(lo(c), hi(c)));
    } else if (vc > vf) {
      r = mk(vf, restrictR(lo(f), c), restrictR(hi(f), c));
    } else {
      B c0 = lo(c), c1 = hi(c);
      if (c0 == BF) r = restrictR(hi(f), c1);
      else if (c1 == BF) r = restrictR(lo(f), c0);
      else r = mk(vf, restrictR(lo(f), c0), restrictR(hi(f), c1));
    }
    slot(f, c, 0xfffffff3u) = CE{f, c, 0xfffffff3u, r};
    return r;
  }
  // variables in the support
  void supportR(uint32_t i, std::vector<uint8_t>& vs, std::unordered_map<uint32_t, char>& seen) const {
    std::vector<uint32_t> st{i};
    while (!st.empty()) {
      uint32_t x = st.back();
      st.pop_back();
      if (!x || !seen.emplace(x, 1).second) continue;
      vs[n[x].var & TERMV] = 1;
      st.push_back(n[x].lo >> 1);
      st.push_back(n[x].hi >> 1);
    }
  }
  // Existentially quantify every variable not marked in keep.
  B project(B f, const std::vector<uint8_t>& keep, std::unordered_map<B, B>& memo) {
    if (isc(f)) return f;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    B r0 = project(lo(f), keep, memo);
    B r;
    uint32_t v = var(f);
    if (!keep[v] && r0 == BT) r = BT;
    else {
      B r1 = project(hi(f), keep, memo);
      r = keep[v] ? mk(v, r0, r1) : or_(r0, r1);
    }
    memo.emplace(f, r);
    return r;
  }
  // one satisfying assignment: -1 unknown (don't care)
  void anySat(B f, std::vector<int8_t>& a) const {
    a.assign(vardef.size(), -1);
    while (!isc(f)) {
      uint32_t v = var(f);
      if (lo(f) != BF) { a[v] = 0; f = lo(f); }
      else { a[v] = 1; f = hi(f); }
    }
  }
  bool eval(B f, const std::vector<int8_t>& a) const {
    while (!isc(f)) f = a[var(f)] == 1 ? hi(f) : lo(f);
    return f == BT;
  }
  uint64_t size(B f) const {
    std::unordered_map<uint32_t, char> seen;
    std::vector<uint8_t> vs(vardef.size());
    supportR(f >> 1, vs, seen);
    return seen.size();
  }
};
