// Symbolic values.  A value is either concrete or a vector of BDD bits.  When an
// operation does not fit into the BDD node cap, its result bits become fresh
// "defined" variables: the BDD layer treats them as free, the SMT solver knows the
// defining bit-vector term.
#pragma once
#include <z3.h>

#include <algorithm>
#include <functional>
#include <string>

#include "bdd.h"

typedef uint64_t u64;
typedef int64_t i64;

struct Term {
  uint32_t w;
  uint32_t id;
  B b[1];
};
struct Val {
  u64 c = 0;
  Term* t = nullptr;
  Val() {}
  Val(u64 x) : c(x) {}
  Val(u64 x, Term* y) : c(x), t(y) {}
  bool conc() const { return !t; }
  bool operator==(const Val& o) const { return t == o.t && (t || c == o.c); }
};
static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sxt(u64 v, int w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

enum Op : uint8_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_SLT, O_ITE
};
static const char* const opname[] = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr",
                                     "ashr", "and", "or", "xor", "eq", "ult", "slt", "ite"};

struct Stats {
  u64 z3_checks = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0;
  double z3_time = 0;
  u64 bdd_decided = 0, vc_total = 0, vc_z3 = 0, vc_const = 0;
  u64 forks = 0, merges = 0, mergeFail = 0, steps = 0, states = 0, paths = 0, opaque = 0, bddOnly = 0;
};

struct Sym {
  Bdd bdd;
  Stats st;
  u64 opcap = 400000;      // BDD nodes one value operation may create
  u64 cutdiv = 0;          // divisions of wider dividends become definitions at once
  B care = BT;             // path condition under which results will be used
  u64 capNow() const { return care == BT ? opcap : opcap / 40; }
  // Operand simplified under the path condition; retried before giving up on BDDs.
  bool carefully(Val& a, Val& b, int w) {
    if (care == BT) return false;
    Val x = under(a, w, care), y = under(b, w, care);
    a = x; b = y;
    return true;
  }
  template <class F> auto uncared(F f) {
    B sv = care;
    care = BT;
    auto r = f();
    care = sv;
    return r;
  }
  u64 loadcap = 1500000;   // memo entries of one vapply
  u64 pccap = 20u << 20;  // nodes one path-condition operation may create
  unsigned z3_timeout_ms = 20000, curMs = 20000;

  // ---- term interning
  std::vector<Term*> terms;
  struct TH { Term* t; uint32_t h; };
  std::vector<std::vector<Term*>> tht = std::vector<std::vector<Term*>>(1 << 16);
  size_t tcount = 0;
  static uint32_t hashBits(const B* b, int w) {
    u64 h = w * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < w; i++) { h ^= b[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
    return (uint32_t)h;
  }
  Val mkBits(const B* b, int w) {
    bool allc = true;
    u64 c = 0;
    for (int i = 0; i < w; i++) {
      if (!Bdd::isc(b[i])) { allc = false; break; }
      if (b[i] == BT) c |= 1ull << i;
    }
    if (allc) return Val(c);
    uint32_t h = hashBits(b, w);
    auto& bucket = tht[h & (tht.size() - 1)];
    for (Term* t : bucket)
      if ((int)t->w == w && !memcmp(t->b, b, w * sizeof(B))) return Val(0, t);
    Term* t = (Term*)malloc(sizeof(Term) + sizeof(B) * w);
    t->w = w;
    t->id = ++tcount;
    memcpy(t->b, b, w * sizeof(B));
    bucket.push_back(t);
    if (tcount > tht.size() * 4) {
      std::vector<std::vector<Term*>> nt(tht.size() * 8);
      for (auto& bk : tht) for (Term* x : bk) nt[hashBits(x->b, x->w) & (nt.size() - 1)].push_back(x);
      tht.swap(nt);
    }
    return Val(0, t);
  }
  void bits(const Val& v, int w, B* o) const {
    if (v.t) {
      int k = std::min<int>(w, v.t->w);
      memcpy(o, v.t->b, k * sizeof(B));
      for (int i = k; i < w; i++) o[i] = BF;
    } else
      for (int i = 0; i < w; i++) o[i] = (v.c >> i & 1) ? BT : BF;
  }
  Val fromB(B b) { return mkBits(&b, 1); }
  B toB(const Val& v) const { return v.t ? v.t->b[0] : ((v.c & 1) ? BT : BF); }

  // ---- input variables and definitions
  struct InVar { std::string name; int w; std::vector<uint32_t> bitvar; Z3_ast ast = nullptr; };
  std::vector<InVar> invars;
  struct Def { Op op; int w; int wr; Val a, b, c; uint32_t first; Z3_ast ast = nullptr; };
  std::vector<Def> defs;
  struct VarInfo { bool isDef; uint32_t owner; uint32_t bit; };
  std::vector<VarInfo> vinfo;
  Val newInput(const std::string& name, int w) {
    InVar v{name, w, {}, nullptr};
    v.bitvar.resize(w);
    for (int i = w - 1; i >= 0; i--) {
      v.bitvar[i] = bdd.newVar(false);
      vinfo.push_back({false, (uint32_t)invars.size(), (uint32_t)i});
    }
    invars.push_back(v);
    B b[64];
    for (int i = 0; i < w; i++) b[i] = bdd.varB(v.bitvar[i]);
    return mkBits(b, w);
  }
  // n variables of w significant bits whose bits are interleaved in the order
  std::vector<Val> newInterleaved(const std::vector<std::string>& names, int w) {
    size_t base = invars.size(), k = names.size();
    for (auto& s : names) { InVar v{s, w, std::vector<uint32_t>(w), nullptr}; invars.push_back(v); }
    for (int i = w - 1; i >= 0; i--)
      for (size_t j = 0; j < k; j++) {
        invars[base + j].bitvar[i] = bdd.newVar(false);
        vinfo.push_back({false, (uint32_t)(base + j), (uint32_t)i});
      }
    std::vector<Val> r;
    for (size_t j = 0; j < k; j++) {
      B b[64];
      for (int i = 0; i < w; i++) b[i] = bdd.varB(invars[base + j].bitvar[i]);
      r.push_back(mkBits(b, w));
    }
    return r;
  }
  struct DK { u64 a, b, c; bool operator==(const DK& o) const { return a == o.a && b == o.b && c == o.c; } };
  struct DKH { size_t operator()(const DK& k) const { return k.a * 0x9E3779B97F4A7C15ull ^ k.b * 0xC2B2AE3D27D4EB4Full ^ k.c * 0xD6E8FEB86659FD93ull; } };
  std::unordered_map<DK, std::vector<uint32_t>, DKH> defmap;
  static u64 vkey(const Val& v) { return v.t ? (u64)(uintptr_t)v.t : v.c * 2 + 1; }
  std::unordered_map<u64, std::vector<uint32_t>> defFam;
  B pcNow = BT;
  bool sameOnPath(const Val& a, const Val& b, int w) {
    if (a == b) return true;
    if (!a.t && !b.t) return false;
    B x[64], y[64];
    bits(a, w, x);
    bits(b, w, y);
    try {
      Cap cap(bdd, 20000);
      for (int i = w - 1; i >= 0; i--) {
        if (x[i] == y[i]) continue;
        if (bdd.and_(pcNow, bdd.xor_(x[i], y[i])) != BF) return false;
      }
    } catch (BddLimit&) { return false; }
    return true;
  }
  Val opaque(Op op, int w, int wr, Val a, Val b, Val c = Val()) {
    DK k{vkey(a) * 31 + op, vkey(b) * 131 + w, vkey(c) * 7 + wr};
    for (uint32_t i : defmap[k]) {
      Def& d = defs[i];
      if (d.op == op && d.w == w && d.wr == wr && ((d.a == a && d.b == b && d.c == c) || (sameOnPath(a, d.a, op == O_ITE ? 1 : w) && sameOnPath(b, d.b, w) && d.c == c))) return defBits(i);
    }
    // an earlier definition whose operands are equal on the current path
    // (quotients and remainders are those of the zero-extended operands, so the width does not matter)
    bool wide = op == O_UDIV || op == O_UREM;
    auto& fam = defFam[wide ? (u64)op : (u64)op | (u64)w << 8 | (u64)wr << 16];
    int tries = 0;
    for (size_t k2 = fam.size(); k2-- > 0 && tries < 48;) {
      Def d = defs[fam[k2]];
      if (!(d.c == c)) continue;
      if (!b.t && !(d.b == b)) continue;
      tries++;
      int cw = op == O_ITE ? 1 : wide ? std::max(w, d.w) : w;
      if (!sameOnPath(a, d.a, cw) || !sameOnPath(b, d.b, wide ? cw : w)) continue;
      if (wide) return defBits(fam[k2]);
      defmap[k].push_back(fam[k2]);
      return defBits(fam[k2]);
    }
    fam.push_back(defs.size());
    st.opaque++;
    Def d{op, w, wr, a, b, c, (uint32_t)bdd.vardef.size(), nullptr};
    for (int i = wr - 1; i >= 0; i--) {
      bdd.newVar(true);
      vinfo.push_back({true, (uint32_t)defs.size(), (uint32_t)i});
    }
    defmap[k].push_back(defs.size());
    defs.push_back(d);
    return defBits(defs.size() - 1);
  }
  Val defBits(uint32_t di) {
    B b[64];
    Def d = defs[di];
    u64 save = bdd.cap;
    bdd.cap = ~0ull;
    for (int i = 0; i < d.wr; i++) b[i] = bdd.varB(d.first + (d.wr - 1 - i));
    bdd.cap = save;
    return mkBits(b, d.wr);
  }

  struct Cap {
    Bdd& b; u64 save;
    Cap(Bdd& x, u64 k) : b(x), save(x.cap) { u64 lim = x.n.size() + k; if (lim < b.cap) b.cap = lim; }
    ~Cap() { b.cap = save; }
  };

  // ---- path-condition level operations (large cap)
  B pcAnd(B a, B b) { Cap c(bdd, pccap); return bdd.and_(a, b); }
  B pcOr(B a, B b) { Cap c(bdd, pccap); return bdd.or_(a, b); }

  // ---- vector apply: out = leaf(in), splitting on variables
  struct VA {
    std::vector<B> keys;
    std::vector<B> res;
    std::vector<int64_t> tab;
    int nk, no;
    u64 count = 0;
  };
  typedef std::function<void(const uint8_t*, B*)> LeafF;
  void vapply(const B* in, int nin, int nout, const LeafF& leaf, B* out, u64 cap) {
    VA va;
    va.nk = nin;
    va.no = nout;
    va.tab.assign(1 << 12, -1);
    size_t r = vaRec(va, in, leaf, cap);
    memcpy(out, &va.res[r * nout], nout * sizeof(B));
  }
  size_t vaRec(VA& va, const B* in, const LeafF& leaf, u64 cap) {
    uint32_t h = hashBits(in, va.nk);
    size_t m = va.tab.size() - 1, p = h & m;
    while (va.tab[p] >= 0) {
      if (!memcmp(&va.keys[va.tab[p] * va.nk], in, va.nk * sizeof(B))) return va.tab[p];
      p = (p + 1) & m;
    }
    B outb[64];
    uint32_t v = Bdd::TERMV;
    for (int i = 0; i < va.nk; i++) {
      uint32_t x = bdd.var(in[i]);
      if (x < v) v = x;
    }
    if (v == Bdd::TERMV) {
      uint8_t bv[192];
      for (int i = 0; i < va.nk; i++) bv[i] = in[i] == BT;
      leaf(bv, outb);
    } else {
      B l[192], hgh[192];
      for (int i = 0; i < va.nk; i++) {
        if (bdd.var(in[i]) == v) { l[i] = bdd.lo(in[i]); hgh[i] = bdd.hi(in[i]); }
        else l[i] = hgh[i] = in[i];
      }
      size_t rl = vaRec(va, l, leaf, cap);
      size_t rh = vaRec(va, hgh, leaf, cap);
      for (int i = 0; i < va.no; i++) {
        B x = va.res[rl * va.no + i], y = va.res[rh * va.no + i];
        if (bdd.var(x) > v && bdd.var(y) > v) outb[i] = bdd.mk(v, x, y);
        else outb[i] = bdd.ite(bdd.varB(v), y, x);
      }
    }
    if (va.count >= cap) throw BddLimit();
    size_t id = va.count++;
    va.keys.insert(va.keys.end(), in, in + va.nk);
    va.res.insert(va.res.end(), outb, outb + va.no);
    // table may have been grown by recursion
    if (va.count * 2 > va.tab.size()) {
      va.tab.assign(va.tab.size() * 4, -1);
      m = va.tab.size() - 1;
      for (size_t i = 0; i + 1 < va.count; i++) {
        size_t q = hashBits(&va.keys[i * va.nk], va.nk) & m;
        while (va.tab[q] >= 0) q = (q + 1) & m;
        va.tab[q] = i;
      }
    }
    m = va.tab.size() - 1;
    p = h & m;
    while (va.tab[p] >= 0) p = (p + 1) & m;
    va.tab[p] = id;
    return id;
  }
  static int sigw(const B* b, int w) {  // number of bits that are not constant zero at the top
    while (w > 0 && b[w - 1] == BF) w--;
    return w;
  }

  // ---- arithmetic
  void addBits(const B* a, const B* b, B cin, int w, B* o) {
    B c = cin;
    for (int i = 0; i < w; i++) {
      B x = bdd.xor_(a[i], b[i]);
      o[i] = bdd.xor_(x, c);
      if (i + 1 < w) c = bdd.ite(x, c, a[i]);
    }
  }
  // leading bits that are zero on the current path
  void trimTop(B* x, int w) {
    try {
      Cap cap(bdd, 20000);
      for (int i = w - 1; i >= 0; i--) {
        if (x[i] == BF) continue;
        if (x[i] == BT || bdd.and_(pcNow, x[i]) != BF) return;
        x[i] = BF;
      }
    } catch (BddLimit&) {}
  }
  // Restoring division; the divisor's top bit must be constant zero.  A zero divisor
  // gives quotient ~0 and remainder the dividend, as in SMT-LIB.
  void divLong(const B* x, const B* y, int w, B* q, B* r) {
    int dw = sigw(y, w);
    for (int i = 0; i < w; i++) r[i] = BF;
    for (int i = w - 1; i >= 0; i--) {
      int rw = std::min(w, dw + 1);
      B t[64], d[64];
      for (int k = rw - 1; k > 0; k--) t[k] = r[k - 1];
      t[0] = x[i];
      B ge = ultBits(t, y, rw) ^ 1;
      q[i] = ge;
      if (ge == BF) { for (int k = 0; k < rw; k++) r[k] = t[k]; continue; }
      for (int k = 0; k < rw; k++) d[k] = y[k] ^ 1;
      B s[64];
      addBits(t, d, BT, rw, s);
      for (int k = 0; k < rw; k++) r[k] = bdd.ite(ge, s[k], t[k]);
    }
    // zero divisor: the remainder register is too narrow
    B z = BT;
    for (int i = 0; i < dw && z != BF; i++) z = bdd.and_(z, y[i] ^ 1);
    if (z != BF) for (int i = 0; i < w; i++) r[i] = bdd.ite(z, x[i], r[i]);
  }
  B ultBits(const B* a, const B* b, int w) {
    B r = BF;
    for (int i = 0; i < w; i++) {
      if (a[i] == b[i]) continue;
      r = bdd.ite(bdd.xor_(a[i], b[i]), b[i], r);
    }
    return r;
  }
  B eqBits(const B* a, const B* b, int w) {
    // cheap refutation first
    for (int i = 0; i < w; i++)
      if (a[i] == (b[i] ^ 1)) return BF;
    B r = BT;
    for (int i = 0; i < w && r != BF; i++)
      if (a[i] != b[i]) r = bdd.and_(r, bdd.xor_(a[i], b[i]) ^ 1);
    return r;
  }
  static u64 cfold(Op op, u64 a, u64 b, int w) {
    u64 m = maskw(w);
    a &= m; b &= m;
    switch (op) {
      case O_ADD: return (a + b) & m;
      case O_SUB: return (a - b) & m;
      case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m;
      case O_UREM: return b ? a % b : a;
      case O_SDIV: {
        i64 x = sxt(a, w), y = sxt(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (0 - a) & m;
        return (u64)(x / y) & m;
      }
      case O_SREM: {
        i64 x = sxt(a, w), y = sxt(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (u64)(x % y) & m;
      }
      case O_SHL: return b >= (u64)w ? 0 : (a << b) & m;
      case O_LSHR: return b >= (u64)w ? 0 : a >> b;
      case O_ASHR: return b >= (u64)w ? (sxt(a, w) < 0 ? m : 0) : (u64)(sxt(a, w) >> b) & m;
      case O_AND: return a & b;
      case O_OR: return a | b;
      case O_XOR: return a ^ b;
      default: abort();
    }
  }
  struct BM { Val a, b, r; Op op; int w; bool ok; };
  std::unordered_map<DK, std::vector<BM>, DKH> binMemo;
  Val bin(Op op, const Val& a, const Val& b, int w) {
    if (!a.t && !b.t) return Val(cfold(op, a.c, b.c, w));
    // identities
    if (!b.t) {
      u64 bc = b.c & maskw(w);
      if (bc == 0 && (op == O_ADD || op == O_SUB || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
      if (bc == 0 && (op == O_AND || op == O_MUL)) return Val(0);
      if (bc == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
      if (op == O_SREM && bc == 1) return Val(0);
    }
    if (!a.t) {
      u64 ac = a.c & maskw(w);
      if (ac == 0 && (op == O_ADD || op == O_OR || op == O_XOR)) return b;
      if (ac == 0 && (op == O_AND || op == O_MUL)) return Val(0);
      if (ac == 1 && op == O_MUL) return b;
    }
    B x[64], y[64], o[64];
    bits(a, w, x);
    bits(b, w, y);
    if (op >= O_UDIV && op <= O_SREM) {
      trimTop(x, w); trimTop(y, w);
    }
    if (op == O_MUL && a.t && b.t && (!Bdd::isc(x[w - 1]) || !Bdd::isc(y[w - 1]))) {  // e.g. a sign-extended value that is not negative here
      bool ca = !Bdd::isc(x[w - 1]), cb = !Bdd::isc(y[w - 1]);
      if (ca) trimTop(x, w);
      if (cb) trimTop(y, w);
      if ((ca && x[w - 1] == BF) || (cb && y[w - 1] == BF)) return bin(op, mkBits(x, w), mkBits(y, w), w);
    }
    if (cutdiv && op >= O_UDIV && op <= O_SREM && !b.t && (b.c & (b.c - 1)) && x[w - 1] == BF && y[w - 1] == BF) {
      int nv = 0;
      for (int i = 0; i < w; i++) nv += !Bdd::isc(x[i]);
      if (nv > (int)cutdiv) { B sv = care; care = BT; Val r = opaqueBin(op, mkBits(x, w), mkBits(y, w), w, x, y); care = sv; return r; }
    }
    try {
      Cap cap(bdd, capNow());
      switch (op) {
        case O_AND: for (int i = 0; i < w; i++) o[i] = bdd.and_(x[i], y[i]); return mkBits(o, w);
        case O_OR: for (int i = 0; i < w; i++) o[i] = bdd.or_(x[i], y[i]); return mkBits(o, w);
        case O_XOR: for (int i = 0; i < w; i++) o[i] = bdd.xor_(x[i], y[i]); return mkBits(o, w);
        case O_ADD: addBits(x, y, BF, w, o); return mkBits(o, w);
        case O_SUB: for (int i = 0; i < w; i++) y[i] ^= 1; addBits(x, y, BT, w, o); return mkBits(o, w);
        case O_SHL: case O_LSHR: case O_ASHR: {
          B fill = op == O_ASHR ? x[w - 1] : BF;
          if (!b.t) { shiftc(op, x, (b.c & maskw(w)) >= (u64)w ? w : (int)b.c, w, fill, o); return mkBits(o, w); }
          for (int k = 0; k < w && (1ull << k) < (u64)w * 2; k++) {
            shiftc(op, x, std::min<u64>(1ull << k, w), w, fill, o);
            for (int i = 0; i < w; i++) x[i] = bdd.ite(y[k], o[i], x[i]);
          }
          B big = BF;
          for (int k = 0; k < w; k++) if ((1ull << k) >= (u64)w || k > 6) big = bdd.or_(big, y[k]);
          for (int i = 0; i < w; i++) x[i] = bdd.ite(big, fill, x[i]);
          return mkBits(x, w);
        }
        case O_MUL: {
          if (!a.t || !b.t) {
            u64 k = (!a.t ? a.c : b.c) & maskw(w);
            const B* s = !a.t ? y : x;
            if (__builtin_popcountll(k) == 1) { shiftc(O_SHL, s, __builtin_ctzll(k), w, BF, o); return mkBits(o, w); }
            int sg = sigw(s, w);
            if (sg <= 14 || __builtin_popcountll(k) <= 4) {
              B acc[64], sh[64];
              for (int i = 0; i < w; i++) acc[i] = BF;
              for (int i = 0; i < w; i++) if (k >> i & 1) { shiftc(O_SHL, s, i, w, BF, sh); addBits(acc, sh, BF, w, o); memcpy(acc, o, sizeof(B) * w); }
              return mkBits(acc, w);
            }
          }
          break;
        }
        case O_UDIV: case O_UREM:
          if (!b.t && b.c && !(b.c & (b.c - 1))) {
            int k = __builtin_ctzll(b.c);
            if (op == O_UDIV) shiftc(O_LSHR, x, k, w, BF, o);
            else for (int i = 0; i < w; i++) o[i] = i < k ? x[i] : BF;
            return mkBits(o, w);
          }
          if (y[w - 1] == BF) {
            B q[64];
            divLong(x, y, w, q, o);
            return mkBits(op == O_UDIV ? q : o, w);
          }
          break;
        case O_SDIV: case O_SREM:
          if (x[w - 1] == BF && y[w - 1] == BF) {
            B q[64];
            divLong(x, y, w, q, o);
            return mkBits(op == O_SDIV ? q : o, w);
          }
          break;
        default: break;
      }
    } catch (BddLimit&) { return opaqueBin(op, a, b, w, x, y); }
    // value-level: multiplication, division by splitting on variables
    Val ka = mkBits(x, w), kb = mkBits(y, w);  // operands trimmed for this path: the result holds for these
    DK mk{vkey(ka) * 31 + op, vkey(kb) * 131 + w, 0};
    auto mit = binMemo.find(mk);
    if (mit != binMemo.end()) for (auto& e : mit->second) if (e.a == ka && e.b == kb && e.op == op && e.w == w) { if (e.ok) return e.r; return opaqueBin(op, a, b, w, x, y); }
    try {
      Cap cap(bdd, capNow() * 4);
      B in[128];
      memcpy(in, x, sizeof(B) * w);
      memcpy(in + w, y, sizeof(B) * w);
      vapply(in, 2 * w, w, [&](const uint8_t* bv, B* ob) {
        u64 p = 0, q = 0;
        for (int i = 0; i < w; i++) { p |= (u64)bv[i] << i; q |= (u64)bv[w + i] << i; }
        u64 r = cfold(op, p, q, w);
        for (int i = 0; i < w; i++) ob[i] = (r >> i & 1) ? BT : BF;
      }, o, care == BT ? 100000 : 20000);
      Val r = mkBits(o, w);
      binMemo[mk].push_back({ka, kb, r, op, w, true});
      return r;
    } catch (BddLimit&) {}
    if (care == BT) binMemo[mk].push_back({ka, kb, Val(), op, w, false});
    return opaqueBin(op, a, b, w, x, y);
  }
  Val opaqueBin(Op op, const Val& a0, const Val& b0, int w, const B*, const B*) {
    Val a = a0, b = b0;
    if (carefully(a, b, w)) return uncared([&] { return bin(op, a, b, w); });
    // narrow unsigned operations to the significant width
    if (op == O_MUL || op == O_UDIV || op == O_UREM || op == O_ADD) {
      B x[64], y[64];
      bits(a, w, x);
      bits(b, w, y);
      int sa = sigw(x, w), sb = sigw(y, w);
      int nw = op == O_MUL ? sa + sb : op == O_ADD ? std::max(sa, sb) + 1 : std::max(sa, sb);
      if (!b.t && b.c && (op == O_UDIV || op == O_UREM) && nw <= w) {  // known result width
        int lg = 63 - __builtin_clzll(b.c), rw = op == O_UREM ? 64 - __builtin_clzll(b.c - 1 | 1) : std::max(1, nw - lg);
        return opaque(op, nw, std::min(rw, nw), trunc(a, nw), trunc(b, nw));
      }
      if (nw < w) { Val r = opaque(op, nw, nw, trunc(a, nw), trunc(b, nw)); return r; }
    }
    if (op == O_SDIV || op == O_SREM) {
      B x[64], y[64];
      bits(a, w, x);
      bits(b, w, y);
      if (x[w - 1] == BF && y[w - 1] == BF) return opaqueBin(op == O_SDIV ? O_UDIV : O_UREM, a, b, w, x, y);
    }
    return opaque(op, w, w, a, b);
  }
  static void shiftc(Op op, const B* x, int k, int w, B fill, B* o) {
    B t[64];
    if (op == O_SHL) for (int i = 0; i < w; i++) t[i] = i >= k ? x[i - k] : BF;
    else for (int i = 0; i < w; i++) t[i] = i + k < w ? x[i + k] : fill;
    memcpy(o, t, sizeof(B) * w);
  }
  B cmpEq(const Val& a, const Val& b, int w) {
    if (a == b) return BT;
    if (!a.t && !b.t) return ((a.c ^ b.c) & maskw(w)) ? BF : BT;
    B x[64], y[64];
    bits(a, w, x);
    bits(b, w, y);
    try { Cap cap(bdd, capNow()); return eqBits(x, y, w); } catch (BddLimit&) {}
    Val a2 = a, b2 = b;
    if (carefully(a2, b2, w)) return uncared([&] { return cmpEq(a2, b2, w); });
    return toB(opaque(O_EQ, w, 1, a, b));
  }
  B cmpUlt(const Val& a, const Val& b, int w) {
    if (a == b) return BF;
    if (!a.t && !b.t) return (a.c & maskw(w)) < (b.c & maskw(w)) ? BT : BF;
    B x[64], y[64];
    bits(a, w, x);
    bits(b, w, y);
    try { Cap cap(bdd, capNow()); return ultBits(x, y, w); } catch (BddLimit&) {}
    Val a2 = a, b2 = b;
    if (carefully(a2, b2, w)) return uncared([&] { return cmpUlt(a2, b2, w); });
    return toB(opaque(O_ULT, w, 1, a, b));
  }
  B cmpSlt(const Val& a, const Val& b, int w) {
    if (a == b) return BF;
    if (!a.t && !b.t) return sxt(a.c, w) < sxt(b.c, w) ? BT : BF;
    B x[64], y[64];
    bits(a, w, x);
    bits(b, w, y);
    if (x[w - 1] == BF && y[w - 1] == BF) return cmpUlt(a, b, w);
    x[w - 1] ^= 1; y[w - 1] ^= 1;
    try { Cap cap(bdd, capNow()); return ultBits(x, y, w); } catch (BddLimit&) {}
    Val a2 = a, b2 = b;
    if (carefully(a2, b2, w)) return uncared([&] { return cmpSlt(a2, b2, w); });
    return toB(opaque(O_SLT, w, 1, a, b));
  }
  Val ite(B c, const Val& a, const Val& b, int w) {
    if (c == BT) return a;
    if (c == BF) return b;
    if (a == b) return a;
    B x[64], y[64], o[64];
    bits(a, w, x);
    bits(b, w, y);
    try {
      Cap cap(bdd, capNow());
      for (int i = 0; i < w; i++) o[i] = bdd.ite(c, x[i], y[i]);
      return mkBits(o, w);
    } catch (BddLimit&) {}
    if (care != BT) {
      Val a2 = under(a, w, care), b2 = under(b, w, care);
      B c2 = toB(under(fromB(c), 1, care));
      return uncared([&] { return ite(c2, a2, b2, w); });
    }
    return opaque(O_ITE, w, w, fromB(c), a, b);
  }
  Val trunc(const Val& a, int w) {
    if (!a.t) return Val(a.c & maskw(w));
    if ((int)a.t->w <= w) return a;
    return mkBits(a.t->b, w);
  }
  Val zext(const Val& a, int from, int to) {
    if (!a.t) return Val(a.c & maskw(from));
    B x[64];
    bits(a, from, x);
    for (int i = from; i < to; i++) x[i] = BF;
    return mkBits(x, to);
  }
  Val sext(const Val& a, int from, int to) {
    if (!a.t) return Val((u64)sxt(a.c, from) & maskw(to));
    B x[64];
    bits(a, from, x);
    for (int i = from; i < to; i++) x[i] = x[from - 1];
    return mkBits(x, to);
  }
  // Sound simplification under a care set.
  Val under(const Val& a, int w, B care) {
    if (!a.t || care == BT) return a;
    B x[64];
    bits(a, w, x);
    try {
      Cap cap(bdd, opcap);
      for (int i = 0; i < w; i++) x[i] = bdd.restrict_(x[i], care);
    } catch (BddLimit&) { return a; }
    return mkBits(x, w);
  }

  // ---- SMT
  Z3_context z = nullptr;
  Z3_solver solver = nullptr;
  std::unordered_map<uint32_t, Z3_ast> nodeAst;
  void z3init() {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    solver = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
    Z3_solver_inc_ref(z, solver);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), z3_timeout_ms);
    Z3_solver_set_params(z, solver, p);
  }
  Z3_ast invAst(uint32_t k) {
    InVar& v = invars[k];
    if (!v.ast) v.ast = Z3_mk_const(z, Z3_mk_string_symbol(z, v.name.c_str()), Z3_mk_bv_sort(z, v.w));
    return v.ast;
  }
  Z3_ast varAst(uint32_t var) {
    VarInfo vi = vinfo[var];
    Z3_ast base = vi.isDef ? defAst(vi.owner) : invAst(vi.owner);
    int w = vi.isDef ? defs[vi.owner].wr : invars[vi.owner].w;
    Z3_ast one = Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1));
    Z3_ast e = w == 1 ? base : Z3_mk_extract(z, vi.bit, vi.bit, base);
    return Z3_mk_eq(z, e, one);
  }
  Z3_ast bAst(B b) {
    if (b == BT) return Z3_mk_true(z);
    if (b == BF) return Z3_mk_false(z);
    Z3_ast r = nAst(b >> 1);
    return (b & 1) ? Z3_mk_not(z, r) : r;
  }
  Z3_ast nAst(uint32_t i) {
    auto it = nodeAst.find(i);
    if (it != nodeAst.end()) return it->second;
    // explicit stack (BDDs can be deep)
    std::vector<uint32_t> stk{i};
    while (!stk.empty()) {
      uint32_t x = stk.back();
      if (nodeAst.count(x)) { stk.pop_back(); continue; }
      uint32_t l = bdd.n[x].lo >> 1, h = bdd.n[x].hi >> 1;
      bool ready = true;
      if (l && !nodeAst.count(l)) { stk.push_back(l); ready = false; }
      if (h && !nodeAst.count(h)) { stk.push_back(h); ready = false; }
      if (!ready) continue;
      stk.pop_back();
      auto get = [&](B b) {
        if (b == BT) return Z3_mk_true(z);
        if (b == BF) return Z3_mk_false(z);
        Z3_ast r = nodeAst[b >> 1];
        return (b & 1) ? Z3_mk_not(z, r) : r;
      };
      Z3_ast v = varAst(bdd.n[x].var & Bdd::TERMV);
      B lo = bdd.n[x].lo, hi = bdd.n[x].hi;
      Z3_ast r;
      if (lo == BF && hi == BT) r = v;
      else r = Z3_mk_ite(z, v, get(hi), get(lo));
      nodeAst.emplace(x, r);
    }
    return nodeAst[i];
  }
  Z3_ast valAst(const Val& v, int w) {
    if (!v.t) return Z3_mk_unsigned_int64(z, v.c & maskw(w), Z3_mk_bv_sort(z, w));
    B b[64];
    bits(v, w, b);
    Z3_ast r = nullptr;
    int i = 0;
    while (i < w) {
      Z3_ast piece;
      int j = i + 1;
      // run of consecutive bits of one variable
      auto plain = [&](B x) { return !(x & 1) && x > 1 && bdd.n[x >> 1].lo == BF && bdd.n[x >> 1].hi == BT; };
      if (plain(b[i])) {
        VarInfo a = vinfo[bdd.var(b[i])];
        while (j < w && plain(b[j])) {
          VarInfo c = vinfo[bdd.var(b[j])];
          if (c.isDef != a.isDef || c.owner != a.owner || c.bit != a.bit + (j - i)) break;
          j++;
        }
        Z3_ast base = a.isDef ? defAst(a.owner) : invAst(a.owner);
        int bw = a.isDef ? defs[a.owner].wr : invars[a.owner].w;
        piece = (a.bit == 0 && j - i == bw) ? base : Z3_mk_extract(z, a.bit + (j - i) - 1, a.bit, base);
      } else if (Bdd::isc(b[i])) {
        u64 c = 0;
        j = i;
        while (j < w && Bdd::isc(b[j])) { if (b[j] == BT) c |= 1ull << (j - i); j++; }
        piece = Z3_mk_unsigned_int64(z, c, Z3_mk_bv_sort(z, j - i));
      } else {
        Z3_sort s1 = Z3_mk_bv_sort(z, 1);
        piece = Z3_mk_ite(z, bAst(b[i]), Z3_mk_unsigned_int64(z, 1, s1), Z3_mk_unsigned_int64(z, 0, s1));
      }
      r = r ? Z3_mk_concat(z, piece, r) : piece;
      i = j;
    }
    return r;
  }
  Z3_ast defAst(uint32_t k) {
    if (defs[k].ast) return defs[k].ast;
    Def d = defs[k];
    Z3_ast a = valAst(d.a, d.op == O_ITE ? 1 : d.w), b = valAst(d.b, d.w), r = nullptr;
    Z3_sort s1 = Z3_mk_bv_sort(z, 1);
    Z3_ast one = Z3_mk_unsigned_int64(z, 1, s1), zero = Z3_mk_unsigned_int64(z, 0, s1);
    switch (d.op) {
      case O_ADD: r = Z3_mk_bvadd(z, a, b); break;
      case O_SUB: r = Z3_mk_bvsub(z, a, b); break;
      case O_MUL: r = Z3_mk_bvmul(z, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(z, a, b); break;
      case O_SDIV: r = Z3_mk_bvsdiv(z, a, b); break;
      case O_UREM: r = Z3_mk_bvurem(z, a, b); break;
      case O_SREM: r = Z3_mk_bvsrem(z, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(z, a, b); break;
      case O_LSHR: r = Z3_mk_bvlshr(z, a, b); break;
      case O_ASHR: r = Z3_mk_bvashr(z, a, b); break;
      case O_AND: r = Z3_mk_bvand(z, a, b); break;
      case O_OR: r = Z3_mk_bvor(z, a, b); break;
      case O_XOR: r = Z3_mk_bvxor(z, a, b); break;
      case O_EQ: r = Z3_mk_ite(z, Z3_mk_eq(z, a, b), one, zero); break;
      case O_ULT: r = Z3_mk_ite(z, Z3_mk_bvult(z, a, b), one, zero); break;
      case O_SLT: r = Z3_mk_ite(z, Z3_mk_bvslt(z, a, b), one, zero); break;
      case O_ITE: r = Z3_mk_ite(z, Z3_mk_eq(z, a, one), b, valAst(d.c, d.w)); break;
    }
    if (d.op <= O_XOR && d.wr < d.w) r = Z3_mk_extract(z, d.wr - 1, 0, r);
    defs[k].ast = r;
    return r;
  }
  // 1 sat, 0 unsat, -1 unknown.  model: values of the input variables.
  int solve(const std::vector<B>& conj, std::vector<u64>* model, unsigned ms = 0) {
    if (!z) z3init();
    if (!ms) ms = z3_timeout_ms;
    if (ms != curMs) {
      Z3_params p = Z3_mk_params(z);
      Z3_params_inc_ref(z, p);
      Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
      Z3_solver_set_params(z, solver, p);
      Z3_params_dec_ref(z, p);
      curMs = ms;
    }
    st.z3_checks++;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    Z3_solver_push(z, solver);
    for (B b : conj) Z3_solver_assert(z, solver, bAst(b));
    Z3_lbool r = Z3_solver_check(z, solver);
    if (r == Z3_L_TRUE && model) {
      Z3_model m = Z3_solver_get_model(z, solver);
      Z3_model_inc_ref(z, m);
      model->assign(invars.size(), 0);
      for (uint32_t i = 0; i < invars.size(); i++) {
        Z3_ast v = nullptr;
        if (Z3_model_eval(z, m, invAst(i), true, &v)) {
          uint64_t x = 0;
          Z3_get_numeral_uint64(z, v, &x);
          (*model)[i] = x;
        }
      }
      Z3_model_dec_ref(z, m);
    }
    Z3_solver_pop(z, solver, 1);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    st.z3_time += (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
    if (r == Z3_L_TRUE) { st.z3_sat++; return 1; }
    if (r == Z3_L_FALSE) { st.z3_unsat++; return 0; }
    st.z3_unknown++;
    return -1;
  }
  std::unordered_map<B, int8_t> feasCache;
  bool unknownSeen = false;
  bool feasible(B pc) {
    if (pc == BF) return false;
    if (!bdd.hasDef(pc)) { st.bdd_decided++; return true; }
    auto it = feasCache.find(pc);
    if (it != feasCache.end()) return it->second != 0;
    int r = solve({pc}, nullptr);
    if (r < 0) unknownSeen = true;
    feasCache[pc] = r;
    return r != 0;
  }
  // possible values of v under pc, with the condition for each; false if more than cap
  bool enumVals(const Val& v, int w, B pc, size_t cap, std::vector<std::pair<u64, B>>& out) {
    out.clear();
    if (!v.t) { out.push_back({v.c & maskw(w), pc}); return true; }
    B x[64];
    bits(v, w, x);
    return enumRec(x, w - 1, 0, pc, cap, out);
  }
  bool enumRec(const B* x, int i, u64 acc, B pc, size_t cap, std::vector<std::pair<u64, B>>& out) {
    for (; i >= 0 && Bdd::isc(x[i]); i--) if (x[i] == BT) acc |= 1ull << i;
    if (i < 0) {
      if (!feasible(pc)) return true;
      if (out.size() >= cap) return false;
      out.push_back({acc, pc});
      return true;
    }
    B p0 = pcAnd(pc, x[i] ^ 1);
    if (p0 != BF && !enumRec(x, i - 1, acc, p0, cap, out)) return false;
    B p1 = pcAnd(pc, x[i]);
    if (p1 != BF && !enumRec(x, i - 1, acc | (1ull << i), p1, cap, out)) return false;
    return true;
  }
};
