#include "ir.h"

#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

struct Unsup { std::string what; };
static bool strict = false;
static void die(const std::string& s) {
  if (strict) throw Unsup{s};
  fprintf(stderr, "engine: %s\n", s.c_str());
  exit(3);
}
static std::string str(const Value* v) {
  std::string s;
  raw_string_ostream o(s);
  v->print(o);
  return s;
}

void uses(const Instr& n, std::vector<int>& u) {
    auto add = [&](int o, int k = 1) { for (int i = 0; i < k; i++) if (o >= 0) u.push_back(o + i); };
    switch (n.op) {
      case I_BIN: case I_ICMP: add(n.a); add(n.b); break;
      case I_LOAD: add(n.a); break;
      case I_STORE: add(n.a); add(n.b, n.offs.size()); break;
      case I_GEP: add(n.a); for (auto& g : n.gep) add(g.opd); break;
      case I_TRUNC: case I_ZEXT: case I_SEXT: add(n.a); break;
      case I_FP: add(n.a); add(n.b); break;
      case I_ALLOCA: if (n.sub) add(n.a); break;
      case I_COPY: add(n.a, n.ns); break;
      case I_INSERT: add(n.a, n.ns); add(n.b, n.w); break;
      case I_SELECT: add(n.a); add(n.b, n.ns); add(n.c, n.ns); break;
      case I_CBR: case I_SWITCH: add(n.a); break;
      case I_RET: add(n.a, n.ns); break;
      case I_CMPXCHG: add(n.a); add(n.b); add(n.c); break;
      case I_RMW: add(n.a); add(n.b); break;
      case I_CALL: if (!n.fn) add(n.a); for (int o : n.args) add(o); break;
      default: break;
    }
  }

struct Loader {
  LLVMContext ctx;
  std::unique_ptr<llvm::Module> m;
  const DataLayout* dl;
  ::Module* out;
  std::map<const GlobalValue*, u64> gaddr;
  bool lax = false;  // unsupported types are given a place; instructions on them are not executed

  int slots(Type* t) {
    if (t->isVoidTy()) return 0;
    if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += slots(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slots(a->getElementType());
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return 1;
    if (lax) return 1;
    std::string s;
    raw_string_ostream o(s);
    t->print(o);
    die("unsupported type " + s);
    return 0;
  }
  int width(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { int w = t->getIntegerBitWidth(); if (w > 64 && lax) return 64; if (w > 64) die("integer wider than 64 bits"); return w; }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy() || lax) return 64;
    die("width");
    return 0;
  }
  void flat(Type* t, u64 off, std::vector<std::pair<int, int>>& o) {
    if (auto* s = dyn_cast<StructType>(t)) {
      auto* sl = dl->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + sl->getElementOffset(i), o);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
      u64 es = dl->getTypeAllocSize(a->getElementType());
      for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, o);
    } else o.push_back({(int)off, width(t) | (t->isPointerTy() ? 256 : 0)});
  }
  void flatTypes(Type* t, std::vector<Type*>& o) {
    if (auto* s = dyn_cast<StructType>(t)) for (auto* e : s->elements()) flatTypes(e, o);
    else if (auto* a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), o);
    else o.push_back(t);
  }
  int slotOf(Type* t, ArrayRef<unsigned> idx, Type** res) {
    int s = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; k++) s += slots(st->getElementType(k));
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        s += i * slots(at->getElementType());
        t = at->getElementType();
      }
    }
    *res = t;
    return s;
  }
  u64 constAddr(const Constant* c) {
    if (auto* g = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(g)) return constAddr(ga->getAliasee());
      auto it = gaddr.find(g);
      if (it == gaddr.end()) die("no address for " + g->getName().str());
      return it->second;
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* g = cast<GEPOperator>(e);
          APInt off(64, 0);
          if (!g->accumulateConstantOffset(*dl, off)) die("gep const");
          return constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
          return constAddr(e->getOperand(0));
        case Instruction::Sub: return constAddr(e->getOperand(0)) - constAddr(e->getOperand(1));
        case Instruction::Add: return constAddr(e->getOperand(0)) + constAddr(e->getOperand(1));
        default: break;
      }
    }
    die("constant " + str(c));
    return 0;
  }
  void initBytes(const Constant* c, std::vector<uint8_t>& b, std::vector<uint8_t>& d, u64 off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
      u64 n = dl->getTypeStoreSize(t);
      for (u64 i = 0; i < n; i++) d[off + i] = 1;
      return;
    }
    if (isa<UndefValue>(c)) return;
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
      u64 es = dl->getTypeAllocSize(ca->getElementType());
      bool fp = !ca->getElementType()->isIntegerTy();
      for (unsigned i = 0; i < ca->getNumElements(); i++) put(fp ? ca->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue() : ca->getElementAsInteger(i), es, b, d, off + i * es);
      return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = dl->getStructLayout(s->getType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), b, d, off + sl->getElementOffset(i));
      return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
      u64 es = dl->getTypeAllocSize(a->getType()->getElementType());
      for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(a->getOperand(i), b, d, off + i * es);
      return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (!t->isFloatTy() && !t->isDoubleTy()) die("long double");
      put(cf->getValueAPF().bitcastToAPInt().getZExtValue(), dl->getTypeStoreSize(t), b, d, off);
      return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); put(ci->getZExtValue(), dl->getTypeStoreSize(t), b, d, off); return; }
    put(constAddr(c), dl->getTypeStoreSize(t), b, d, off);
  }
  void put(u64 v, u64 n, std::vector<uint8_t>& b, std::vector<uint8_t>& d, u64 off) {
    for (u64 i = 0; i < n; i++) {
      b[off + i] = v >> (8 * (out->be ? n - 1 - i : i));
      d[off + i] = 1;
    }
  }

  static Builtin builtinFor(const std::string& n) {
    static const std::map<std::string, Builtin> ex = {
        {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMMOVE}, {"memset", BI_MEMSET}, {"memcmp", BI_MEMCMP}, {"bcmp", BI_MEMCMP},
        {"memchr", BI_MEMCHR}, {"strlen", BI_STRLEN}, {"_Znwm", BI_NEW}, {"_Znam", BI_NEW}, {"malloc", BI_NEW_NT},
        {"_ZnamRKSt9nothrow_t", BI_NEW_NT}, {"_ZnwmRKSt9nothrow_t", BI_NEW_NT}, {"_ZdlPv", BI_DELETE}, {"_ZdaPv", BI_DELETE},
        {"_ZdlPvm", BI_DELETE}, {"_ZdaPvm", BI_DELETE}, {"free", BI_DELETE}, {"__cxa_guard_acquire", BI_GUARD_ACQ},
        {"_ZdlPvSt11align_val_t", BI_DELETE}, {"_ZdaPvRKSt9nothrow_t", BI_DELETE},
        {"__cxa_guard_release", BI_GUARD_REL}, {"__cxa_guard_abort", BI_NOP}, {"__cxa_atexit", BI_ATEXIT}, {"__cxa_thread_atexit", BI_ATEXIT},
        {"__cxa_begin_catch", BI_NOP}, {"_ZSt9terminatev", BI_ABORT}, {"abort", BI_ABORT}, {"__assert_fail", BI_ABORT},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", BI_ABORT}, {"__clang_call_terminate", BI_ABORT},
        {"sym_u8", BI_SYM}, {"sym_u16", BI_SYM}, {"sym_u32", BI_SYM}, {"sym_u64", BI_SYM}, {"sym_bool", BI_SYM},
        {"sym_bytes", BI_SYM_BYTES}, {"sym_interleaved", BI_SYM_INTERLEAVED}, {"sym_assume", BI_SYM_ASSUME},
        {"sym_check", BI_SYM_CHECK}, {"sym_param", BI_SYM_PARAM}, {"sym_reach", BI_SYM_REACH}, {"sym_concretize", BI_SYM_CONC},
        {"sym_choice", BI_SYM_CHOICE}, {"sym_policy", BI_SYM_POLICY}, {"sym_note", BI_SYM_NOTE},
        {"sym_concretize_bytes", BI_SYM_CONC_BYTES}, {"sym_simplify", BI_SYM_SIMPLIFY}, {"sym_event", BI_SYM_EVENT}};
    auto it = ex.find(n);
    if (it != ex.end()) return it->second;
    auto sw = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (sw("llvm.memcpy")) return BI_MEMCPY;
    if (sw("llvm.memmove")) return BI_MEMMOVE;
    if (sw("llvm.memset")) return BI_MEMSET;
    if (sw("llvm.lifetime.start")) return BI_LIFE_START;
    if (sw("llvm.lifetime.end")) return BI_LIFE_END;
    if (sw("llvm.expect")) return BI_EXPECT;
    if (sw("llvm.threadlocal.address") || sw("llvm.launder.invariant") || sw("llvm.strip.invariant") || sw("llvm.ptr.annotation")) return BI_FIRST;
    if (sw("llvm.uadd.sat")) return BI_UADDSAT;
    if (sw("llvm.usub.sat")) return BI_USUBSAT;
    if (sw("llvm.bitreverse")) return BI_BITREV;
    if (sw("llvm.stacksave") || sw("llvm.stackrestore")) return BI_NOP;
    if (sw("llvm.is.constant")) return BI_ISCONST;
    if (sw("llvm.assume")) return BI_ASSUME;
    if (sw("llvm.bswap")) return BI_BSWAP;
    if (sw("llvm.ctpop")) return BI_CTPOP;
    if (sw("llvm.ctlz")) return BI_CTLZ;
    if (sw("llvm.cttz")) return BI_CTTZ;
    if (sw("llvm.umin")) return BI_UMIN;
    if (sw("llvm.umax")) return BI_UMAX;
    if (sw("llvm.smin")) return BI_SMIN;
    if (sw("llvm.smax")) return BI_SMAX;
    if (sw("llvm.abs")) return BI_ABS;
    if (sw("llvm.uadd.with.overflow")) return BI_UADDO;
    if (sw("llvm.usub.with.overflow")) return BI_USUBO;
    if (sw("llvm.umul.with.overflow")) return BI_UMULO;
    if (sw("llvm.sadd.with.overflow")) return BI_SADDO;
    if (sw("llvm.ssub.with.overflow")) return BI_SSUBO;
    if (sw("llvm.smul.with.overflow")) return BI_SMULO;
    if (sw("llvm.fshl")) return BI_FSHL;
    if (sw("llvm.fshr")) return BI_FSHR;
    if (sw("llvm.objectsize")) return BI_OBJSIZE;
    if (sw("llvm.dbg.") || sw("llvm.invariant") || sw("llvm.x86.sse2.pause") || sw("llvm.experimental.noalias") || sw("llvm.donothing") || sw("llvm.prefetch")) return BI_NOP;
    if (sw("llvm.trap")) return BI_ABORT;
    if (n.find("__throw_") != std::string::npos || sw("__cxa_throw") || sw("__cxa_rethrow") || sw("__cxa_allocate_exception")) return BI_THROW;
    return BI_UNKNOWN;
  }

  // ---- function decoding
  struct FD {
    Fn* f;
    std::map<const Value*, int> reg;
    std::map<const BasicBlock*, int> bb;
  };
  int constSlot(FD& d, const Constant* c) {
    // returns encoded operand (-1 - index) of the first slot
    int base = d.f->consts.size();
    pushConst(d, c);
    return -1 - base;
  }
  void pushConst(FD& d, const Constant* c) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) {
      std::vector<Type*> ft;
      if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { flatTypes(t, ft); for (auto* x : ft) { (void)x; d.f->consts.push_back(Val(0)); } return; }
      for (unsigned i = 0;; i++) { Constant* e = c->getAggregateElement(i); if (!e) break; pushConst(d, e); }
      return;
    }
    if (isa<UndefValue>(c)) { d.f->consts.push_back(Val(0)); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) die("wide constant");
      d.f->consts.push_back(Val(ci->getZExtValue()));
      return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (!t->isFloatTy() && !t->isDoubleTy()) die("long double");
      d.f->consts.push_back(Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
      return;
    }
    d.f->consts.push_back(Val(constAddr(c)));
  }
  int opd(FD& d, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constSlot(d, c);
    auto it = d.reg.find(v);
    if (it == d.reg.end()) die("operand " + str(v));
    return it->second;
  }
  int newReg(FD& d, Type* t) {
    int r = d.f->nregs;
    std::vector<Type*> ft;
    flatTypes(t, ft);
    for (auto* x : ft) { d.f->regw.push_back(width(x)); d.f->regptr.push_back(x->isPointerTy()); d.f->nregs++; }
    return r;
  }
  int mkEdge(FD& d, const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.from = d.bb[from];
    e.to = d.bb[to];
    for (auto& phi : to->phis()) {
      int idx = phi.getBasicBlockIndex(from);
      int src = opd(d, phi.getIncomingValue(idx)), dst = d.reg[&phi];
      int ns = slots(phi.getType());
      for (int i = 0; i < ns; i++) e.moves.push_back({dst + i, src >= 0 ? src + i : src - i, d.f->regw[dst + i]});
    }
    d.f->edges.push_back(e);
    return d.f->edges.size() - 1;
  }
  static uint8_t ordOf(AtomicOrdering o) { return (uint8_t)o; }

  bool wideT(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) if (wideT(e)) return true; return false; }
    if (auto* a = dyn_cast<ArrayType>(t)) return wideT(a->getElementType());
    if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64;
    return t->isVectorTy() || (t->isFloatingPointTy() && !t->isFloatTy() && !t->isDoubleTy());
  }
  bool usesWide(Instruction& I) {
    if (wideT(I.getType())) return true;
    for (auto& o : I.operands()) if (wideT(o->getType())) return true;
    return false;
  }
  void decode(Function& F, Fn* f) {
    lax = true;
    FD d;
    d.f = f;
    f->decl = false;
    for (auto& a : F.args()) {
      int r = newReg(d, a.getType());
      d.reg[&a] = r;
      for (int i = 0; i < slots(a.getType()); i++) f->params.push_back(r + i);
    }
    int nb = 0;
    for (auto& b : F) {
      d.bb[&b] = nb++;
      for (auto& i : b) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) d.reg[&i] = newReg(d, i.getType());
    }
    f->blocks.resize(nb);
    for (auto& b : F) {
      Block& ob = f->blocks[d.bb[&b]];
      for (auto& i : b) {
        size_t n0 = ob.ins.size();
        try {
          strict = true;
          lax = false;
          if (usesWide(i)) die("type of " + str(&i));
          decodeInstr(d, i, ob);
        } catch (Unsup& u) {  // reported when a path gets there
          static std::set<std::string> why;
          ob.ins.resize(n0);
          Instr n;
          n.op = I_UNSUP;
          n.ns = 0;
          if (auto& dl2 = i.getDebugLoc()) n.line = dl2.getLine();
          n.file = why.insert("unsupported: " + u.what).first->c_str();
          ob.ins.push_back(n);
        }
        strict = false;
        lax = true;
      }
    }
    analyse(F, d);
  }
  void decodeInstr(FD& d, Instruction& I, Block& ob) {
    if (isa<PHINode>(I)) return;
    Instr n;
    n.op = I_NOP;
    if (auto& dl2 = I.getDebugLoc()) {
      n.line = dl2.getLine();
      if (auto* sc = dyn_cast_or_null<DIScope>(dl2.getScope())) {
        static std::set<std::string> files;
        n.file = files.insert(sc->getFilename().str()).first->c_str();
      }
    }
    auto it = d.reg.find(&I);
    if (it != d.reg.end()) n.dst = it->second;
    if (I.getOpcode() >= Instruction::FAdd && I.getOpcode() <= Instruction::FRem && I.getType()->isFloatingPointTy()) {
      n.op = I_FP; n.w = width(I.getType());
      n.a = opd(d, I.getOperand(0)); n.b = opd(d, I.getOperand(1));
      switch (I.getOpcode()) {
        case Instruction::FAdd: n.sub = 10; break;
        case Instruction::FSub: n.sub = 11; break;
        case Instruction::FMul: n.sub = 12; break;
        case Instruction::FDiv: n.sub = 13; break;
        default: die("binop " + str(&I));
      }
    } else if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      n.op = I_BIN;
      n.w = width(I.getType());
      n.a = opd(d, bo->getOperand(0));
      n.b = opd(d, bo->getOperand(1));
      switch (bo->getOpcode()) {
        case Instruction::Add: n.sub = O_ADD; break;
        case Instruction::Sub: n.sub = O_SUB; break;
        case Instruction::Mul: n.sub = O_MUL; break;
        case Instruction::UDiv: n.sub = O_UDIV; break;
        case Instruction::SDiv: n.sub = O_SDIV; break;
        case Instruction::URem: n.sub = O_UREM; break;
        case Instruction::SRem: n.sub = O_SREM; break;
        case Instruction::Shl: n.sub = O_SHL; break;
        case Instruction::LShr: n.sub = O_LSHR; break;
        case Instruction::AShr: n.sub = O_ASHR; break;
        case Instruction::And: n.sub = O_AND; break;
        case Instruction::Or: n.sub = O_OR; break;
        case Instruction::Xor: n.sub = O_XOR; break;
        default: die("binop " + str(&I));
      }
      if (auto* ov = dyn_cast<OverflowingBinaryOperator>(&I)) { n.nsw = ov->hasNoSignedWrap(); n.nuw = ov->hasNoUnsignedWrap(); }
    } else if (auto* c = dyn_cast<FCmpInst>(&I)) {
      n.op = I_FP; n.sub = 1; n.imm = c->getPredicate(); n.w = width(c->getOperand(0)->getType());
      n.a = opd(d, c->getOperand(0)); n.b = opd(d, c->getOperand(1));
    } else if (isa<FPToUIInst>(I) || isa<FPToSIInst>(I) || isa<UIToFPInst>(I) || isa<SIToFPInst>(I) || isa<FPExtInst>(I) || isa<FPTruncInst>(I) || I.getOpcode() == Instruction::FNeg) {
      n.op = I_FP; n.w = width(I.getOperand(0)->getType()); n.w2 = width(I.getType()); n.a = n.b = opd(d, I.getOperand(0));
      n.sub = isa<FPToUIInst>(I) ? 2 : isa<FPToSIInst>(I) ? 3 : isa<UIToFPInst>(I) ? 4 : isa<SIToFPInst>(I) ? 5 : I.getOpcode() == Instruction::FNeg ? 7 : 6;
    } else if (auto* c = dyn_cast<ICmpInst>(&I)) {
      n.op = I_ICMP;
      n.w = width(c->getOperand(0)->getType());
      n.a = opd(d, c->getOperand(0));
      n.b = opd(d, c->getOperand(1));
      n.sub = c->getPredicate();
    } else if (auto* l = dyn_cast<LoadInst>(&I)) {
      n.op = I_LOAD;
      {  // an empty C++ object passed by value as one byte (some ABIs): its byte has no value
        auto* al = llvm::dyn_cast<llvm::AllocaInst>(I.getOperand(0)->stripPointerCasts());
        auto* st = al ? llvm::dyn_cast<llvm::StructType>(al->getAllocatedType()) : nullptr;
        while (st && st->getNumElements() == 1 && st->getElementType(0)->isStructTy()) st = llvm::cast<llvm::StructType>(st->getElementType(0));
        if (st && st->getNumElements() == 1 && st->getElementType(0)->isIntegerTy(8) && I.getType()->isIntegerTy()) {
          bool calls = true;
          for (auto* u : I.users()) calls = calls && llvm::isa<llvm::CallBase>(u);
          if (calls) n.sub = 1;
        }
        // a whole aggregate read as one integer, to be passed or returned: members and padding without value stay so
        Type* first = al ? al->getAllocatedType() : nullptr;
        while (first && (first->isStructTy() || first->isArrayTy())) {
          if (first->isStructTy() && !first->getStructNumElements()) first = nullptr;
          else first = first->isStructTy() ? first->getStructElementType(0) : first->getArrayElementType();
        }
        if (first && !al->getAllocatedType()->isSingleValueType() && I.getType()->isIntegerTy() && dl->getTypeStoreSize(I.getType()) > dl->getTypeStoreSize(first)) {
          bool pass = true;
          for (auto* u : I.users()) pass = pass && (llvm::isa<llvm::CallBase>(u) || llvm::isa<llvm::ReturnInst>(u) || llvm::isa<llvm::PHINode>(u) || llvm::isa<llvm::InsertValueInst>(u));
          if (pass) n.sub = 1;
        }
      }
      n.a = opd(d, l->getPointerOperand());
      flat(l->getType(), 0, n.offs);
      n.ns = n.offs.size();
      n.order = ordOf(l->getOrdering());
    } else if (auto* s = dyn_cast<StoreInst>(&I)) {
      n.op = I_STORE;
      n.a = opd(d, s->getPointerOperand());
      n.b = opd(d, s->getValueOperand());
      flat(s->getValueOperand()->getType(), 0, n.offs);
      n.order = ordOf(s->getOrdering());
    } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      n.op = I_GEP;
      n.a = opd(d, g->getPointerOperand());
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value* ix = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) {
          n.imm += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        } else {
          u64 sz = dl->getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) n.imm += sz * (u64)ci->getSExtValue();
          else n.gep.push_back({opd(d, ix), sz, (uint8_t)width(ix->getType())});
        }
      }
    } else if (isa<TruncInst>(I)) {
      n.op = I_TRUNC; n.a = opd(d, I.getOperand(0)); n.w = width(I.getOperand(0)->getType()); n.w2 = width(I.getType());
    } else if (isa<ZExtInst>(I)) {
      n.op = I_ZEXT; n.a = opd(d, I.getOperand(0)); n.w = width(I.getOperand(0)->getType()); n.w2 = width(I.getType());
    } else if (isa<SExtInst>(I)) {
      n.op = I_SEXT; n.a = opd(d, I.getOperand(0)); n.w = width(I.getOperand(0)->getType()); n.w2 = width(I.getType());
    } else if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) {
      n.op = I_ZEXT; n.a = opd(d, I.getOperand(0)); n.w = width(I.getOperand(0)->getType()); n.w2 = width(I.getType());
      if (n.w2 < n.w) n.op = I_TRUNC;
    } else if (isa<BitCastInst>(I) || isa<FreezeInst>(I)) {
      n.op = I_COPY; n.a = opd(d, I.getOperand(0)); n.ns = slots(I.getType());
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
      Type* rt;
      int s = slotOf(ev->getAggregateOperand()->getType(), ev->getIndices(), &rt);
      int a = opd(d, ev->getAggregateOperand());
      n.op = I_COPY; n.a = a >= 0 ? a + s : a - s; n.ns = slots(rt);
    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      Type* rt;
      n.imm = slotOf(iv->getType(), iv->getIndices(), &rt);
      n.op = I_INSERT; n.a = opd(d, iv->getAggregateOperand()); n.b = opd(d, iv->getInsertedValueOperand());
      n.ns = slots(iv->getType()); n.w = slots(rt);
    } else if (auto* si = dyn_cast<SelectInst>(&I)) {
      n.op = I_SELECT; n.a = opd(d, si->getCondition()); n.b = opd(d, si->getTrueValue()); n.c = opd(d, si->getFalseValue());
      n.ns = slots(si->getType());
    } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
      n.op = I_ALLOCA;
      u64 es = dl->getTypeAllocSize(al->getAllocatedType());
      if (auto* ci = dyn_cast<ConstantInt>(al->getArraySize())) n.imm = es * ci->getZExtValue();
      else { n.imm = es; n.sub = 1; n.a = opd(d, al->getArraySize()); n.w = width(al->getArraySize()->getType()); }
    } else if (auto* br = dyn_cast<BranchInst>(&I)) {
      if (br->isConditional()) {
        n.op = I_CBR; n.a = opd(d, br->getCondition());
        n.e0 = mkEdge(d, I.getParent(), br->getSuccessor(0));
        n.e1 = mkEdge(d, I.getParent(), br->getSuccessor(1));
      } else { n.op = I_BR; n.e0 = mkEdge(d, I.getParent(), br->getSuccessor(0)); }
    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      n.op = I_SWITCH; n.a = opd(d, sw->getCondition()); n.w = width(sw->getCondition()->getType());
      n.e0 = mkEdge(d, I.getParent(), sw->getDefaultDest());
      for (auto& cs : sw->cases()) n.cases.push_back({cs.getCaseValue()->getZExtValue(), mkEdge(d, I.getParent(), cs.getCaseSuccessor())});
    } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
      n.op = I_RET;
      if (r->getReturnValue()) { n.a = opd(d, r->getReturnValue()); n.ns = slots(r->getReturnValue()->getType()); }
      else n.ns = 0;
    } else if (isa<UnreachableInst>(I)) {
      n.op = I_UNREACH;
    } else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) {
      n.op = I_LANDING;
    } else if (isa<FenceInst>(I)) {
      n.op = I_NOP; n.sub = 1; n.order = ordOf(cast<FenceInst>(I).getOrdering());
    } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
      n.op = I_CMPXCHG; n.a = opd(d, cx->getPointerOperand()); n.b = opd(d, cx->getCompareOperand()); n.c = opd(d, cx->getNewValOperand());
      n.w = width(cx->getCompareOperand()->getType());
      n.order = ordOf(cx->getSuccessOrdering());
      n.sub = ordOf(cx->getFailureOrdering());
    } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
      n.op = I_RMW; n.a = opd(d, rm->getPointerOperand()); n.b = opd(d, rm->getValOperand()); n.w = width(rm->getType());
      n.sub = rm->getOperation();
      n.order = ordOf(rm->getOrdering());
    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
      if (cb->isInlineAsm()) { return; }
      n.op = I_CALL;
      n.ns = slots(cb->getType());
      const Value* cal = cb->getCalledOperand()->stripPointerCasts();
      if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliasee()->stripPointerCasts();
      if (auto* cf = dyn_cast<Function>(cal)) {
        std::string nm = cf->getName().str();
        if (nm.rfind("llvm.dbg.", 0) == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0) return;
        n.fn = out->byName[nm];
        n.bi = n.fn->bi;
        if (n.bi == BI_NOP && n.ns == 0) { if (!isa<InvokeInst>(I)) return; }
        if (cb->arg_size() && cb->getArgOperand(0)->getType()->isIntegerTy()) n.w = width(cb->getArgOperand(0)->getType());
        if (cb->getType()->isIntegerTy()) n.w2 = width(cb->getType());
        if (cb->getType()->isStructTy()) n.w2 = n.w;
      } else n.a = opd(d, cb->getCalledOperand());
      for (unsigned k = 0; k < cb->arg_size(); k++) {
        Value* av = cb->getArgOperand(k);
        if (av->getType()->isMetadataTy()) { n.args.push_back(-1); d.f->consts.empty() ? d.f->consts.push_back(Val(0)) : void(); continue; }
        int s = slots(av->getType());
        int o = opd(d, av);
        if (cb->isByValArgument(k)) n.byval.push_back({(int)n.args.size(), dl->getTypeAllocSize(cb->getParamByValType(k))});
        for (int q = 0; q < s; q++) n.args.push_back(o >= 0 ? o + q : o - q);
      }
      if (auto* iv = dyn_cast<InvokeInst>(&I)) {
        ob.ins.push_back(n);
        Instr b;
        b.op = I_BR;
        b.line = n.line;
        b.file = n.file;
        b.e0 = mkEdge(d, I.getParent(), iv->getNormalDest());
        ob.ins.push_back(b);
        return;
      }
    } else die("instruction " + str(&I));
    ob.ins.push_back(n);
  }
  void analyse(Function& F, FD& d) {
    Fn* f = d.f;
    int nb = f->blocks.size();
    DominatorTree dt(F);
    llvm::LoopInfo li(dt);
    f->headerOf.assign(nb, -1);
    std::map<Loop*, int> lid;
    std::vector<BasicBlock*> rb(nb);
    for (auto& b : F) rb[d.bb[&b]] = &b;
    std::function<void(Loop*)> reg = [&](Loop* l) {
      int id = f->loops.size();
      lid[l] = id;
      Fn::LoopInfo x;
      x.header = d.bb[l->getHeader()];
      for (auto* b : l->blocks()) x.blocks.insert(d.bb[b]);
      f->loops.push_back(x);
      f->headerOf[x.header] = id;
      for (auto* s : l->getSubLoops()) reg(s);
    };
    for (auto* l : li) reg(l);
    // hierarchical topological order
    std::function<void(Loop*, BasicBlock*)> order = [&](Loop* region, BasicBlock* entry) {
      std::map<void*, int> state;
      std::vector<std::pair<BasicBlock*, Loop*>> post;
      auto childOf = [&](BasicBlock* b) -> Loop* {
        Loop* l = li.getLoopFor(b);
        while (l && l->getParentLoop() != region) l = l->getParentLoop();
        return l;
      };
      auto inRegion = [&](BasicBlock* b) { return !region || region->contains(b); };
      std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) {
        Loop* c = (region && li.getLoopFor(b) == region) || !li.getLoopFor(b) ? nullptr : childOf(b);
        void* key = c ? (void*)c : (void*)b;
        if (state[key]) return;
        state[key] = 1;
        std::vector<BasicBlock*> succ;
        if (c) { SmallVector<BasicBlock*, 8> ex; c->getExitBlocks(ex); succ.assign(ex.begin(), ex.end()); }
        else for (auto* s : successors(b)) succ.push_back(s);
        for (auto* s : succ) {
          if (!inRegion(s)) continue;
          if (region && s == region->getHeader()) continue;
          dfs(s);
        }
        post.push_back({b, c});
      };
      dfs(entry);
      int o = 0;
      for (size_t i = post.size(); i--;) {
        auto [b, c] = post[i];
        int my = o++;
        if (c) {
          for (auto* x : c->blocks()) f->blocks[d.bb[x]].loops.push_back({my, lid[c]});
          order(c, c->getHeader());
        } else f->blocks[d.bb[b]].ord = my;
      }
    };
    order(nullptr, &F.getEntryBlock());
    // liveness
    std::vector<std::vector<uint8_t>> gen(nb, std::vector<uint8_t>(f->nregs)), kill = gen;
    for (int b = 0; b < nb; b++) {
      auto& ins = f->blocks[b].ins;
      for (size_t i = ins.size(); i--;) {
        if (ins[i].dst >= 0) for (int k = 0; k < std::max(1, ins[i].ns); k++) if (ins[i].dst + k < f->nregs) { gen[b][ins[i].dst + k] = 0; kill[b][ins[i].dst + k] = 1; }
        std::vector<int> u;
        uses(ins[i], u);
        for (int r : u) gen[b][r] = 1;
      }
    }
    f->liveIn.assign(nb, std::vector<uint8_t>(f->nregs));
    bool ch = true;
    std::vector<std::vector<int>> outE(nb);
    for (size_t e = 0; e < f->edges.size(); e++) outE[f->edges[e].from].push_back(e);
    while (ch) {
      ch = false;
      for (int b = nb; b--;) {
        std::vector<uint8_t> lo = liveOut(f, b, outE);
        for (int r = 0; r < f->nregs; r++) {
          uint8_t v = gen[b][r] || (lo[r] && !kill[b][r]);
          if (v && !f->liveIn[b][r]) { f->liveIn[b][r] = 1; ch = true; }
        }
      }
    }
  }
  static std::vector<uint8_t> liveOut(Fn* f, int b, std::vector<std::vector<int>>& outE) {
    std::vector<uint8_t> lo(f->nregs);
    for (int e : outE[b]) {
      auto& E = f->edges[e];
      std::vector<uint8_t> t = f->liveIn[E.to];
      for (auto& m : E.moves) t[m.dst] = 0;
      for (auto& m : E.moves) if (f->liveIn[E.to][m.dst] && m.src >= 0) t[m.src] = 1;
      for (int r = 0; r < f->nregs; r++) lo[r] |= t[r];
    }
    return lo;
  }

  ::Module* load(const std::string& path) {
    SMDiagnostic err;
    m = parseIRFile(path, err, ctx);
    if (!m) die("cannot read " + path);
    dl = &m->getDataLayout();
    out = new ::Module;
    out->be = dl->isBigEndian();
    u64 slot = G0;
    for (auto& F : *m) {
      auto f = std::make_unique<Fn>();
      f->name = F.getName().str();
      f->pretty = llvm::demangle(f->name);
      f->addr = (slot++ << SLOT) + OFF0;
      gaddr[&F] = f->addr;
      out->fnAt[f->addr] = f.get();
      if (F.isDeclaration()) f->bi = builtinFor(f->name);
      else if (f->name == "__clang_call_terminate") f->bi = BI_ABORT;
      out->byName[f->name] = f.get();
      out->fns.push_back(std::move(f));
    }
    for (auto& G : m->globals()) { gaddr[&G] = (slot << SLOT) + OFF0; slot++; }
    if (slot >= S0) die("too many globals");
    for (auto& G : m->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      GlobalInit gi;
      gi.name = G.getName().str();
      gi.isConst = G.isConstant();
      u64 sz = G.getValueType()->isSized() ? (u64)dl->getTypeAllocSize(G.getValueType()) : 0;
      gi.bytes.assign(sz, 0);
      gi.def.assign(sz, 0);
      gi.slot = gaddr[&G] >> SLOT;
      if (G.hasInitializer()) initBytes(G.getInitializer(), gi.bytes, gi.def, 0);
      out->gaddr[gi.name] = gaddr[&G];
      out->globals.push_back(std::move(gi));
    }
    if (auto* gc = m->getNamedGlobal("llvm.global_ctors"))
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands())
          if (auto* cs = dyn_cast<ConstantStruct>(o))
            if (auto* F = dyn_cast<Function>(cs->getOperand(1))) out->ctors.push_back(F->getName().str());
    for (auto& F : *m) if (!F.isDeclaration()) decode(F, out->byName[F.getName().str()]);
    return out;
  }
};
::Module* loadModule(const std::string& path) {
  auto* l = new Loader;
  return l->load(path);
}
