// vex: a symbolic executor for LLVM bitcode produced from the real sources.
//
//   vex run module.bc --entry vex_entry_x [--jobs n] [--timeout s] [--out dir] ...
//
// Exploration is exhaustive within the harness' own bounds: a branch whose condition is symbolic is decided by the
// solver and both sides are followed when both are satisfiable, every concretisation enumerates all feasible values.
// Whatever could make the exploration partial (solver unknown, limits, unmodelled externals) is reported as "incomplete".
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <sstream>
#include <algorithm>

using namespace llvm;

static const uint64_t OBJ_SHIFT = 24;
static const uint64_t OBJ_BASE = 0x1000;
static const uint64_t OBJ_MAX = (1ull << OBJ_SHIFT) - 2 * OBJ_BASE;
static const uint32_t STACK_ID = 1u << 28;
static const uint32_t HDR_ADJ = 48;

static Module* M;
static const DataLayout* DL;
static double g_start;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- configuration
static std::string opt_entry, opt_out = ".";
static unsigned opt_jobs = 1, opt_samples = 6, opt_maxviol = 4;
static double opt_timeout = 600;
static uint64_t opt_maxinstr = 400000000ull;
static uint64_t opt_seed = 1;
static bool opt_verbose = false;
static unsigned opt_enum = 4096;
static bool opt_trace = false;

// ---- results (per process)
struct Violation { std::string kind, name, where; std::vector<std::pair<std::string, u128>> inputs; std::vector<unsigned> w; };
static std::vector<Violation> r_viol;
struct Known { std::string kind, name, where; };
static std::vector<Known> g_known; // listed findings: recorded, but not counted towards stopping
static std::map<std::string, unsigned> g_violkeys;
static std::map<std::string, uint64_t> r_asserts, r_covers, r_incomplete;
static std::map<std::string, uint64_t> r_assertq; // asserts that needed the solver
static uint64_t r_paths = 0, r_assumed = 0, r_errors = 0, r_forks = 0, r_instrs = 0, r_maxdepth = 0, r_states = 1;
struct Sample { std::vector<std::pair<std::string, u128>> inputs; std::vector<unsigned> w; std::vector<std::pair<std::string, u128>> obs; };
static std::vector<Sample> r_samples;

struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<int> viols; std::atomic<uint64_t> procs; };
static Shared* g_shared;

// ---- globals
static std::unordered_map<const GlobalValue*, uint32_t> gid;
static std::vector<DFunc*> fn_by_id;       // function id -> DFunc
static std::unordered_map<const Function*, DFunc*> dfuncs;
static std::unordered_map<std::string, NativeFn> natives;
static std::vector<State*> work;
static uint64_t ti_si, ti_vmi, ti_class, ti_ptr;

static uint64_t addrOf(uint32_t id) { return ((uint64_t)id << OBJ_SHIFT) + OBJ_BASE; }

static DFunc* dfunc(Function* f)
{
   auto& d = dfuncs[f];
   if (!d) { d = new DFunc; d->f = f; d->name = f->getName().str(); }
   return d;
}

static void decode(DFunc* d);

static std::string demangled(const std::string& n) { return llvm::demangle(n); }

static std::string where(State& s)
{
   std::string r;
   int n = 0;
   for (size_t i = s.frames.size(); i-- > 0 && n < 14; ++n)
   {
      if (!r.empty()) r += " <- ";
      std::string d = demangled(s.frames[i].f->name);
      if (d.size() > 160) d = d.substr(0, 157) + "...";
      r += d;
   }
   return r;
}

static void incomplete(State& s, const std::string& what)
{
   std::string k = what;
   if (++r_incomplete[k] == 1 || opt_verbose)
      fprintf(stderr, "[incomplete] %s\n   at %s\n", what.c_str(), where(s).c_str());
}

static Expr* known(State& s, Expr* e)
{
   for (auto x : e->ss->v)
      if (x < s.known.size() && s.known[x].first) return substExpr(e, s.known);
   return e;
}

static V simp(State& s, const V& v)
{
   if (!v.e) return v;
   return fromE(known(s, v.e));
}

static void learn(State& s, Expr* c)
{
   auto set = [&](uint32_t sym, u128 val) { if (sym >= s.known.size()) s.known.resize(sym + 1, {false, 0}); s.known[sym] = {true, val}; };
   if (c->k == K::Eq && c->a->k == K::Sym && isC(c->b)) set(c->a->aux, c->b->cv);
   else if (c->k == K::Sym) set(c->aux, 1);
   else if (c->k == K::Xor && c->a->k == K::Sym && c->w == 1 && isTrue(c->b)) set(c->a->aux, 0);
   else if (c->k == K::Ult && c->a->k == K::Sym && isC(c->b) && c->b->cv == 1) set(c->a->aux, 0);
}

static void addc(State& s, Expr* c)
{
   if (isTrue(c)) return;
   if (c->k == K::And && c->w == 1) { addc(s, c->a); addc(s, c->b); return; }
   // not (a or b)
   if (c->k == K::Xor && c->w == 1 && isTrue(c->b) && c->a->k == K::Or) { addc(s, mkNot(c->a->a)); addc(s, mkNot(c->a->b)); return; }
   for (auto x : s.pc) if (x == c) return;
   s.pc.push_back(c);
   learn(s, c);
}

static void recordViolation(State& s, const std::string& kind, const std::string& name, const Assignment& m)
{
   Violation v;
   v.kind = kind; v.name = name; v.where = where(s);
   for (auto& i : s.inputs) { v.inputs.push_back({i.name, m.get(i.sym) & maskw(i.w)}); v.w.push_back(i.w); }
   bool known = false;
   for (auto& k : g_known)
      if (k.kind == kind && k.name == name && v.where.find(k.where) != std::string::npos) { known = true; break; }
   if (++g_violkeys[kind + "|" + name + "|" + v.where] > 2) return;
   r_viol.push_back(std::move(v));
   if (known) return;
   if (opt_verbose || r_viol.size() <= 3) fprintf(stderr, "[violation] %s %s\n   at %s\n", kind.c_str(), name.c_str(), where(s).c_str());
   if (++g_shared->viols >= (int)opt_maxviol) g_shared->stop = 1;
}

static St memerr(State& s, const std::string& what)
{
   recordViolation(s, "memory", what, s.model);
   ++r_errors;
   return St::dead;
}

static State* forkState(State& s)
{
   State* n = new State(s);
   ++n->forks;
   ++r_forks;
   ++r_states;
   if (n->forks > r_maxdepth) r_maxdepth = n->forks;
   return n;
}

// ---------------------------------------------------------------- types and constants

static unsigned tw(Type* t)
{
   if (t->isIntegerTy()) return t->getIntegerBitWidth();
   if (t->isPointerTy()) return 64;
   if (t->isFloatTy()) return 32;
   if (t->isDoubleTy()) return 64;
   if (t->isX86_FP80Ty()) return 80;
   if (t->isHalfTy()) return 16;
   return 0;
}
static uint8_t tfp(Type* t) { return t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : t->isX86_FP80Ty() ? 3 : 0; }

static void leavesOf(Type* t, uint64_t off, std::vector<Leaf>& out)
{
   if (auto st = dyn_cast<StructType>(t))
   {
      auto sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out);
   }
   else if (auto at = dyn_cast<ArrayType>(t))
   {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); ++i) leavesOf(at->getElementType(), off + i * es, out);
   }
   else if (auto vt = dyn_cast<FixedVectorType>(t))
   {
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); ++i) leavesOf(vt->getElementType(), off + i * es, out);
   }
   else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {}
   else out.push_back({tw(t), (uint32_t)off, tfp(t)});
}
static unsigned nleaves(Type* t) { std::vector<Leaf> l; leavesOf(t, 0, l); return l.size(); }
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx)
{
   unsigned r = 0;
   for (unsigned i : idx)
   {
      if (auto st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) r += nleaves(st->getElementType(k)); t = st->getElementType(i); }
      else if (auto at = dyn_cast<ArrayType>(t)) { r += i * nleaves(at->getElementType()); t = at->getElementType(); }
   }
   return r;
}

static u128 apToU(const APInt& a)
{
   u128 v = 0;
   unsigned n = a.getNumWords();
   const uint64_t* p = a.getRawData();
   v = p[0];
   if (n > 1) v |= (u128)p[1] << 64;
   return v & maskw(std::min(128u, a.getBitWidth()));
}

static void constLeaves(const Constant* c, std::vector<V>& out);

static u128 constInt(const Constant* c)
{
   std::vector<V> v;
   constLeaves(c, v);
   return v.empty() ? 0 : v[0].c;
}

static void constLeaves(const Constant* c, std::vector<V>& out)
{
   Type* t = c->getType();
   if (auto ci = dyn_cast<ConstantInt>(c)) { out.push_back(cv(apToU(ci->getValue()))); return; }
   if (auto cf = dyn_cast<ConstantFP>(c)) { out.push_back(cv(apToU(cf->getValueAPF().bitcastToAPInt()))); return; }
   if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
   if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c))
   {
      unsigned n = nleaves(t);
      for (unsigned i = 0; i < n; ++i) out.push_back(cv(0));
      return;
   }
   if (auto ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) constLeaves(cast<Constant>(o), out); return; }
   if (auto cd = dyn_cast<ConstantDataSequential>(c))
   {
      for (unsigned i = 0; i < cd->getNumElements(); ++i) constLeaves(cd->getElementAsConstant(i), out);
      return;
   }
   if (auto ga = dyn_cast<GlobalAlias>(c)) { constLeaves(ga->getAliasee(), out); return; }
   if (auto gv = dyn_cast<GlobalValue>(c))
   {
      auto it = gid.find(gv);
      if (it == gid.end()) { out.push_back(cv(0)); return; }
      out.push_back(cv(addrOf(it->second)));
      return;
   }
   if (auto ce = dyn_cast<ConstantExpr>(c))
   {
      unsigned w = tw(t);
      switch (ce->getOpcode())
      {
         case Instruction::GetElementPtr:
         {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "non constant gep expr\n"); abort(); }
            u128 b = constInt(ce->getOperand(0));
            out.push_back(cv((b + apToU(off)) & maskw(64)));
            return;
         }
         case Instruction::BitCast: case Instruction::AddrSpaceCast: constLeaves(ce->getOperand(0), out); return;
         case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
            out.push_back(cv(constInt(ce->getOperand(0)) & maskw(w))); return;
         case Instruction::SExt: out.push_back(cv((u128)sext128(constInt(ce->getOperand(0)), tw(ce->getOperand(0)->getType())) & maskw(w))); return;
         case Instruction::Add: out.push_back(cv(foldBin(K::Add, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::Sub: out.push_back(cv(foldBin(K::Sub, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::Mul: out.push_back(cv(foldBin(K::Mul, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::And: out.push_back(cv(foldBin(K::And, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::Or: out.push_back(cv(foldBin(K::Or, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::Xor: out.push_back(cv(foldBin(K::Xor, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::LShr: out.push_back(cv(foldBin(K::LShr, w, constInt(ce->getOperand(0)), constInt(ce->getOperand(1))))); return;
         case Instruction::ICmp:
         {
            u128 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
            unsigned ow = tw(ce->getOperand(0)->getType());
            bool r = false;
            switch (ce->getPredicate())
            {
               case CmpInst::ICMP_EQ: r = a == b; break;
               case CmpInst::ICMP_NE: r = a != b; break;
               case CmpInst::ICMP_ULT: r = a < b; break;
               case CmpInst::ICMP_UGT: r = a > b; break;
               case CmpInst::ICMP_ULE: r = a <= b; break;
               case CmpInst::ICMP_UGE: r = a >= b; break;
               case CmpInst::ICMP_SLT: r = sext128(a, ow) < sext128(b, ow); break;
               case CmpInst::ICMP_SGT: r = sext128(a, ow) > sext128(b, ow); break;
               default: fprintf(stderr, "const icmp\n"); abort();
            }
            out.push_back(cv(r));
            return;
         }
         default:
            errs() << "unsupported constant expression: " << *ce << "\n"; abort();
      }
   }
   errs() << "unsupported constant: " << *c << "\n";
   abort();
}

static void initMem(Obj* o, const Constant* c, uint64_t off)
{
   Type* t = c->getType();
   if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
   if (auto cs = dyn_cast<ConstantStruct>(c))
   {
      auto sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); ++i) initMem(o, cs->getOperand(i), off + sl->getElementOffset(i));
      return;
   }
   if (auto ca = dyn_cast<ConstantArray>(c))
   {
      uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) initMem(o, ca->getOperand(i), off + i * es);
      return;
   }
   if (auto cd = dyn_cast<ConstantDataSequential>(c))
   {
      StringRef raw = cd->getRawDataValues();
      memcpy(o->data.data() + off, raw.data(), raw.size());
      return;
   }
   std::vector<V> l;
   constLeaves(c, l);
   std::vector<Leaf> lt;
   leavesOf(t, 0, lt);
   for (size_t i = 0; i < l.size(); ++i)
   {
      unsigned n = (lt[i].w + 7) / 8;
      u128 v = l[i].c;
      for (unsigned b = 0; b < n; ++b) { o->data[off + lt[i].off + b] = (uint8_t)v; v >>= 8; }
   }
}

// ---------------------------------------------------------------- decode

struct Decoder
{
   DFunc* d;
   std::unordered_map<const Value*, int32_t> slot;
   std::unordered_map<const Constant*, uint32_t> cpool;
   std::unordered_map<const BasicBlock*, uint32_t> bbpc;

   Op op(const Value* v)
   {
      Op o;
      if (auto c = dyn_cast<Constant>(v))
      {
         auto it = cpool.find(c);
         if (it != cpool.end()) { o.cidx = it->second; return o; }
         o.cidx = d->consts.size();
         constLeaves(c, d->consts);
         if (d->consts.size() == o.cidx) d->consts.push_back(cv(0));
         cpool[c] = o.cidx;
         return o;
      }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.cidx = d->consts.size(); d->consts.push_back(cv(0)); return o; }
      auto it = slot.find(v);
      if (it == slot.end()) { errs() << "no slot for " << *v << " in " << d->name << "\n"; abort(); }
      o.slot = it->second;
      return o;
   }

   Edge edge(const BasicBlock* from, const BasicBlock* to)
   {
      Edge e;
      e.target = bbpc[to];
      for (auto& phi : to->phis())
      {
         unsigned n = nleaves(phi.getType());
         Op src = op(phi.getIncomingValueForBlock(from));
         int32_t dst = slot[&phi];
         for (unsigned i = 0; i < n; ++i)
         {
            Op s = src;
            if (s.slot >= 0) s.slot += i; else s.cidx += i;
            e.moves.push_back({dst + (int)i, s});
         }
      }
      return e;
   }
};

static bool skipInst(const Instruction& I)
{
   if (isa<PHINode>(I)) return true;
   if (isa<DbgInfoIntrinsic>(I)) return true;
   if (auto ii = dyn_cast<IntrinsicInst>(&I))
   {
      switch (ii->getIntrinsicID())
      {
         case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
         case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
         case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect:
            return true;
         default: break;
      }
   }
   return false;
}

static void decode(DFunc* d)
{
   if (d->decoded) return;
   d->decoded = true;
   Function* f = d->f;
   Decoder D; D.d = d;
   uint32_t ns = 0;
   for (auto& a : f->args()) { D.slot[&a] = ns; ns += nleaves(a.getType()); }
   d->nargs = ns;
   d->vararg = f->isVarArg();
   uint32_t pc = 0;
   for (auto& bb : *f)
   {
      D.bbpc[&bb] = pc;
      for (auto& I : bb)
      {
         unsigned n = nleaves(I.getType());
         if (n) { D.slot[&I] = ns; ns += n; }
         if (!skipInst(I)) ++pc;
      }
   }
   d->nslots = ns;
   d->code.resize(pc);
   pc = 0;
   for (auto& bb : *f)
   {
      for (auto& I : bb)
      {
         if (skipInst(I)) continue;
         DInst& x = d->code[pc++];
         x.inst = &I;
         x.op = I.getOpcode();
         Type* t = I.getType();
         unsigned n = nleaves(t);
         x.n = n ? n : 1;
         x.dst = n ? D.slot[&I] : -1;
         Type* st = t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t;
         x.w = tw(st); x.fp = tfp(st);
         switch (I.getOpcode())
         {
            case Instruction::Add: x.k = K::Add; goto bin;
            case Instruction::Sub: x.k = K::Sub; goto bin;
            case Instruction::Mul: x.k = K::Mul; goto bin;
            case Instruction::UDiv: x.k = K::UDiv; goto bin;
            case Instruction::SDiv: x.k = K::SDiv; goto bin;
            case Instruction::URem: x.k = K::URem; goto bin;
            case Instruction::SRem: x.k = K::SRem; goto bin;
            case Instruction::And: x.k = K::And; goto bin;
            case Instruction::Or: x.k = K::Or; goto bin;
            case Instruction::Xor: x.k = K::Xor; goto bin;
            case Instruction::Shl: x.k = K::Shl; goto bin;
            case Instruction::LShr: x.k = K::LShr; goto bin;
            case Instruction::AShr: x.k = K::AShr; goto bin;
            bin:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               break;
            case Instruction::FNeg: x.a = D.op(I.getOperand(0)); break;
            case Instruction::ICmp: case Instruction::FCmp:
            {
               Type* ot = I.getOperand(0)->getType();
               if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType();
               x.w2 = tw(ot); x.fp2 = tfp(ot);
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               x.pred = cast<CmpInst>(I).getPredicate();
               break;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
            case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
            case Instruction::Freeze: case Instruction::AddrSpaceCast:
            {
               Type* ot = I.getOperand(0)->getType();
               if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType();
               x.w2 = tw(ot); x.fp2 = tfp(ot);
               x.a = D.op(I.getOperand(0));
               break;
            }
            case Instruction::BitCast:
            {
               x.a = D.op(I.getOperand(0));
               std::vector<Leaf> l; leavesOf(I.getOperand(0)->getType(), 0, l);
               x.leaves = l;
               Type* ot = I.getOperand(0)->getType();
               if (ot->isVectorTy()) ot = cast<VectorType>(ot)->getElementType();
               x.w2 = tw(ot);
               break;
            }
            case Instruction::Select:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.c = D.op(I.getOperand(2));
               x.w2 = nleaves(I.getOperand(0)->getType());
               { std::vector<Leaf> l; leavesOf(t, 0, l); x.leaves = l; }
               break;
            case Instruction::Alloca:
            {
               auto& A = cast<AllocaInst>(I);
               x.off = DL->getTypeAllocSize(A.getAllocatedType());
               x.a = D.op(A.getArraySize());
               break;
            }
            case Instruction::Load:
               x.a = D.op(I.getOperand(0));
               leavesOf(t, 0, x.leaves);
               break;
            case Instruction::Store:
               x.a = D.op(I.getOperand(1)); x.b = D.op(I.getOperand(0));
               leavesOf(I.getOperand(0)->getType(), 0, x.leaves);
               break;
            case Instruction::GetElementPtr:
            {
               x.a = D.op(I.getOperand(0));
               if (t->isVectorTy()) { errs() << "vector gep\n"; abort(); }
               auto& G = cast<GetElementPtrInst>(I);
               for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi)
               {
                  if (auto stt = gi.getStructTypeOrNull())
                     x.off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                  else
                  {
                     int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                     if (auto ci = dyn_cast<ConstantInt>(gi.getOperand())) x.off += es * ci->getSExtValue();
                     else x.gep.push_back({D.op(gi.getOperand()), {es, tw(gi.getOperand()->getType())}});
                  }
               }
               break;
            }
            case Instruction::ExtractValue:
            {
               auto& E = cast<ExtractValueInst>(I);
               x.a = D.op(E.getAggregateOperand());
               x.off = leafIndex(E.getAggregateOperand()->getType(), E.getIndices());
               break;
            }
            case Instruction::InsertValue:
            {
               auto& E = cast<InsertValueInst>(I);
               x.a = D.op(E.getAggregateOperand()); x.b = D.op(E.getInsertedValueOperand());
               x.off = leafIndex(t, E.getIndices());
               x.w2 = nleaves(E.getInsertedValueOperand()->getType());
               break;
            }
            case Instruction::ExtractElement:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               break;
            case Instruction::InsertElement:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.c = D.op(I.getOperand(2));
               break;
            case Instruction::ShuffleVector:
            {
               auto& S = cast<ShuffleVectorInst>(I);
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               for (int m : S.getShuffleMask()) x.shuf.push_back(m);
               x.off = nleaves(I.getOperand(0)->getType());
               break;
            }
            case Instruction::Br:
            {
               auto& B = cast<BranchInst>(I);
               if (B.isConditional()) { x.a = D.op(B.getCondition()); x.edges.push_back(D.edge(&bb, B.getSuccessor(0))); x.edges.push_back(D.edge(&bb, B.getSuccessor(1))); }
               else x.edges.push_back(D.edge(&bb, B.getSuccessor(0)));
               x.w2 = B.isConditional();
               break;
            }
            case Instruction::Switch:
            {
               auto& S = cast<SwitchInst>(I);
               x.a = D.op(S.getCondition());
               x.w2 = tw(S.getCondition()->getType());
               std::map<const BasicBlock*, uint32_t> em;
               x.edges.push_back(D.edge(&bb, S.getDefaultDest()));
               em[S.getDefaultDest()] = 0;
               for (auto& c : S.cases())
               {
                  auto it = em.find(c.getCaseSuccessor());
                  uint32_t ei;
                  if (it == em.end()) { ei = x.edges.size(); x.edges.push_back(D.edge(&bb, c.getCaseSuccessor())); em[c.getCaseSuccessor()] = ei; }
                  else ei = it->second;
                  x.cases.push_back({apToU(c.getCaseValue()->getValue()), ei});
               }
               break;
            }
            case Instruction::Ret:
               if (I.getNumOperands()) { x.a = D.op(I.getOperand(0)); x.n = nleaves(I.getOperand(0)->getType()); x.w2 = 1; }
               else x.w2 = 0;
               break;
            case Instruction::Unreachable: break;
            case Instruction::Resume: x.a = D.op(I.getOperand(0)); break;
            case Instruction::LandingPad:
            {
               auto& L = cast<LandingPadInst>(I);
               x.cleanup = L.isCleanup();
               for (unsigned i = 0; i < L.getNumClauses(); ++i)
               {
                  Clause c;
                  c.isCatch = L.isCatch(i);
                  std::vector<V> v;
                  constLeaves(L.getClause(i), v);
                  for (auto& q : v) c.ti.push_back((uint64_t)q.c);
                  x.clauses.push_back(c);
               }
               break;
            }
            case Instruction::Call: case Instruction::Invoke:
            {
               auto& C = cast<CallBase>(I);
               x.callee = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
               if (!x.callee) if (auto ga = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) x.callee = dyn_cast<Function>(ga->getAliaseeObject());
               if (!x.callee) x.a = D.op(C.getCalledOperand());
               for (unsigned i = 0; i < C.arg_size(); ++i)
               {
                  auto arg = C.getArgOperand(i);
                  std::vector<Leaf> l; leavesOf(arg->getType(), 0, l);
                  Op o = D.op(arg);
                  for (unsigned k = 0; k < l.size(); ++k)
                  {
                     Op s = o; if (s.slot >= 0) s.slot += k; else s.cidx += k;
                     x.args.push_back(s); x.argw.push_back(l[k].w);
                     x.byval.push_back(C.isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
                  }
               }
               if (auto iv = dyn_cast<InvokeInst>(&I)) { x.edges.push_back(D.edge(&bb, iv->getNormalDest())); x.edges.push_back(D.edge(&bb, iv->getUnwindDest())); }
               { std::vector<Leaf> l; leavesOf(t, 0, l); x.leaves = l; }
               break;
            }
            case Instruction::AtomicRMW:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1));
               x.pred = cast<AtomicRMWInst>(I).getOperation();
               break;
            case Instruction::AtomicCmpXchg:
               x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.c = D.op(I.getOperand(2));
               x.w = tw(I.getOperand(1)->getType());
               break;
            case Instruction::Fence: break;
            case Instruction::VAArg: break;
            default:
               errs() << "unsupported instruction: " << I << "\n"; abort();
         }
      }
   }
}

// ---------------------------------------------------------------- state access

static inline V& getv(State& s, const Frame& f, const Op& o, unsigned i = 0)
{
   return o.slot >= 0 ? s.regs[f.base + o.slot + i] : f.f->consts[o.cidx + i];
}
static inline void setv(State& s, const Frame& f, int32_t slot, const V& v) { s.regs[f.base + slot] = v; }

static Obj* objGet(State& s, uint32_t id) { return id >= STACK_ID ? s.stk.get(id - STACK_ID) : s.mem.get(id); }
static Obj* objGetW(State& s, uint32_t id) { return id >= STACK_ID ? s.stk.getw(id - STACK_ID) : s.mem.getw(id); }

static Obj* g_freed;

static uint32_t allocHeap(State& s, uint64_t size, uint32_t flavour)
{
   uint32_t id = s.nextHeap++;
   Obj* o = new Obj;
   o->size = size; o->kind = 1; o->alloc = flavour;
   o->data.assign(size, 0xAA);
   s.mem.set(id, o);
   return id;
}
static uint64_t allocStack(State& s, uint64_t size)
{
   uint32_t id = s.nextStack++;
   Obj* o = new Obj;
   o->size = size; o->kind = 2;
   o->data.assign(size, 0xAA);
   s.stk.set(id, o);
   return addrOf(id + STACK_ID);
}
static void popFrame(State& s)
{
   Frame& f = s.frames.back();
   while (s.nextStack > f.stkmark) s.stk.set(--s.nextStack, nullptr);
   s.regs.resize(f.base);
   s.frames.pop_back();
}

static std::string hex(uint64_t x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }

// enumerates: on St::next, out is the only feasible value in this state. Other feasible values were forked (redo).
static St concretize(State& s, const V& v0, unsigned w, u128& out)
{
   V v = simp(s, v0);
   if (!v.e) { out = v.c; return St::next; }
   u128 x = evalExpr(v.e, s.model);
   Expr* eq = mkEq(v.e, mkConst(x, w));
   Expr* ne = mkNot(eq);
   Assignment m = s.model;
   Sat r = solve(s.pc, ne, &m);
   if (r == Sat::unknown) { incomplete(s, "solver unknown (concretisation)"); }
   if (r == Sat::yes)
   {
      uint32_t& cnt = s.enumCount[s.frames.empty() ? 0 : (uint32_t)((uintptr_t)&s.frames.back().f->code[s.frames.back().pc] >> 4)];
      if (cnt > opt_enum) { incomplete(s, "too many values enumerated"); }
      else
      {
         State* n = forkState(s);
         n->model = std::move(m);
         n->enumCount[s.frames.empty() ? 0 : (uint32_t)((uintptr_t)&s.frames.back().f->code[s.frames.back().pc] >> 4)] = cnt + 1;
         addc(*n, ne);
         work.push_back(n); // will re-execute the same instruction
      }
   }
   addc(s, eq);
   out = x;
   return St::next;
}

struct Loc { uint32_t id; uint32_t off; Obj* o; };

static St locate(State& s, uint64_t a, uint64_t n, bool write, Loc& l, const char* what)
{
   uint32_t id = a >> OBJ_SHIFT;
   int64_t off = (int64_t)(a & ((1ull << OBJ_SHIFT) - 1)) - (int64_t)OBJ_BASE;
   Obj* o = (a >> OBJ_SHIFT) <= 0xffffffffull ? objGet(s, id) : nullptr;
   if (!o)
   {
      if (a < (1ull << OBJ_SHIFT)) return memerr(s, std::string(what) + ": null dereference");
      return memerr(s, std::string(what) + ": invalid pointer " + hex(a));
   }
   if (o->kind == 4) return memerr(s, std::string(what) + ": use after free");
   if (o->kind == 3) return memerr(s, std::string(what) + ": access to code");
   if (off < 0 || (uint64_t)off + n > o->size) return memerr(s, std::string(what) + ": out of bounds, object size " + std::to_string(o->size) + ", offset " + std::to_string(off) + ", access " + std::to_string(n));
   if (write && o->ro) return memerr(s, std::string(what) + ": write to constant");
   l.id = id; l.off = off; l.o = o;
   return St::next;
}

static V readObj(Obj* o, uint32_t off, unsigned w)
{
   unsigned n = (w + 7) / 8;
   if (o->nsym)
   {
      bool any = false;
      for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { any = true; break; }
      if (any)
      {
         Expr* e = o->sym[off] ? o->sym[off] : mkConst(o->data[off], 8);
         for (unsigned i = 1; i < n; ++i) e = mkConcat(o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8), e);
         if (e->w > w) e = mkExtract(e, 0, w);
         return fromE(e);
      }
   }
   u128 v = 0;
   memcpy(&v, o->data.data() + off, n);
   return cv(v & maskw(w));
}

static void writeObj(Obj* o, uint32_t off, unsigned w, const V& v)
{
   unsigned n = (w + 7) / 8;
   if (!v.e)
   {
      memcpy(o->data.data() + off, &v.c, n);
      if (o->nsym) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { o->sym[off + i] = nullptr; --o->nsym; }
      return;
   }
   if (o->sym.empty()) o->sym.assign(o->size, nullptr);
   Expr* e = v.e;
   if (e->w < n * 8) e = mkZExt(e, n * 8);
   for (unsigned i = 0; i < n; ++i)
   {
      Expr* b = mkExtract(e, i * 8, 8);
      Expr*& p = o->sym[off + i];
      if (isC(b)) { if (p) { p = nullptr; --o->nsym; } o->data[off + i] = (uint8_t)b->cv; }
      else { if (!p) ++o->nsym; p = b; }
   }
}

static unsigned lowZ(Expr* e)
{
   switch (e->k)
   {
      case K::Const: { if (e->cv == 0) return e->w; unsigned n = 0; while (!((e->cv >> n) & 1)) ++n; return n; }
      case K::Concat: { unsigned n = lowZ(e->b); return n == e->b->w ? n + lowZ(e->a) : n; }
      case K::ZExt: { unsigned n = lowZ(e->a); return n >= e->a->w ? e->w : n; }
      case K::Add: case K::Sub: return std::min(lowZ(e->a), lowZ(e->b));
      case K::Mul: return std::min<unsigned>(e->w, lowZ(e->a) + lowZ(e->b));
      case K::Ite: return std::min(lowZ(e->b), lowZ(e->c));
      default: return 0;
   }
}

static St load(State& s, const V& addr0, unsigned w, V& out)
{
   unsigned n = (w + 7) / 8;
   V addr = simp(s, addr0);
   if (addr.e)
   {
      // symbolic address: one object and always in bounds -> if-then-else over its offsets
      u128 m = evalExpr(addr.e, s.model);
      Obj* o = objGet(s, (uint32_t)((uint64_t)m >> OBJ_SHIFT));
      if (o && o->kind != 4 && o->kind != 3 && o->size >= n && addr.e->k != K::Ite)
      {
         uint64_t base = addrOf((uint32_t)((uint64_t)m >> OBJ_SHIFT));
         Expr* rel = mkBin(K::Sub, addr.e, mkConst(base, 64));
         Expr* inb = mkBin(K::Ule, rel, mkConst(o->size - n, 64));
         Assignment mm = s.model;
         Sat r = solve(s.pc, mkNot(inb), &mm);
         if (r == Sat::unknown) incomplete(s, "solver unknown (bounds)");
         if (r == Sat::yes)
         {
            State* f = forkState(s);
            f->model = std::move(mm);
            addc(*f, mkNot(inb));
            work.push_back(f);
            if (evalExpr(inb, s.model) != 1) { addc(s, mkNot(inb)); u128 a; concretize(s, addr, 64, a); addr = cv(a); goto concrete; }
            addc(s, inb);
         }
         unsigned step = 1u << std::min(12u, lowZ(rel));
         if ((o->size - n) / step <= 1024)
         {
            // collect feasible offsets lazily only when there are few, otherwise all of them
            Expr* e = nullptr;
            for (uint64_t k = 0; k + n <= o->size; k += step)
            {
               Expr* val = toE(readObj(o, k, w), w);
               e = e ? mkIte(mkEq(rel, mkConst(k, 64)), val, e) : val;
            }
            out = fromE(e);
            return St::next;
         }
      }
      u128 a;
      St st = concretize(s, addr, 64, a);
      if (st != St::next) return st;
      addr = cv(a);
   }
concrete:
   Loc l;
   St st = locate(s, (uint64_t)addr.c, n, false, l, "load");
   if (st != St::next) return st;
   out = readObj(l.o, l.off, w);
   return St::next;
}

static St store(State& s, const V& addr0, unsigned w, const V& val)
{
   V addr = simp(s, addr0);
   if (addr.e)
   {
      u128 a;
      St st = concretize(s, addr, 64, a);
      if (st != St::next) return st;
      addr = cv(a);
   }
   Loc l;
   St st = locate(s, (uint64_t)addr.c, (w + 7) / 8, true, l, "store");
   if (st != St::next) return st;
   writeObj(objGetW(s, l.id), l.off, w, val);
   return St::next;
}

// concrete helpers for the engine itself (never symbolic)
static bool peek(State& s, uint64_t a, uint64_t& out)
{
   Obj* o = objGet(s, a >> OBJ_SHIFT);
   int64_t off = (int64_t)(a & ((1ull << OBJ_SHIFT) - 1)) - (int64_t)OBJ_BASE;
   if (!o || o->kind == 4 || o->kind == 3 || off < 0 || off + 8 > (int64_t)o->size) return false;
   V v = readObj(o, off, 64);
   if (v.e) { v = simp(s, v); if (v.e) return false; }
   out = (uint64_t)v.c;
   return true;
}
static std::string cstr(State& s, uint64_t a)
{
   std::string r;
   Obj* o = objGet(s, a >> OBJ_SHIFT);
   int64_t off = (int64_t)(a & ((1ull << OBJ_SHIFT) - 1)) - (int64_t)OBJ_BASE;
   if (!o || o->kind >= 3) return "?";
   while (off >= 0 && off < (int64_t)o->size && r.size() < 400)
   {
      if (o->nsym && o->sym[off]) { r += '*'; ++off; continue; }
      if (!o->data[off]) break;
      r += (char)o->data[off++];
   }
   return r;
}

// ---------------------------------------------------------------- control flow

static void jump(State& s, const Edge& e)
{
   Frame& f = s.frames.back();
   if (!e.moves.empty())
   {
      if (e.moves.size() == 1) s.regs[f.base + e.moves[0].first] = getv(s, f, e.moves[0].second);
      else
      {
         static thread_local std::vector<V> tmp;
         tmp.clear();
         for (auto& m : e.moves) tmp.push_back(getv(s, f, m.second));
         for (size_t i = 0; i < e.moves.size(); ++i) s.regs[f.base + e.moves[i].first] = tmp[i];
      }
   }
   f.pc = e.target;
}

static void finishCall(State& s, DInst& I)
{
   if (I.op == Instruction::Invoke) jump(s, I.edges[0]);
   else ++s.frames.back().pc;
}

static bool tiEqual(State& s, uint64_t a, uint64_t b)
{
   if (a == b) return true;
   uint64_t na = 0, nb = 0;
   if (!peek(s, a + 8, na) || !peek(s, b + 8, nb)) return false;
   if (na == nb) return true;
   std::string x = cstr(s, na), y = cstr(s, nb);
   return !x.empty() && x[0] != '*' && x == y;
}

static bool upcast(State& s, uint64_t from, uint64_t to, uint64_t obj, uint64_t& adj)
{
   if (tiEqual(s, from, to)) { adj = obj; return true; }
   uint64_t vp = 0;
   if (!peek(s, from, vp)) return false;
   if (vp == ti_si)
   {
      uint64_t base = 0;
      if (!peek(s, from + 16, base)) return false;
      return upcast(s, base, to, obj, adj);
   }
   if (vp == ti_vmi)
   {
      uint64_t fc = 0;
      if (!peek(s, from + 16, fc)) return false;
      uint32_t cnt = fc >> 32;
      for (uint32_t i = 0; i < cnt; ++i)
      {
         uint64_t base = 0, of = 0;
         if (!peek(s, from + 24 + 16 * i, base) || !peek(s, from + 32 + 16 * i, of)) return false;
         if (!(of & 2)) continue; // not public
         int64_t off = (int64_t)of >> 8;
         uint64_t o = obj;
         if (obj)
         {
            if (of & 1) { uint64_t vt = 0, d = 0; if (!peek(s, obj, vt) || !peek(s, vt + off, d)) return false; o = obj + d; }
            else o = obj + off;
         }
         if (upcast(s, base, to, o, adj)) return true;
      }
   }
   return false;
}

// returns selector, 0 if only cleanup, -1 if the landing pad is not for this exception
static int64_t selectClause(State& s, DInst& lp, uint64_t hdr, bool adjust)
{
   uint64_t obj = 0, ti = 0;
   peek(s, hdr, obj); peek(s, hdr + 8, ti);
   for (size_t i = 0; i < lp.clauses.size(); ++i)
   {
      auto& c = lp.clauses[i];
      uint64_t adj = obj;
      if (c.isCatch)
      {
         if (c.ti[0] == 0 || upcast(s, ti, c.ti[0], obj, adj))
         {
            if (adjust)
            {
               uint64_t vp = 0;
               if (c.ti[0] && peek(s, ti, vp) && vp == ti_ptr) { uint64_t p = 0; if (peek(s, obj, p)) adj = p; }
               store(s, cv(hdr + HDR_ADJ), 64, cv(adj));
            }
            return c.ti[0] == 0 ? 0x7fffffff : (int64_t)(c.ti[0] >> OBJ_SHIFT);
         }
      }
      else
      {
         bool allowed = false;
         for (auto t : c.ti) if (upcast(s, ti, t, obj, adj)) allowed = true;
         if (!allowed) return -1000 - (int64_t)i;
      }
   }
   return lp.cleanup ? 0 : -1;
}

static St unwind(State& s, uint64_t hdr)
{
   while (!s.frames.empty())
   {
      Frame& f = s.frames.back();
      DInst& I = f.f->code[f.pc];
      if (I.op == Instruction::Invoke)
      {
         DInst& lp = f.f->code[I.edges[1].target];
         if (lp.op == Instruction::LandingPad)
         {
            int64_t sel = selectClause(s, lp, hdr, false);
            if (sel != -1)
            {
               s.exnptr = hdr;
               jump(s, I.edges[1]);
               return St::jumped;
            }
         }
      }
      if (s.frames.size() == 1)
      {
         uint64_t ti = 0, nm = 0; peek(s, hdr + 8, ti); peek(s, ti + 8, nm);
         recordViolation(s, "terminate", "uncaught exception " + cstr(s, nm), s.model);
         ++r_errors;
         return St::dead;
      }
      popFrame(s);
   }
   return St::dead;
}

static void pathDone(State& s)
{
   ++r_paths;
   // deterministic thinning
   static uint64_t stride = 1;
   static uint64_t n = 0;
   if (n++ % stride == (opt_seed % stride))
   {
      Sample x;
      for (auto& i : s.inputs) { x.inputs.push_back({i.name, s.model.get(i.sym) & maskw(i.w)}); x.w.push_back(i.w); }
      for (auto& o : s.observes) x.obs.push_back({o.first, o.second.e ? evalExpr(o.second.e, s.model) : o.second.c});
      r_samples.push_back(std::move(x));
      if (r_samples.size() > opt_samples)
      {
         std::vector<Sample> keep;
         for (size_t i = 0; i < r_samples.size(); i += 2) keep.push_back(std::move(r_samples[i]));
         r_samples = std::move(keep);
         stride *= 2;
      }
   }
}

static St enterFunction(State& s, DFunc* d, const std::vector<V>& args, const DInst* I)
{
   decode(d);
   ++d->calls;
   if (s.frames.size() > 2000) { incomplete(s, "call depth"); return St::dead; }
   Frame nf;
   nf.f = d;
   nf.pc = 0;
   nf.base = s.regs.size();
   nf.stkmark = s.nextStack;
   s.regs.resize(nf.base + d->nslots);
   size_t n = std::min<size_t>(args.size(), d->nargs);
   if (args.size() < d->nargs) { incomplete(s, "argument mismatch calling " + d->name); return St::dead; }
   for (size_t i = 0; i < n; ++i)
   {
      V v = args[i];
      if (I && I->byval[i])
      {
         uint64_t p = allocStack(s, I->byval[i]);
         V src = simp(s, v);
         if (src.e) { incomplete(s, "symbolic byval"); return St::dead; }
         Loc l;
         St st = locate(s, (uint64_t)src.c, I->byval[i], false, l, "byval");
         if (st != St::next) return st;
         Obj* dst = s.stk.get((p >> OBJ_SHIFT) - STACK_ID);
         memcpy(dst->data.data(), l.o->data.data() + l.off, I->byval[i]);
         if (l.o->nsym)
         {
            dst->sym.assign(dst->size, nullptr);
            for (uint32_t k = 0; k < I->byval[i]; ++k) if (l.o->sym[l.off + k]) { dst->sym[k] = l.o->sym[l.off + k]; ++dst->nsym; }
         }
         v = cv(p);
      }
      s.regs[nf.base + i] = v;
   }
   if (d->vararg) for (size_t i = n; i < args.size(); ++i) nf.varargs.push_back(args[i]);
   s.frames.push_back(std::move(nf));
   return St::jumped;
}

static St doCall(State& s, DInst& I);
static St intrinsic(State& s, DInst& I, Intrinsic::ID id);
static NativeFn nativeFor(const std::string& n) { auto it = natives.find(n); return it == natives.end() ? nullptr : it->second; }

static St callFunction(State& s, DInst& I, Function* f)
{
   Frame& fr = s.frames.back();
   if (f->isDeclaration())
   {
      if (NativeFn n = nativeFor(f->getName().str()))
      {
         St st = n(s, I);
         if (st == St::next) finishCall(s, I);
         return st == St::next ? St::jumped : st;
      }
      incomplete(s, "unmodelled external: " + demangled(f->getName().str()) + " [" + f->getName().str() + "]");
      return St::dead;
   }
   static thread_local std::vector<V> args;
   args.clear();
   for (auto& o : I.args) args.push_back(getv(s, fr, o));
   return enterFunction(s, dfunc(f), args, &I);
}

static St doCall(State& s, DInst& I)
{
   Frame& fr = s.frames.back();
   if (I.callee)
   {
      if (!I.resolved)
      {
         I.resolved = true;
         if (I.callee->isIntrinsic()) I.pred = I.callee->getIntrinsicID();
         else if (!I.callee->isDeclaration()) I.dcallee = dfunc(I.callee);
         else I.native = nativeFor(I.callee->getName().str());
      }
      if (I.pred)
      {
         St st = intrinsic(s, I, (Intrinsic::ID)I.pred);
         if (st == St::next) { finishCall(s, I); return St::jumped; }
         return st;
      }
      if (I.dcallee)
      {
         static thread_local std::vector<V> args;
         args.clear();
         for (auto& o : I.args) args.push_back(getv(s, fr, o));
         return enterFunction(s, I.dcallee, args, &I);
      }
      if (I.native)
      {
         St st = I.native(s, I);
         if (st == St::next) { finishCall(s, I); return St::jumped; }
         return st;
      }
      return callFunction(s, I, I.callee);
   }
   auto& cb = *cast<CallBase>(I.inst);
   if (cb.isInlineAsm())
   {
      auto ia = cast<InlineAsm>(cb.getCalledOperand());
      if (ia->getAsmString().empty() ) { if (I.dst >= 0) for (unsigned i = 0; i < I.n; ++i) setv(s, fr, I.dst + i, i < I.args.size() ? getv(s, fr, I.args[i]) : cv(0)); finishCall(s, I); return St::jumped; }
      incomplete(s, "inline asm: " + ia->getAsmString());
      return St::dead;
   }
   u128 a;
   St st = concretize(s, getv(s, fr, I.a), 64, a);
   if (st != St::next) return st;
   uint32_t id = (uint64_t)a >> OBJ_SHIFT;
   if (((uint64_t)a & ((1ull << OBJ_SHIFT) - 1)) != OBJ_BASE || id >= fn_by_id.size() || !fn_by_id[id])
      return memerr(s, "indirect call to invalid address " + hex((uint64_t)a));
   return callFunction(s, I, fn_by_id[id]->f);
}

// ---------------------------------------------------------------- natives

static V arg(State& s, DInst& I, unsigned i) { return getv(s, s.frames.back(), I.args[i]); }
static void ret(State& s, DInst& I, const V& v) { if (I.dst >= 0) setv(s, s.frames.back(), I.dst, v); }

#define CONC(var, idx) \
   u128 var##_; { St st_ = concretize(s, arg(s, I, idx), I.argw[idx], var##_); if (st_ != St::next) return st_; } \
   uint64_t var = (uint64_t)var##_;

static St callThrow(State& s, DInst& I, const char* fname)
{
   // call a runtime function (in the module) that throws: the current call instruction stays as the call site
   Function* f = M->getFunction(fname);
   if (!f || f->isDeclaration()) { incomplete(s, std::string("missing runtime function ") + fname); return St::dead; }
   return enterFunction(s, dfunc(f), {}, nullptr);
}

static St doAlloc(State& s, DInst& I, unsigned idx, uint32_t flavour, bool zero, bool nothrow)
{
   V v = simp(s, arg(s, I, idx));
   uint64_t n;
   if (v.e)
   {
      // split on 'too large'
      Expr* big = mkBin(K::Ult, mkConst(OBJ_MAX, 64), v.e);
      Assignment m = s.model;
      bool cur = evalExpr(big, s.model) == 1;
      Sat r = solve(s.pc, cur ? mkNot(big) : big, &m);
      if (r == Sat::unknown) incomplete(s, "solver unknown (alloc)");
      if (r == Sat::yes)
      {
         State* f = forkState(s);
         f->model = std::move(m);
         addc(*f, cur ? mkNot(big) : big);
         work.push_back(f);
      }
      addc(s, cur ? big : mkNot(big));
      if (cur) { n = ~0ull; }
      else
      {
         u128 x; St st = concretize(s, v, 64, x);
         if (st != St::next) return st;
         n = (uint64_t)x;
      }
   }
   else n = (uint64_t)v.c;
   if (n > OBJ_MAX)
   {
      if (nothrow) { ret(s, I, cv(0)); return St::next; }
      return callThrow(s, I, "vexrt_throw_bad_alloc");
   }
   uint32_t id = allocHeap(s, n, flavour);
   if (zero) { Obj* o = s.mem.getw(id); std::fill(o->data.begin(), o->data.end(), 0); }
   ret(s, I, cv(addrOf(id)));
   return St::next;
}

static St n_malloc(State& s, DInst& I) { return doAlloc(s, I, 0, 1, false, true); }
static St n_new(State& s, DInst& I) { return doAlloc(s, I, 0, 2, false, false); }
static St n_newnt(State& s, DInst& I) { return doAlloc(s, I, 0, 2, false, true); }
static St n_alignedalloc(State& s, DInst& I) { return doAlloc(s, I, 1, 1, false, true); }
static St n_calloc(State& s, DInst& I)
{
   CONC(a, 0) CONC(b, 1)
   if (a * b > OBJ_MAX) { ret(s, I, cv(0)); return St::next; }
   uint32_t id = allocHeap(s, a * b, 1);
   Obj* o = s.mem.getw(id); std::fill(o->data.begin(), o->data.end(), 0);
   ret(s, I, cv(addrOf(id)));
   return St::next;
}
static St n_free(State& s, DInst& I)
{
   CONC(p, 0)
   if (!p) return St::next;
   uint32_t id = p >> OBJ_SHIFT;
   Obj* o = objGet(s, id);
   if (!o) return memerr(s, "free of invalid pointer");
   if (o->kind == 4) return memerr(s, "double free");
   if (o->kind != 1 || (p & ((1ull << OBJ_SHIFT) - 1)) != OBJ_BASE) return memerr(s, "free of a pointer not from an allocation");
   s.mem.set(id, g_freed);
   return St::next;
}
static St n_usable(State& s, DInst& I)
{
   CONC(p, 0)
   Obj* o = objGet(s, p >> OBJ_SHIFT);
   ret(s, I, cv(o ? o->size : 0));
   return St::next;
}

static St copyMem(State& s, uint64_t d, uint64_t a, uint64_t n)
{
   if (!n) return St::next;
   Loc ls, ld;
   St st = locate(s, a, n, false, ls, "memcpy source");
   if (st != St::next) return st;
   st = locate(s, d, n, true, ld, "memcpy destination");
   if (st != St::next) return st;
   Obj* o = objGetW(s, ld.id);
   Obj* src = objGet(s, ls.id); // may have been cloned when same object
   memmove(o->data.data() + ld.off, src->data.data() + ls.off, n);
   if (src->nsym || o->nsym)
   {
      if (o->sym.empty()) o->sym.assign(o->size, nullptr);
      std::vector<Expr*> tmp(n, nullptr);
      if (src->nsym) for (uint64_t i = 0; i < n; ++i) tmp[i] = src->sym[ls.off + i];
      for (uint64_t i = 0; i < n; ++i)
      {
         Expr*& p = o->sym[ld.off + i];
         if (p && !tmp[i]) --o->nsym;
         if (!p && tmp[i]) ++o->nsym;
         p = tmp[i];
      }
   }
   return St::next;
}
static St n_memcpy(State& s, DInst& I)
{
   CONC(n, 2)
   if (n) { CONC(d, 0) CONC(a, 1) St st = copyMem(s, d, a, n); if (st != St::next) return st; }
   ret(s, I, arg(s, I, 0));
   return St::next;
}
static St n_memset(State& s, DInst& I)
{
   CONC(n, 2) CONC(d, 0)
   V v = simp(s, arg(s, I, 1));
   if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
   if (n)
   {
      Loc l;
      St st = locate(s, d, n, true, l, "memset");
      if (st != St::next) return st;
      Obj* o = objGetW(s, l.id);
      if (!v.e && !o->nsym) memset(o->data.data() + l.off, (int)v.c, n);
      else for (uint64_t i = 0; i < n; ++i) writeObj(o, l.off + i, 8, v);
   }
   ret(s, I, arg(s, I, 0));
   return St::next;
}
// memcmp / bcmp without forking
static St n_memcmp(State& s, DInst& I)
{
   CONC(n, 2)
   if (!n) { ret(s, I, cv(0)); return St::next; }
   CONC(a, 0) CONC(b, 1)
   Loc la, lb;
   // memcmp may stop early, but callers must own n bytes
   St st = locate(s, a, n, false, la, "memcmp"); if (st != St::next) return st;
   st = locate(s, b, n, false, lb, "memcmp"); if (st != St::next) return st;
   Expr* r = nullptr; // built from the back
   if (!la.o->nsym && !lb.o->nsym)
   {
      int c = memcmp(la.o->data.data() + la.off, lb.o->data.data() + lb.off, n);
      ret(s, I, cv((u128)(int64_t)(c < 0 ? -1 : c > 0 ? 1 : 0) & maskw(32)));
      return St::next;
   }
   bool bc = I.callee && I.callee->getName() == "bcmp";
   Expr* same = mkConst(1, 1);
   r = mkConst(0, 32);
   for (uint64_t i = n; i-- > 0;)
   {
      Expr* x = known(s, toE(readObj(la.o, la.off + i, 8), 8));
      Expr* y = known(s, toE(readObj(lb.o, lb.off + i, 8), 8));
      if (x == y) continue;
      if (bc) same = mkBin(K::And, mkEq(x, y), same);
      else
         r = mkIte(mkEq(x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
   }
   if (bc) r = mkZExt(mkNot(same), 32);
   ret(s, I, fromE(r));
   return St::next;
}
static St n_strlen(State& s, DInst& I)
{
   CONC(a, 0)
   Loc l;
   St st = locate(s, a, 1, false, l, "strlen"); if (st != St::next) return st;
   // concrete prefix fast, symbolic bytes decided one at a time
   for (uint32_t i = l.off;; ++i)
   {
      Obj* o = objGet(s, l.id);
      if (i >= o->size) return memerr(s, "strlen: out of bounds, object size " + std::to_string(o->size));
      V b = readObj(o, i, 8);
      b = simp(s, b);
      if (!b.e) { if (b.c == 0) { ret(s, I, cv(i - l.off)); return St::next; } continue; }
      Expr* z = mkEq(b.e, mkConst(0, 8));
      bool cur = evalExpr(z, s.model) == 1;
      Assignment m = s.model;
      Sat r = solve(s.pc, cur ? mkNot(z) : z, &m);
      if (r == Sat::unknown) incomplete(s, "solver unknown (strlen)");
      if (r == Sat::yes)
      {
         State* f = forkState(s);
         f->model = std::move(m);
         addc(*f, cur ? mkNot(z) : z);
         work.push_back(f);
      }
      addc(s, cur ? z : mkNot(z));
      if (cur) { ret(s, I, cv(i - l.off)); return St::next; }
   }
}

static uint32_t newInput(State& s, const std::string& name, unsigned w)
{
   // symbols are shared between paths: keyed by position, name and width
   static std::map<std::tuple<size_t, std::string, unsigned>, uint32_t> table;
   auto key = std::make_tuple(s.inputs.size(), name, w);
   auto it = table.find(key);
   uint32_t idx;
   if (it == table.end()) { idx = g_symbols.size(); g_symbols.push_back({name + "#" + std::to_string(s.inputs.size()), w}); table[key] = idx; }
   else idx = it->second;
   s.inputs.push_back({name, idx, w});
   return idx;
}

static St n_sym(State& s, DInst& I)
{
   CONC(bits, 0) CONC(np, 1)
   std::string name = cstr(s, np);
   uint32_t i = newInput(s, name, bits);
   s.model.set(i, 0);
   ret(s, I, fromE(mkZExt(mkSym(i, bits), 64)));
   return St::next;
}
static St n_range(State& s, DInst& I)
{
   CONC(lo, 0) CONC(hi, 1) CONC(np, 2)
   std::string name = cstr(s, np);
   uint32_t i = newInput(s, name, 64);
   Expr* e = mkSym(i, 64);
   s.model.set(i, lo);
   if (lo == hi) { addc(s, mkEq(e, mkConst(lo, 64))); ret(s, I, cv(lo)); return St::next; }
   addc(s, mkBin(K::Sle, mkConst(lo, 64), e));
   addc(s, mkBin(K::Sle, e, mkConst(hi, 64)));
   ret(s, I, fromE(e));
   return St::next;
}
static St n_choose(State& s, DInst& I)
{
   CONC(n, 0) CONC(np, 1)
   std::string name = cstr(s, np);
   if (!n) { incomplete(s, "choose of nothing"); return St::dead; }
   uint32_t i = newInput(s, name, 32);
   Expr* e = mkSym(i, 32);
   for (uint64_t k = n; k-- > 1;)
   {
      State* f = forkState(s);
      f->model.set(i, k);
      addc(*f, mkEq(e, mkConst(k, 32)));
      if (I.dst >= 0) setv(*f, f->frames.back(), I.dst, cv(k));
      finishCall(*f, I);
      work.push_back(f);
   }
   s.model.set(i, 0);
   addc(s, mkEq(e, mkConst(0, 32)));
   ret(s, I, cv(0));
   return St::next;
}
static St n_symbytes(State& s, DInst& I)
{
   CONC(p, 0) CONC(n, 1) CONC(np, 2)
   std::string name = cstr(s, np);
   if (!n) return St::next;
   Loc l;
   St st = locate(s, p, n, true, l, "vex_bytes"); if (st != St::next) return st;
   Obj* o = objGetW(s, l.id);
   for (uint64_t k = 0; k < n; ++k)
   {
      uint32_t i = newInput(s, name + "[" + std::to_string(k) + "]", 8);
      s.model.set(i, 0);
      writeObj(o, l.off + k, 8, fromE(mkSym(i, 8)));
   }
   return St::next;
}
// adds the condition to the path; returns false when the path ends here
static bool assume(State& s, Expr* c)
{
   c = known(s, c);
   if (isTrue(c)) return true;
   if (isFalse(c)) return false;
   if (evalExpr(c, s.model) != 1)
   {
      Assignment m = s.model;
      Sat r = solve(s.pc, c, &m);
      if (r == Sat::unknown) { incomplete(s, "solver unknown (assume)"); return false; }
      if (r == Sat::no) return false;
      s.model = std::move(m);
   }
   addc(s, c);
   return true;
}
static Expr* nonzero(const V& v, unsigned w) { return v.e ? mkNot(mkEq(v.e, mkConst(0, w))) : mkConst(v.c != 0, 1); }

static St n_assume(State& s, DInst& I)
{
   if (!assume(s, nonzero(arg(s, I, 0), I.argw[0]))) { ++r_assumed; return St::dead; }
   return St::next;
}
static St n_assert(State& s, DInst& I)
{
   CONC(np, 1)
   std::string name = cstr(s, np);
   ++r_asserts[name];
   Expr* c = known(s, nonzero(arg(s, I, 0), I.argw[0]));
   if (isTrue(c)) return St::next;
   if (isFalse(c)) { recordViolation(s, "assert", name, s.model); ++r_errors; return St::dead; }
   ++r_assertq[name];
   Assignment m = s.model;
   Sat r = solve(s.pc, mkNot(c), &m);
   if (r == Sat::unknown) incomplete(s, "solver unknown (assertion " + name + ")");
   if (r == Sat::yes)
   {
      recordViolation(s, "assert", name, m);
      ++r_errors;
      if (!assume(s, c)) return St::dead;
      return St::next;
   }
   addc(s, c);
   return St::next;
}
static St n_cover(State& s, DInst& I) { CONC(np, 0) ++r_covers[cstr(s, np)]; return St::next; }
static St n_observe(State& s, DInst& I) { CONC(np, 0) s.observes.push_back({cstr(s, np), simp(s, arg(s, I, 1))}); return St::next; }
static St n_concretize(State& s, DInst& I) { CONC(v, 0) ret(s, I, cv(v)); return St::next; }
static St n_exit(State& s, DInst& I) { pathDone(s); return St::dead; }
static St n_infeasible(State& s, DInst& I) { ++r_assumed; return St::dead; }
static St n_print(State& s, DInst& I)
{
   CONC(np, 0)
   V v = simp(s, arg(s, I, 1));
   fprintf(stderr, "[print] %s: %s\n", cstr(s, np).c_str(), v.e ? exprStr(v.e, 8).c_str() : hex((uint64_t)v.c).c_str());
   return St::next;
}
static St n_issym(State& s, DInst& I) { V v = simp(s, arg(s, I, 0)); ret(s, I, cv(v.e != nullptr)); return St::next; }
static St n_abort(State& s, DInst& I)
{
   recordViolation(s, "abort", I.callee ? demangled(I.callee->getName().str()) : "abort", s.model);
   ++r_errors;
   return St::dead;
}
static St n_unmodelled(State& s, DInst& I) { CONC(np, 0) incomplete(s, "unmodelled: " + cstr(s, np)); return St::dead; }
static St n_raise(State& s, DInst& I) { CONC(h, 0) return unwind(s, h); }
static St n_upcast(State& s, DInst& I)
{
   CONC(from, 0) CONC(to, 1) CONC(obj, 2)
   uint64_t adj = 0;
   ret(s, I, cv(upcast(s, from, to, obj, adj) ? adj : 0));
   return St::next;
}
static St n_nop(State& s, DInst& I) { ret(s, I, cv(0)); return St::next; }

static void registerNatives()
{
   natives["malloc"] = n_malloc; natives["calloc"] = n_calloc; natives["free"] = n_free;
   natives["aligned_alloc"] = n_alignedalloc; natives["malloc_usable_size"] = n_usable;
   for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) natives[n] = n_new;
   for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) natives[n] = n_newnt;
   for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) natives[n] = n_free;
   natives["memcpy"] = natives["memmove"] = n_memcpy;
   natives["memset"] = n_memset;
   natives["memcmp"] = natives["bcmp"] = n_memcmp;
   natives["strlen"] = n_strlen;
   natives["vex_sym"] = n_sym; natives["vex_range"] = n_range; natives["vex_choose"] = n_choose; natives["vex_bytes"] = n_symbytes;
   natives["vex_assume_"] = n_assume; natives["vex_assert_"] = n_assert; natives["vex_cover"] = n_cover; natives["vex_observe_"] = n_observe;
   natives["vex_concretize"] = n_concretize; natives["vex_exit"] = n_exit; natives["vex_discard"] = n_infeasible; natives["vex_print"] = n_print;
   natives["vex_is_symbolic"] = n_issym; natives["vex_raise"] = n_raise; natives["vex_upcast"] = n_upcast; natives["vex_unmodelled"] = n_unmodelled;
   natives["abort"] = natives["_ZSt9terminatev"] = n_abort;
   natives["exit"] = natives["_exit"] = n_abort;
   natives["__cxa_pure_virtual"] = n_abort;
   natives["__stack_chk_fail"] = natives["__assert_fail"] = n_abort;
   natives["__cxa_atexit"] = natives["__cxa_thread_atexit"] = natives["__cxa_thread_atexit_impl"] = natives["atexit"] = n_nop;
   for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock"}) natives[n] = n_nop;
}

// ---------------------------------------------------------------- intrinsics and arithmetic

static V vbin(K k, unsigned w, const V& a, const V& b)
{
   if (!a.e && !b.e) return cv(foldBin(k, w, a.c, b.c));
   return fromE(mkBin(k, toE(a, w), toE(b, w)));
}

static St intrinsic(State& s, DInst& I, Intrinsic::ID id)
{
   Frame& f = s.frames.back();
   unsigned w = I.w;
   auto A = [&](unsigned i) -> V { return getv(s, f, I.args[i]); };
   switch (id)
   {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return n_memcpy(s, I);
      case Intrinsic::memset: case Intrinsic::memset_inline: return n_memset(s, I);
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
         ret(s, I, A(0)); return St::next;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      {
         w = I.argw[0];
         V a = A(0), b = A(1);
         K k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K::Sub : K::Mul;
         bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
         unsigned ww = std::min(128u, k == K::Mul ? w * 2 : w + 1);
         auto ext = [&](const V& v) { return v.e ? fromE(sg ? mkSExt(v.e, ww) : mkZExt(v.e, ww)) : cv(sg ? (u128)sext128(v.c, w) & maskw(ww) : v.c); };
         V wide = vbin(k, ww, ext(a), ext(b));
         V res = vbin(k, w, a, b);
         V back = ext(res);
         V ok = vbin(K::Eq, ww, wide, back);
         V ov = ok.e ? fromE(mkNot(ok.e)) : cv(ok.c ^ 1);
         setv(s, f, I.dst, res); setv(s, f, I.dst + 1, ov);
         return St::next;
      }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
         for (unsigned i = 0; i < I.n; ++i)
         {
            w = I.argw[0];
            V a = getv(s, f, I.args[i]), b = getv(s, f, I.args[I.n + i]);
            K k = (id == Intrinsic::umax || id == Intrinsic::umin) ? K::Ult : K::Slt;
            V lt = vbin(k, w, a, b);
            bool max = id == Intrinsic::umax || id == Intrinsic::smax;
            V r;
            if (!lt.e) r = (lt.c != 0) == max ? b : a;
            else r = fromE(mkIte(lt.e, toE(max ? b : a, w), toE(max ? a : b, w)));
            setv(s, f, I.dst + i, r);
         }
         return St::next;
      case Intrinsic::abs:
      {
         V a = A(0);
         V neg = vbin(K::Slt, w, a, cv(0));
         V m = vbin(K::Sub, w, cv(0), a);
         ret(s, I, !neg.e ? (neg.c ? m : a) : fromE(mkIte(neg.e, toE(m, w), toE(a, w))));
         return St::next;
      }
      case Intrinsic::bswap:
      {
         V a = A(0);
         unsigned n = w / 8;
         if (!a.e) { u128 r = 0; for (unsigned i = 0; i < n; ++i) r = (r << 8) | ((a.c >> (8 * i)) & 0xff); ret(s, I, cv(r)); return St::next; }
         Expr* e = mkExtract(a.e, w - 8, 8);
         for (unsigned i = 1; i < n; ++i) e = mkConcat(mkExtract(a.e, w - 8 - 8 * i, 8), e);
         ret(s, I, fromE(e));
         return St::next;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
      {
         V a = simp(s, A(0));
         if (a.e)
         {
            // build bitwise
            Expr* r = mkConst(id == Intrinsic::ctpop ? 0 : w, w);
            for (unsigned i = 0; i < w; ++i)
            {
               if (id == Intrinsic::ctpop) r = mkBin(K::Add, r, mkZExt(mkExtract(a.e, i, 1), w));
               else if (id == Intrinsic::ctlz) r = mkIte(mkExtract(a.e, i, 1), mkConst(w - 1 - i, w), r);
               else r = mkIte(mkExtract(a.e, w - 1 - i, 1), mkConst(w - 1 - i, w), r);
            }
            ret(s, I, fromE(r));
            return St::next;
         }
         unsigned n = 0;
         if (id == Intrinsic::ctpop) { for (unsigned i = 0; i < w; ++i) n += (unsigned)((a.c >> i) & 1); }
         else if (id == Intrinsic::ctlz) { while (n < w && !((a.c >> (w - 1 - n)) & 1)) ++n; }
         else { while (n < w && !((a.c >> n) & 1)) ++n; }
         ret(s, I, cv(n));
         return St::next;
      }
      case Intrinsic::fshl: case Intrinsic::fshr:
      {
         V a = A(0), b = A(1), c = simp(s, A(2));
         if (c.e) { u128 x; St st = concretize(s, c, w, x); if (st != St::next) return st; c = cv(x); }
         unsigned sh = (unsigned)(c.c % w);
         V r;
         if (sh == 0) r = id == Intrinsic::fshl ? a : b;
         else
         {
            unsigned l = id == Intrinsic::fshl ? sh : w - sh;
            r = vbin(K::Or, w, vbin(K::Shl, w, a, cv(l)), vbin(K::LShr, w, b, cv(w - l)));
         }
         ret(s, I, r);
         return St::next;
      }
      case Intrinsic::usub_sat: { V lt = vbin(K::Ult, w, A(0), A(1)); V d = vbin(K::Sub, w, A(0), A(1)); ret(s, I, !lt.e ? (lt.c ? cv(0) : d) : fromE(mkIte(lt.e, mkConst(0, w), toE(d, w)))); return St::next; }
      case Intrinsic::uadd_sat: { V d = vbin(K::Add, w, A(0), A(1)); V lt = vbin(K::Ult, w, d, A(0)); ret(s, I, !lt.e ? (lt.c ? cv(maskw(w)) : d) : fromE(mkIte(lt.e, mkConst(maskw(w), w), toE(d, w)))); return St::next; }
      case Intrinsic::eh_typeid_for: { V a = A(0); ret(s, I, cv((uint64_t)a.c >> OBJ_SHIFT)); return St::next; }
      case Intrinsic::objectsize: ret(s, I, cv(maskw(w))); return St::next;
      case Intrinsic::is_constant: ret(s, I, cv(0)); return St::next;
      case Intrinsic::stacksave: ret(s, I, cv(0)); return St::next;
      case Intrinsic::stackrestore: return St::next;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
         recordViolation(s, "abort", "trap", s.model); ++r_errors; return St::dead;
      case Intrinsic::vastart:
      {
         // our own va_list layout: { handle }; read through vexrt via va_arg lowered code is not supported: build the SysV structure
         CONC(p, 0)
         Frame& fr = s.frames.back();
         uint64_t n = fr.varargs.size();
         uint64_t area = allocStack(s, std::max<uint64_t>(8, n * 8));
         for (uint64_t i = 0; i < n; ++i) store(s, cv(area + i * 8), 64, fr.varargs[i].e ? fromE(mkZExt(fr.varargs[i].e, 64)) : fr.varargs[i]);
         store(s, cv(p), 32, cv(48)); store(s, cv(p + 4), 32, cv(176)); store(s, cv(p + 8), 64, cv(area)); store(s, cv(p + 16), 64, cv(0));
         return St::next;
      }
      case Intrinsic::vaend: return St::next;
      case Intrinsic::vacopy: { CONC(d, 0) CONC(a, 1) return copyMem(s, d, a, 24); }
      case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint:
      case Intrinsic::copysign: case Intrinsic::fmuladd: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::llround: case Intrinsic::lround:
      {
         V a = simp(s, A(0));
         V b = I.args.size() > 1 ? simp(s, A(1)) : cv(0), c = I.args.size() > 2 ? simp(s, A(2)) : cv(0);
         if (a.e || b.e || c.e) { incomplete(s, "symbolic floating point"); return St::dead; }
         auto get = [&](const V& v) -> double { uint64_t x = (uint64_t)v.c; if (I.argw[0] == 32) { float q; uint32_t y = x; memcpy(&q, &y, 4); return q; } double q; memcpy(&q, &x, 8); return q; };
         double x = get(a), r = 0;
         switch (id)
         {
            case Intrinsic::fabs: r = fabs(x); break; case Intrinsic::floor: r = floor(x); break; case Intrinsic::ceil: r = ceil(x); break;
            case Intrinsic::round: r = round(x); break; case Intrinsic::trunc: r = trunc(x); break; case Intrinsic::sqrt: r = sqrt(x); break;
            case Intrinsic::rint: case Intrinsic::nearbyint: r = rint(x); break;
            case Intrinsic::copysign: r = copysign(x, get(b)); break; case Intrinsic::fmuladd: r = x * get(b) + get(c); break;
            case Intrinsic::minnum: r = fmin(x, get(b)); break; case Intrinsic::maxnum: r = fmax(x, get(b)); break; case Intrinsic::pow: r = pow(x, get(b)); break;
            case Intrinsic::exp: r = exp(x); break; case Intrinsic::log: r = log(x); break;
            case Intrinsic::llround: case Intrinsic::lround: ret(s, I, cv((u128)llround(x) & maskw(w))); return St::next;
            default: break;
         }
         if (w == 32) { float q = r; uint32_t y; memcpy(&y, &q, 4); ret(s, I, cv(y)); }
         else { uint64_t y; memcpy(&y, &r, 8); ret(s, I, cv(y)); }
         return St::next;
      }
      case Intrinsic::load_relative:
      {
         CONC(p, 0) CONC(o, 1)
         V v; St st = load(s, cv(p + o), 32, v); if (st != St::next) return st;
         ret(s, I, cv(p + (uint64_t)(int64_t)(int32_t)v.c)); return St::next;
      }
      case Intrinsic::ptrmask: ret(s, I, vbin(K::And, 64, A(0), A(1))); return St::next;
      default:
         incomplete(s, "unmodelled intrinsic " + I.callee->getName().str());
         return St::dead;
   }
}

// concrete floating point
static long double fpget(const V& v, uint8_t t)
{
   if (t == 1) { uint32_t y = (uint32_t)v.c; float q; memcpy(&q, &y, 4); return q; }
   if (t == 2) { uint64_t y = (uint64_t)v.c; double q; memcpy(&q, &y, 8); return q; }
   long double q = 0; memcpy(&q, &v.c, 10); return q;
}
static V fpput(long double x, uint8_t t)
{
   if (t == 1) { float q = (float)x; uint32_t y; memcpy(&y, &q, 4); return cv(y); }
   if (t == 2) { double q = (double)x; uint64_t y; memcpy(&y, &q, 8); return cv(y); }
   u128 v = 0; memcpy(&v, &x, 10); return cv(v);
}

static Expr* predExpr(unsigned p, Expr* a, Expr* b)
{
   switch (p)
   {
      case CmpInst::ICMP_EQ: return mkBin(K::Eq, a, b);
      case CmpInst::ICMP_NE: return mkNot(mkBin(K::Eq, a, b));
      case CmpInst::ICMP_ULT: return mkBin(K::Ult, a, b);
      case CmpInst::ICMP_UGT: return mkBin(K::Ult, b, a);
      case CmpInst::ICMP_ULE: return mkBin(K::Ule, a, b);
      case CmpInst::ICMP_UGE: return mkBin(K::Ule, b, a);
      case CmpInst::ICMP_SLT: return mkBin(K::Slt, a, b);
      case CmpInst::ICMP_SGT: return mkBin(K::Slt, b, a);
      case CmpInst::ICMP_SLE: return mkBin(K::Sle, a, b);
      default: return mkBin(K::Sle, b, a);
   }
}
static bool predConc(unsigned p, unsigned w, u128 a, u128 b)
{
   switch (p)
   {
      case CmpInst::ICMP_EQ: return a == b;
      case CmpInst::ICMP_NE: return a != b;
      case CmpInst::ICMP_ULT: return a < b;
      case CmpInst::ICMP_UGT: return a > b;
      case CmpInst::ICMP_ULE: return a <= b;
      case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_SLT: return sext128(a, w) < sext128(b, w);
      case CmpInst::ICMP_SGT: return sext128(a, w) > sext128(b, w);
      case CmpInst::ICMP_SLE: return sext128(a, w) <= sext128(b, w);
      default: return sext128(a, w) >= sext128(b, w);
   }
}

// ---------------------------------------------------------------- step

static St step(State& s)
{
   Frame& f = s.frames.back();
   DInst& I = f.f->code[f.pc];
   ++s.instrs; ++r_instrs;
   switch (I.op)
   {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
         for (unsigned i = 0; i < I.n; ++i)
         {
            const V& a = getv(s, f, I.a, i); const V& b = getv(s, f, I.b, i);
            if (!a.e && !b.e)
            {
               if ((I.op == Instruction::UDiv || I.op == Instruction::SDiv || I.op == Instruction::URem || I.op == Instruction::SRem) && b.c == 0)
               { recordViolation(s, "arithmetic", "division by zero", s.model); ++r_errors; return St::dead; }
               setv(s, f, I.dst + i, cv(foldBin(I.k, I.w, a.c, b.c)));
            }
            else
            {
               if ((I.op == Instruction::UDiv || I.op == Instruction::SDiv || I.op == Instruction::URem || I.op == Instruction::SRem) && b.e)
               {
                  Expr* z = mkEq(b.e, mkConst(0, I.w));
                  Assignment m = s.model;
                  if (solve(s.pc, z, &m) == Sat::yes) { recordViolation(s, "arithmetic", "division by zero", m); ++r_errors; if (!assume(s, mkNot(z))) return St::dead; }
               }
               setv(s, f, I.dst + i, fromE(mkBin(I.k, toE(a, I.w), toE(b, I.w))));
            }
         }
         break;
      case Instruction::ICmp:
         for (unsigned i = 0; i < I.n; ++i)
         {
            const V& a = getv(s, f, I.a, i); const V& b = getv(s, f, I.b, i);
            if (!a.e && !b.e) setv(s, f, I.dst + i, cv(predConc(I.pred, I.w2, a.c, b.c)));
            else setv(s, f, I.dst + i, fromE(predExpr(I.pred, toE(a, I.w2), toE(b, I.w2))));
         }
         break;
      case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Freeze: case Instruction::AddrSpaceCast:
         for (unsigned i = 0; i < I.n; ++i)
         {
            const V& a = getv(s, f, I.a, i);
            if (I.op == Instruction::Freeze) setv(s, f, I.dst + i, a);
            else if (!a.e) setv(s, f, I.dst + i, cv(a.c & maskw(I.w)));
            else if (I.w < I.w2) setv(s, f, I.dst + i, fromE(mkExtract(a.e, 0, I.w)));
            else setv(s, f, I.dst + i, fromE(mkZExt(a.e, I.w)));
         }
         break;
      case Instruction::SExt:
         for (unsigned i = 0; i < I.n; ++i)
         {
            const V& a = getv(s, f, I.a, i);
            if (!a.e) setv(s, f, I.dst + i, cv((u128)sext128(a.c, I.w2) & maskw(I.w)));
            else setv(s, f, I.dst + i, fromE(mkSExt(a.e, I.w)));
         }
         break;
      case Instruction::BitCast:
      {
         if (I.leaves.size() == I.n) { for (unsigned i = 0; i < I.n; ++i) setv(s, f, I.dst + i, getv(s, f, I.a, i)); break; }
         // regroup bits through a concatenation
         unsigned total = I.leaves.size() * I.w2;
         if (total > 128)
         {
            if (I.w == 8 || I.w2 == 8 || true) { incomplete(s, "wide bitcast"); return St::dead; }
         }
         Expr* e = nullptr;
         for (size_t i = 0; i < I.leaves.size(); ++i) { Expr* x = toE(getv(s, f, I.a, i), I.w2); e = e ? mkConcat(x, e) : x; }
         for (unsigned i = 0; i < I.n; ++i) setv(s, f, I.dst + i, fromE(mkExtract(e, i * I.w, I.w)));
         break;
      }
      case Instruction::Select:
      {
         for (unsigned i = 0; i < I.n; ++i)
         {
            V c = getv(s, f, I.a, I.w2 > 1 ? i : 0);
            if (c.e) c = simp(s, c);
            const V& a = getv(s, f, I.b, i); const V& b = getv(s, f, I.c, i);
            if (!c.e) setv(s, f, I.dst + i, c.c ? a : b);
            else
            {
               unsigned w = I.leaves[i].w;
               setv(s, f, I.dst + i, fromE(mkIte(c.e, toE(a, w), toE(b, w))));
            }
         }
         break;
      }
      case Instruction::Alloca:
      {
         V n = simp(s, getv(s, f, I.a));
         u128 c = n.c;
         if (n.e) { St st = concretize(s, n, n.e->w, c); if (st != St::next) return st; }
         uint64_t a = allocStack(s, (uint64_t)c * I.off);
         setv(s, s.frames.back(), I.dst, cv(a));
         break;
      }
      case Instruction::Load:
      {
         if (I.leaves.size() == 1)
         {
            const V& a = getv(s, f, I.a);
            if (!a.e)
            {
               Loc l;
               St st = locate(s, (uint64_t)a.c, (I.leaves[0].w + 7) / 8, false, l, "load");
               if (st != St::next) return st;
               setv(s, f, I.dst, readObj(l.o, l.off, I.leaves[0].w));
               break;
            }
         }
         V base = getv(s, f, I.a);
         for (size_t i = 0; i < I.leaves.size(); ++i)
         {
            V out;
            V a = I.leaves[i].off ? vbin(K::Add, 64, base, cv(I.leaves[i].off)) : base;
            St st = load(s, a, I.leaves[i].w, out);
            if (st != St::next) return st;
            setv(s, f, I.dst + i, out);
         }
         break;
      }
      case Instruction::Store:
      {
         V base = getv(s, f, I.a);
         for (size_t i = 0; i < I.leaves.size(); ++i)
         {
            V a = I.leaves[i].off ? vbin(K::Add, 64, base, cv(I.leaves[i].off)) : base;
            St st = store(s, a, I.leaves[i].w, getv(s, f, I.b, i));
            if (st != St::next) return st;
         }
         break;
      }
      case Instruction::GetElementPtr:
      {
         V a = getv(s, f, I.a);
         if (I.off) a = vbin(K::Add, 64, a, cv((u128)(__int128)I.off & maskw(64)));
         for (auto& g : I.gep)
         {
            V x = getv(s, f, g.first);
            unsigned w = g.second.second;
            if (w < 64) x = x.e ? fromE(mkSExt(x.e, 64)) : cv((u128)sext128(x.c, w) & maskw(64));
            if (g.second.first != 1) x = vbin(K::Mul, 64, x, cv((u128)(__int128)g.second.first & maskw(64)));
            a = vbin(K::Add, 64, a, x);
         }
         setv(s, f, I.dst, a);
         break;
      }
      case Instruction::ExtractValue:
         for (unsigned i = 0; i < I.n; ++i) setv(s, f, I.dst + i, getv(s, f, I.a, I.off + i));
         break;
      case Instruction::InsertValue:
         for (unsigned i = 0; i < I.n; ++i) setv(s, f, I.dst + i, getv(s, f, I.a, i));
         for (unsigned i = 0; i < I.w2; ++i) setv(s, f, I.dst + I.off + i, getv(s, f, I.b, i));
         break;
      case Instruction::ExtractElement:
      {
         u128 ix; St st = concretize(s, getv(s, f, I.b), 64, ix); if (st != St::next) return st;
         setv(s, s.frames.back(), I.dst, getv(s, s.frames.back(), I.a, (unsigned)ix));
         break;
      }
      case Instruction::InsertElement:
      {
         u128 ix; St st = concretize(s, getv(s, f, I.c), 64, ix); if (st != St::next) return st;
         for (unsigned i = 0; i < I.n; ++i) setv(s, f, I.dst + i, i == ix ? getv(s, f, I.b) : getv(s, f, I.a, i));
         break;
      }
      case Instruction::ShuffleVector:
      {
         std::vector<V> r;
         for (int m : I.shuf) r.push_back(m < 0 ? cv(0) : m < I.off ? getv(s, f, I.a, m) : getv(s, f, I.b, m - I.off));
         for (size_t i = 0; i < r.size(); ++i) setv(s, f, I.dst + i, r[i]);
         break;
      }
      case Instruction::Br:
      {
         if (!I.w2) { jump(s, I.edges[0]); return St::jumped; }
         V c = getv(s, f, I.a);
         if (c.e) c = simp(s, c);
         if (!c.e) { jump(s, I.edges[c.c ? 0 : 1]); return St::jumped; }
         bool cur = evalExpr(c.e, s.model) == 1;
         Expr* other = cur ? mkNot(c.e) : c.e;
         Assignment m = s.model;
         Sat r = solve(s.pc, other, &m);
         if (r == Sat::unknown) incomplete(s, "solver unknown (branch)");
         if (r == Sat::yes)
         {
            State* n = forkState(s);
            n->model = std::move(m);
            addc(*n, other);
            jump(*n, I.edges[cur ? 1 : 0]);
            work.push_back(n);
            addc(s, cur ? c.e : mkNot(c.e));
            ++s.forks;
         }
         jump(s, I.edges[cur ? 0 : 1]);
         return St::jumped;
      }
      case Instruction::Switch:
      {
         V c = simp(s, getv(s, f, I.a));
         if (!c.e)
         {
            uint32_t e = 0;
            for (auto& k : I.cases) if (k.first == c.c) { e = k.second; break; }
            jump(s, I.edges[e]);
            return St::jumped;
         }
         std::vector<Expr*> conds(I.edges.size(), mkConst(0, 1));
         Expr* def = mkConst(1, 1);
         for (auto& k : I.cases)
         {
            Expr* q = mkEq(c.e, mkConst(k.first, I.w2));
            if (k.second) conds[k.second] = mkBin(K::Or, conds[k.second], q);
            if (k.second) def = mkBin(K::And, def, mkNot(q));
         }
         conds[0] = def;
         int cur = -1;
         for (size_t i = 0; i < conds.size(); ++i) if (evalExpr(conds[i], s.model) == 1) cur = i;
         for (size_t i = 0; i < conds.size(); ++i)
         {
            if ((int)i == cur) continue;
            Assignment m = s.model;
            Sat r = solve(s.pc, conds[i], &m);
            if (r == Sat::unknown) incomplete(s, "solver unknown (switch)");
            if (r != Sat::yes) continue;
            State* n = forkState(s);
            n->model = std::move(m);
            addc(*n, conds[i]);
            jump(*n, I.edges[i]);
            work.push_back(n);
         }
         addc(s, conds[cur]);
         jump(s, I.edges[cur]);
         return St::jumped;
      }
      case Instruction::Call: case Instruction::Invoke:
         return doCall(s, I);
      case Instruction::Ret:
      {
         static thread_local std::vector<V> r;
         r.clear();
         if (I.w2) for (unsigned i = 0; i < I.n; ++i) r.push_back(getv(s, f, I.a, i));
         popFrame(s);
         if (s.frames.empty()) { pathDone(s); return St::dead; }
         Frame& p = s.frames.back();
         DInst& C = p.f->code[p.pc];
         if (C.dst >= 0) for (size_t i = 0; i < r.size() && i < C.n; ++i) setv(s, p, C.dst + i, r[i]);
         finishCall(s, C);
         return St::jumped;
      }
      case Instruction::LandingPad:
      {
         int64_t sel = selectClause(s, I, s.exnptr, true);
         setv(s, f, I.dst, cv(s.exnptr));
         setv(s, f, I.dst + 1, cv((u128)sel & maskw(32)));
         break;
      }
      case Instruction::Resume:
      {
         uint64_t h = (uint64_t)getv(s, f, I.a).c;
         if (s.frames.size() == 1) { recordViolation(s, "terminate", "uncaught exception", s.model); ++r_errors; return St::dead; }
         popFrame(s);
         return unwind(s, h);
      }
      case Instruction::Unreachable:
         recordViolation(s, "abort", "unreachable executed", s.model);
         ++r_errors;
         return St::dead;
      case Instruction::Fence: break;
      case Instruction::AtomicRMW:
      {
         V old; V a = getv(s, f, I.a); V b = getv(s, f, I.b);
         St st = load(s, a, I.w, old); if (st != St::next) return st;
         V nv;
         switch (I.pred)
         {
            case AtomicRMWInst::Xchg: nv = b; break;
            case AtomicRMWInst::Add: nv = vbin(K::Add, I.w, old, b); break;
            case AtomicRMWInst::Sub: nv = vbin(K::Sub, I.w, old, b); break;
            case AtomicRMWInst::And: nv = vbin(K::And, I.w, old, b); break;
            case AtomicRMWInst::Or: nv = vbin(K::Or, I.w, old, b); break;
            case AtomicRMWInst::Xor: nv = vbin(K::Xor, I.w, old, b); break;
            default: incomplete(s, "atomicrmw"); return St::dead;
         }
         st = store(s, a, I.w, nv); if (st != St::next) return st;
         setv(s, s.frames.back(), I.dst, old);
         break;
      }
      case Instruction::AtomicCmpXchg:
      {
         V old; V a = getv(s, f, I.a);
         St st = load(s, a, I.w, old); if (st != St::next) return st;
         V eq = simp(s, vbin(K::Eq, I.w, old, getv(s, f, I.b)));
         V nv = getv(s, f, I.c);
         V res = !eq.e ? (eq.c ? nv : old) : fromE(mkIte(eq.e, toE(nv, I.w), toE(old, I.w)));
         st = store(s, a, I.w, res); if (st != St::next) return st;
         setv(s, f, I.dst, old); setv(s, f, I.dst + 1, eq);
         break;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg:
      {
         for (unsigned i = 0; i < I.n; ++i)
         {
            V a = simp(s, getv(s, f, I.a, i)), b = I.op == Instruction::FNeg ? cv(0) : simp(s, getv(s, f, I.b, i));
            if (a.e || b.e) { incomplete(s, "symbolic floating point"); return St::dead; }
            long double x = fpget(a, I.fp), y = fpget(b, I.fp), r = 0;
            switch (I.op)
            {
               case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break;
               case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodl(x, y); break; default: r = -x;
            }
            if (I.fp == 2)
            {
               double p = (double)x, q = (double)y, t = 0; // avoid double rounding
               switch (I.op) { case Instruction::FAdd: t = p + q; break; case Instruction::FSub: t = p - q; break; case Instruction::FMul: t = p * q; break; case Instruction::FDiv: t = p / q; break; case Instruction::FRem: t = fmod(p, q); break; default: t = -p; }
               r = t;
            }
            setv(s, f, I.dst + i, fpput(r, I.fp));
         }
         break;
      }
      case Instruction::FCmp:
      {
         V a = simp(s, getv(s, f, I.a)), b = simp(s, getv(s, f, I.b));
         if (a.e || b.e) { incomplete(s, "symbolic floating point"); return St::dead; }
         long double x = fpget(a, I.fp2), y = fpget(b, I.fp2);
         bool un = std::isnan(x) || std::isnan(y), r = false;
         switch (I.pred)
         {
            case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
            case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
         }
         setv(s, f, I.dst, cv(r));
         break;
      }
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
      {
         V a = simp(s, getv(s, f, I.a));
         if (a.e) { u128 x; St st = concretize(s, a, a.e->w, x); if (st != St::next) return st; a = cv(x); }
         switch (I.op)
         {
            case Instruction::FPTrunc: case Instruction::FPExt: setv(s, f, I.dst, fpput(fpget(a, I.fp2), I.fp)); break;
            case Instruction::FPToSI: setv(s, f, I.dst, cv((u128)(s128)fpget(a, I.fp2) & maskw(I.w))); break;
            case Instruction::FPToUI: setv(s, f, I.dst, cv((u128)fpget(a, I.fp2) & maskw(I.w))); break;
            case Instruction::SIToFP: setv(s, f, I.dst, I.fp == 2 ? fpput((double)(int64_t)sext128(a.c, I.w2), 2) : fpput((long double)sext128(a.c, I.w2), I.fp)); break;
            default: setv(s, f, I.dst, I.fp == 2 ? fpput((double)(uint64_t)a.c, 2) : fpput((long double)a.c, I.fp)); break;
         }
         break;
      }
      default:
         incomplete(s, std::string("unsupported instruction ") + I.inst->getOpcodeName());
         return St::dead;
   }
   ++s.frames.back().pc;
   return St::next;
}

// ---------------------------------------------------------------- exploration

static void writeResult();

static std::string jstr(const std::string& x)
{
   std::string r = "\"";
   for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
   return r + "\"";
}
static std::string ju(u128 v) { char b[48]; if (v >> 64) snprintf(b, sizeof b, "\"0x%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }

static std::vector<pid_t> g_children;

static void trySplit()
{
   if (work.size() < 1 || opt_jobs <= 1) return;
   int a = g_shared->active.load();
   while (a < (int)opt_jobs)
   {
      if (!g_shared->active.compare_exchange_strong(a, a + 1)) continue;
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p < 0) { --g_shared->active; return; }
      // split: even positions to the child, odd stay (older states are at the front)
      std::vector<State*> mine, theirs;
      if (work.size() == 1) theirs = work;
      else for (size_t i = 0; i < work.size(); ++i) (i % 2 ? mine : theirs).push_back(work[i]);
      if (p == 0)
      {
         // reset statistics
         ++g_shared->procs;
         g_children.clear();
         r_viol.clear(); r_asserts.clear(); r_covers.clear(); r_incomplete.clear(); r_assertq.clear(); r_samples.clear();
         r_paths = r_assumed = r_errors = r_forks = r_instrs = 0; r_states = 0;
         g_solver = SolverStats{};
         for (auto& d : dfuncs) d.second->calls = 0;
         work = theirs;
         throw 1; // restart the exploration loop in the child
      }
      g_children.push_back(p);
      work = mine;
      return;
   }
}

static void explore()
{
   uint64_t tick = 0;
   double lastSplit = now();
   State* cur = nullptr;
   for (;;)
   {
      try
      {
         while (!work.empty())
         {
            if (g_shared->stop) break;
            cur = work.back();
            work.pop_back();
            State& s = *cur;
            for (;;)
            {
               St st = step(s);
               if (st == St::dead) break;
               if ((++tick & 0x3fff) == 0)
               {
                  double t = now();
                  if (g_shared->stop) break;
                  if (t - g_start > opt_timeout) { incomplete(s, "time limit"); g_shared->stop = 1; break; }
                  if (s.instrs > opt_maxinstr) { incomplete(s, "instruction limit on a path"); break; }
                  if (t - lastSplit > 0.2 && work.size() >= 2)
                  {
                     lastSplit = t;
                     if (g_shared->active.load() < (int)opt_jobs)
                     {
                        work.push_back(cur); // make it part of the divisible work
                        cur = nullptr;
                        trySplit();
                        if (work.empty()) goto next;
                        cur = work.back(); work.pop_back();
                        goto resume;
                     }
                  }
               }
               continue;
            resume:
               // continue with whatever is on top
               work.push_back(cur); cur = nullptr;
               goto next;
            }
            delete cur;
            cur = nullptr;
         next:;
         }
         return;
      }
      catch (int)
      {
         lastSplit = now();
         continue;
      }
   }
}

static void writeResult()
{
   std::string path = opt_out + "/res." + std::to_string(getpid()) + ".json";
   std::ofstream o(path);
   o << "{\"paths\":" << r_paths << ",\"assumed\":" << r_assumed << ",\"errors\":" << r_errors << ",\"forks\":" << r_forks << ",\"states\":" << r_states
     << ",\"instrs\":" << r_instrs << ",\"maxdepth\":" << r_maxdepth << ",\"queries\":" << g_solver.queries << ",\"z3\":" << g_solver.z3calls << ",\"cachehits\":" << g_solver.cachehits
     << ",\"unknown\":" << g_solver.unknown << ",\"solver_s\":" << g_solver.seconds << ",\"max_query_s\":" << g_solver.maxsec << ",\"exprs\":" << g_expr_count;
   auto dumpmap = [&](const char* n, std::map<std::string, uint64_t>& m)
   {
      o << ",\"" << n << "\":{";
      bool first = true;
      for (auto& p : m) { if (!first) o << ","; first = false; o << jstr(p.first) << ":" << p.second; }
      o << "}";
   };
   dumpmap("asserts", r_asserts); dumpmap("assertq", r_assertq); dumpmap("covers", r_covers); dumpmap("incomplete", r_incomplete);
   std::map<std::string, uint64_t> fm;
   for (auto& d : dfuncs) if (d.second->calls) fm[d.second->name] += d.second->calls;
   dumpmap("functions", fm);
   o << ",\"violations\":[";
   for (size_t i = 0; i < r_viol.size(); ++i)
   {
      auto& v = r_viol[i];
      if (i) o << ",";
      o << "{\"kind\":" << jstr(v.kind) << ",\"name\":" << jstr(v.name) << ",\"where\":" << jstr(v.where) << ",\"inputs\":[";
      for (size_t k = 0; k < v.inputs.size(); ++k) o << (k ? "," : "") << "[" << jstr(v.inputs[k].first) << "," << v.w[k] << "," << ju(v.inputs[k].second) << "]";
      o << "]}";
   }
   o << "],\"samples\":[";
   for (size_t i = 0; i < r_samples.size(); ++i)
   {
      auto& v = r_samples[i];
      if (i) o << ",";
      o << "{\"inputs\":[";
      for (size_t k = 0; k < v.inputs.size(); ++k) o << (k ? "," : "") << "[" << jstr(v.inputs[k].first) << "," << v.w[k] << "," << ju(v.inputs[k].second) << "]";
      o << "],\"obs\":[";
      for (size_t k = 0; k < v.obs.size(); ++k) o << (k ? "," : "") << "[" << jstr(v.obs[k].first) << "," << ju(v.obs[k].second) << "]";
      o << "]}";
   }
   o << "]}\n";
}

int runPrep(int argc, char** argv);

int main(int argc, char** argv)
{
   if (argc > 1 && std::string(argv[1]) == "prep") return runPrep(argc, argv);
   if (argc < 3) { fprintf(stderr, "usage: vex run module.bc --entry name ...\n"); return 2; }
   std::string file = argv[2];
   for (int i = 3; i < argc; ++i)
   {
      std::string a = argv[i];
      auto val = [&] { return std::string(argv[++i]); };
      if (a == "--entry") opt_entry = val();
      else if (a == "--jobs") opt_jobs = std::stoul(val());
      else if (a == "--timeout") opt_timeout = std::stod(val());
      else if (a == "--out") opt_out = val();
      else if (a == "--samples") opt_samples = std::stoul(val());
      else if (a == "--maxviol") opt_maxviol = std::stoul(val());
      else if (a == "--maxinstr") opt_maxinstr = std::stoull(val());
      else if (a == "--seed") opt_seed = std::stoull(val());
      else if (a == "--query-timeout") g_solver_timeout_ms = std::stoul(val());
      else if (a == "--enum") opt_enum = std::stoul(val());
      else if (a == "--dump") g_dump_dir = val();
      else if (a == "-v") opt_verbose = true;
      else if (a == "--known") { std::string kd = val(), n = val(), w = val(); g_known.push_back({kd, n, w}); }
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
   }
   struct rlimit rl; rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; getrlimit(RLIMIT_STACK, &rl);
   LLVMContext ctx;
   SMDiagnostic err;
   auto mod = parseIRFile(file, err, ctx);
   if (!mod) { err.print("vex", errs()); return 2; }
   M = mod.get();
   DL = &M->getDataLayout();
   registerNatives();
   g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   g_shared->active = 1; g_shared->stop = 0; g_shared->viols = 0; g_shared->procs = 1;
   g_freed = new Obj; g_freed->rc = 1; g_freed->kind = 4;

   State* s0 = new State;
   uint32_t id = 1;
   fn_by_id.resize(1, nullptr);
   for (auto& f : *M)
   {
      if (f.isIntrinsic()) continue;
      if (f.isDeclaration() && f.hasExternalWeakLinkage() && !nativeFor(f.getName().str())) continue; // address 0
      gid[&f] = id;
      fn_by_id.push_back(dfunc(&f));
      Obj* o = new Obj; o->kind = 3; o->size = 1; o->ro = true; o->data.resize(1);
      s0->mem.set(id, o);
      ++id;
   }
   for (auto& g : M->globals())
   {
      if (g.isDeclaration() && g.hasExternalWeakLinkage()) continue;
      gid[&g] = id++;
   }
   auto addrName = [&](const char* n) -> uint64_t { auto g = M->getNamedGlobal(n); return g && gid.count(g) ? addrOf(gid[g]) : 0; };
   for (auto& g : M->globals())
   {
      if (!gid.count(&g)) continue;
      uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 256;
      if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 512);
      Obj* o = new Obj; o->size = sz; o->data.assign(sz, 0);
      if (g.hasInitializer()) initMem(o, g.getInitializer(), 0);
      o->ro = g.isConstant() && !g.isDeclaration();
      s0->mem.set(gid[&g], o);
   }
   s0->nextHeap = id + 16;
   ti_class = addrName("_ZTVN10__cxxabiv117__class_type_infoE") + 16;
   ti_si = addrName("_ZTVN10__cxxabiv120__si_class_type_infoE") + 16;
   ti_vmi = addrName("_ZTVN10__cxxabiv121__vmi_class_type_infoE") + 16;
   ti_ptr = addrName("_ZTVN10__cxxabiv119__pointer_type_infoE") + 16;

   g_start = now();
   // static constructors, in one concrete state
   std::vector<std::pair<uint64_t, Function*>> ctors;
   if (auto g = M->getNamedGlobal("llvm.global_ctors"))
      if (g->hasInitializer())
         if (auto ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& o : ca->operands())
            {
               auto cs = cast<ConstantStruct>(o);
               if (auto fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
            }
   std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
   Function* entry = M->getFunction(opt_entry);
   if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt_entry.c_str()); return 2; }
   uint64_t savedPaths;
   for (auto& c : ctors)
   {
      if (enterFunction(*s0, dfunc(c.second), {}, nullptr) != St::jumped) return 2;
      savedPaths = r_paths;
      for (;;)
      {
         St st = step(*s0);
         if (st == St::dead) break;
      }
      if (r_paths != savedPaths + 1 || !work.empty()) { fprintf(stderr, "static constructor %s did not complete\n", c.second->getName().str().c_str()); return 3; }
   }
   r_paths = 0; r_samples.clear();
   r_instrs = 0; s0->instrs = 0; s0->inputs.clear(); s0->observes.clear();
   for (auto& d : dfuncs) d.second->calls = 0;
   if (enterFunction(*s0, dfunc(entry), {}, nullptr) != St::jumped) return 2;
   work.push_back(s0);
   pid_t root = getpid();
   explore();
   // wait for processes split off by this one; our slot becomes free meanwhile
   if (!work.empty() && !g_shared->stop) r_incomplete["left over work"]++;
   if (g_shared->stop && g_shared->viols < (int)opt_maxviol && !work.empty()) r_incomplete["stopped"]++;
   writeResult();
   --g_shared->active;
   bool bad = false;
   for (auto c : g_children) { int st = 0; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true; }
   if (getpid() == root)
   {
      fflush(stdout);
      _exit(bad ? 4 : 0);
   }
   _exit(bad ? 4 : 0);
}
