#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <unordered_map>
#include <set>
#include <vector>
#include <string>
#include <cstring>
#include <functional>

struct V
{
   u128 c = 0;
   Expr* e = nullptr;
};

inline V cv(u128 c) { V v; v.c = c; return v; }
inline V fromE(Expr* e) { V v; if (isC(e)) v.c = e->cv; else v.e = e; return v; }
inline Expr* toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory objects

struct Obj
{
   int rc = 0;
   uint32_t size = 0;
   bool ro = false;
   uint8_t kind = 0;          // 0 global, 1 heap, 2 stack, 3 function, 4 freed
   uint32_t alloc = 0;        // allocation flavour (malloc / new / new[])
   uint32_t nsym = 0;
   std::vector<uint8_t> data;
   std::vector<Expr*> sym;    // empty or size entries
};

struct ObjTable
{
   static constexpr unsigned N = 64;
   struct Block { int rc = 0; Obj* o[N] = {}; };
   std::vector<Block*> b;

   ObjTable() = default;
   ObjTable(const ObjTable& r) : b(r.b) { for (auto x : b) if (x) ++x->rc; }
   ObjTable& operator=(const ObjTable&) = delete;
   ~ObjTable() { for (auto x : b) dropBlock(x); }
   static void dropObj(Obj* o) { if (o && --o->rc == 0) delete o; }
   static void dropBlock(Block* x) { if (x && --x->rc == 0) { for (auto o : x->o) dropObj(o); delete x; } }

   Obj* get(uint32_t id) const
   {
      uint32_t i = id / N;
      if (i >= b.size() || !b[i]) return nullptr;
      return b[i]->o[id % N];
   }
   Block* wblock(uint32_t i)
   {
      if (i >= b.size()) b.resize(i + 1, nullptr);
      Block*& x = b[i];
      if (!x) { x = new Block; x->rc = 1; }
      else if (x->rc > 1)
      {
         Block* n = new Block; n->rc = 1;
         for (unsigned k = 0; k < N; ++k) { n->o[k] = x->o[k]; if (n->o[k]) ++n->o[k]->rc; }
         --x->rc;
         x = n;
      }
      return x;
   }
   void set(uint32_t id, Obj* o)
   {
      Block* x = wblock(id / N);
      Obj*& p = x->o[id % N];
      if (o) ++o->rc;
      dropObj(p);
      p = o;
   }
   Obj* getw(uint32_t id)
   {
      Block* x = wblock(id / N);
      Obj*& p = x->o[id % N];
      if (p->rc > 1) { Obj* n = new Obj(*p); n->rc = 1; --p->rc; p = n; }
      return p;
   }
};

// ---------------------------------------------------------------- decoded code

struct Op { int32_t slot = -1; uint32_t cidx = 0; };

struct DFunc;
struct DInst;
struct State;

enum class St { next, jumped, redo, dead };
typedef St (*NativeFn)(State&, DInst&);

struct Leaf { uint32_t w; uint32_t off; uint8_t fp; };

struct Clause { bool isCatch; std::vector<uint64_t> ti; }; // catch: one typeinfo address (0: catch all); filter: list

struct Edge { uint32_t target; std::vector<std::pair<int32_t, Op>> moves; std::vector<uint32_t> mw; };

struct DInst
{
   uint16_t op = 0;
   uint16_t w = 0, w2 = 0;     // result/operand width
   uint16_t n = 1;             // number of leaves
   int32_t dst = -1;
   uint8_t fp = 0, fp2 = 0;
   K k = K::Add;
   uint32_t pred = 0;
   Op a, b, c;
   std::vector<Op> args;       // call args (leaves)
   std::vector<uint32_t> argw; // widths
   std::vector<uint32_t> byval;// byval sizes per argument leaf (0: none)
   std::vector<Leaf> leaves;   // load/store
   std::vector<std::pair<Op, std::pair<int64_t, unsigned>>> gep; // idx, scale, width
   int64_t off = 0;
   std::vector<std::pair<u128, uint32_t>> cases; // value, edge
   std::vector<Edge> edges;
   std::vector<Clause> clauses;
   bool cleanup = false;
   llvm::Function* callee = nullptr;
   DFunc* dcallee = nullptr;
   NativeFn native = nullptr;
   bool resolved = false;
   std::vector<int> shuf;
   const llvm::Instruction* inst = nullptr;
};

struct DFunc
{
   llvm::Function* f = nullptr;
   bool decoded = false;
   uint32_t nslots = 0;
   uint32_t nargs = 0; // leaf slots of fixed args
   bool vararg = false;
   std::vector<DInst> code;
   std::vector<V> consts;
   std::string name;
   uint64_t calls = 0;
   bool hot = false;
};

struct Frame
{
   DFunc* f = nullptr;
   uint32_t pc = 0;
   uint32_t base = 0;
   uint32_t stkmark = 0;
   uint32_t excobj = 0;
   std::vector<V> varargs;
};

struct Input { std::string name; uint32_t sym; unsigned w; };

struct State
{
   ObjTable mem;
   ObjTable stk;
   uint32_t nextHeap = 0;
   uint32_t nextStack = 0;
   std::vector<V> regs;
   std::vector<Frame> frames;
   std::vector<Expr*> pc;
   Assignment model;
   std::vector<std::pair<bool, u128>> known;
   std::vector<Input> inputs;
   std::vector<std::pair<std::string, V>> observes;
   uint64_t exnptr = 0;
   uint64_t pendingTi = 0;
   uint64_t instrs = 0;
   uint32_t forks = 0;
   uint64_t liveHeap = 0;
   std::vector<std::pair<uint32_t, u128>> chooseQueue;
   std::map<uint32_t, uint32_t> enumCount; // per code location
   uint32_t id = 0;
};
