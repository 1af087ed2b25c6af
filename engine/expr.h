// Hash-consed bit-vector expressions with constant folding and local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t
{
   Const, Sym,
   Add, Sub, Mul, UDiv, SDiv, URem, SRem,
   And, Or, Xor, Shl, LShr, AShr,
   Eq, Ult, Ule, Slt, Sle,
   Ite, Concat, Extract, ZExt, SExt
};

struct SymSet
{
   uint32_t id;
   std::vector<uint32_t> v; // sorted
};

struct Expr
{
   K k;
   uint16_t w;     // width in bits, 1..128
   uint32_t id;
   uint32_t aux;   // Extract: low bit; Sym: symbol index
   Expr* a; Expr* b; Expr* c;
   u128 cv;
   const SymSet* ss;
   size_t hash;
};

struct Symbol
{
   std::string name;
   unsigned w;
};

extern std::vector<Symbol> g_symbols;   // indexed by symbol index
extern uint64_t g_expr_count;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 s = (u128)1 << (w - 1); return (s128)((v ^ s) - s); }

Expr* mkConst(u128 v, unsigned w);
Expr* mkSym(uint32_t index, unsigned w);
Expr* mkBin(K k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkNot(Expr* a); // 1 bit
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(K::Eq, a, b); }
u128 foldBin(K k, unsigned w, u128 a, u128 b); // w: operand width

inline bool isC(const Expr* e) { return e->k == K::Const; }
inline bool isTrue(const Expr* e) { return e->k == K::Const && e->cv == 1; }
inline bool isFalse(const Expr* e) { return e->k == K::Const && e->cv == 0; }

const SymSet* ssUnion(const SymSet* a, const SymSet* b);
bool ssIntersects(const SymSet* a, const SymSet* b);

// evaluation under a complete assignment (missing symbols evaluate to 0)
struct Assignment
{
   std::vector<u128> v;
   u128 get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
   void set(uint32_t s, u128 x) { if (s >= v.size()) v.resize(s + 1, 0); v[s] = x; }
};
u128 evalExpr(Expr* e, const Assignment& m);
// substitute known symbol values
Expr* substExpr(Expr* e, const std::vector<std::pair<bool,u128>>& known);
std::string exprStr(Expr* e, int depth = 6);
