#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <cstdlib>
#include <cstdio>

std::vector<Symbol> g_symbols;
uint64_t g_expr_count = 0;

namespace
{
   struct H { size_t operator()(const Expr* e) const { return e->hash; } };
   struct E
   {
      bool operator()(const Expr* x, const Expr* y) const
      {
         return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->cv == y->cv;
      }
   };
   std::unordered_set<Expr*, H, E> table;
   std::deque<Expr> arena;

   struct SSH { size_t operator()(const SymSet* s) const { size_t h = 7; for (auto x : s->v) h = h * 1000003u + x; return h; } };
   struct SSE { bool operator()(const SymSet* a, const SymSet* b) const { return a->v == b->v; } };
   std::unordered_set<SymSet*, SSH, SSE> sstable;
   std::deque<SymSet> ssarena;
   std::unordered_map<uint64_t, const SymSet*> uncache;

   const SymSet* internSS(std::vector<uint32_t> v)
   {
      SymSet t; t.v = std::move(v);
      auto it = sstable.find(&t);
      if (it != sstable.end()) return *it;
      t.id = ssarena.size();
      ssarena.push_back(std::move(t));
      sstable.insert(&ssarena.back());
      return &ssarena.back();
   }
   const SymSet* emptySS() { static const SymSet* s = internSS({}); return s; }

   Expr* intern(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 cv, uint32_t aux)
   {
      Expr t;
      t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.cv = cv; t.aux = aux;
      size_t h = (size_t)k * 0x9E3779B97F4A7C15ull + w * 1315423911u + aux * 2654435761u;
      h ^= (size_t)cv * 0xff51afd7ed558ccdull + (size_t)(cv >> 64);
      auto mix = [&](Expr* e) { if (e) h = (h ^ e->id) * 0x100000001b3ull + (h >> 29); else h = h * 31 + 17; };
      mix(a); mix(b); mix(c);
      t.hash = h;
      auto it = table.find(&t);
      if (it != table.end()) return *it;
      t.id = arena.size();
      if (k == K::Const) t.ss = emptySS();
      else if (k == K::Sym) t.ss = internSS({aux});
      else
      {
         t.ss = a->ss;
         if (b) t.ss = ssUnion(t.ss, b->ss);
         if (c) t.ss = ssUnion(t.ss, c->ss);
      }
      arena.push_back(t);
      table.insert(&arena.back());
      g_expr_count = arena.size();
      return &arena.back();
   }
}

const SymSet* ssUnion(const SymSet* a, const SymSet* b)
{
   if (a == b || b->v.empty()) return a;
   if (a->v.empty()) return b;
   if (a->id > b->id) std::swap(a, b);
   uint64_t key = ((uint64_t)a->id << 32) | b->id;
   auto it = uncache.find(key);
   if (it != uncache.end()) return it->second;
   std::vector<uint32_t> r;
   std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
   auto s = internSS(std::move(r));
   uncache[key] = s;
   return s;
}

bool ssIntersects(const SymSet* a, const SymSet* b)
{
   if (a == b) return !a->v.empty();
   size_t i = 0, j = 0;
   while (i < a->v.size() && j < b->v.size())
   {
      if (a->v[i] == b->v[j]) return true;
      if (a->v[i] < b->v[j]) ++i; else ++j;
   }
   return false;
}

Expr* mkConst(u128 v, unsigned w) { return intern(K::Const, w, nullptr, nullptr, nullptr, v & maskw(w), 0); }
Expr* mkSym(uint32_t index, unsigned w) { return intern(K::Sym, w, nullptr, nullptr, nullptr, 0, index); }

u128 foldBin(K k, unsigned w, u128 a, u128 b)
{
   u128 m = maskw(w);
   switch (k)
   {
      case K::Add: return (a + b) & m;
      case K::Sub: return (a - b) & m;
      case K::Mul: return (a * b) & m;
      case K::UDiv: return b == 0 ? m : (a / b) & m;
      case K::URem: return b == 0 ? a : (a % b) & m;
      case K::SDiv:
      {
         s128 x = sext128(a, w), y = sext128(b, w);
         if (y == 0) return (x >= 0 ? m : 1);
         if (y == -1) return (u128)(0 - (u128)x) & m;
         return (u128)(x / y) & m;
      }
      case K::SRem:
      {
         s128 x = sext128(a, w), y = sext128(b, w);
         if (y == 0) return a;
         if (y == -1) return 0;
         return (u128)(x % y) & m;
      }
      case K::And: return a & b;
      case K::Or: return a | b;
      case K::Xor: return a ^ b;
      case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
      case K::LShr: return b >= w ? 0 : (a >> (unsigned)b);
      case K::AShr: { s128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
      case K::Eq: return a == b;
      case K::Ult: return a < b;
      case K::Ule: return a <= b;
      case K::Slt: return sext128(a, w) < sext128(b, w);
      case K::Sle: return sext128(a, w) <= sext128(b, w);
      default: abort();
   }
}

static bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }

Expr* mkNot(Expr* a)
{
   if (isC(a)) return mkConst(a->cv ^ 1, 1);
   if (a->k == K::Xor && isC(a->b) && a->b->cv == 1) return a->a;
   // normalise negated comparisons
   switch (a->k)
   {
      case K::Ult: return mkBin(K::Ule, a->b, a->a);
      case K::Ule: return mkBin(K::Ult, a->b, a->a);
      case K::Slt: return mkBin(K::Sle, a->b, a->a);
      case K::Sle: return mkBin(K::Slt, a->b, a->a);
      default: break;
   }
   return intern(K::Xor, 1, a, mkConst(1, 1), nullptr, 0, 0);
}

static bool isNotOf(Expr* a, Expr* b)
{
   return mkNot(a) == b;
}

// number of known zero high bits
static unsigned highZeros(Expr* e)
{
   switch (e->k)
   {
      case K::Const: { unsigned n = 0; while (n < e->w && !((e->cv >> (e->w - 1 - n)) & 1)) ++n; return n; }
      case K::ZExt: return (e->w - e->a->w) + highZeros(e->a);
      case K::Concat: { unsigned n = highZeros(e->a); return n == e->a->w ? n + highZeros(e->b) : n; }
      case K::And: return std::max(highZeros(e->a), highZeros(e->b));
      case K::Ite: return std::min(highZeros(e->b), highZeros(e->c));
      case K::URem: if (isC(e->b) && e->b->cv) return highZeros(mkConst(e->b->cv - 1, e->w)); return 0;
      case K::Or: case K::Xor: return std::min(highZeros(e->a), highZeros(e->b));
      default: return 0;
   }
}
static unsigned lowZeros(Expr* e)
{
   switch (e->k)
   {
      case K::Const: { unsigned n = 0; while (n < e->w && !((e->cv >> n) & 1)) ++n; return n; }
      case K::Concat: { unsigned n = lowZeros(e->b); return n == e->b->w ? n + lowZeros(e->a) : n; }
      case K::ZExt: { unsigned n = lowZeros(e->a); return n == e->a->w ? e->w : n; }
      case K::And: return std::max(lowZeros(e->a), lowZeros(e->b));
      default: return 0;
   }
}

Expr* mkBin(K k, Expr* a, Expr* b)
{
   unsigned w = a->w;
   if (a->w != b->w) { fprintf(stderr, "width mismatch %d: %u %u\n", (int)k, a->w, b->w); abort(); }
   if (isC(a) && isC(b)) return mkConst(foldBin(k, w, a->cv, b->cv), isCmp(k) ? 1 : w);

   // commutative: constant on the right, otherwise order by id
   if (k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq)
   {
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
   }
   u128 m = maskw(w);
   switch (k)
   {
      case K::Add:
         if (isC(b))
         {
            if (b->cv == 0) return a;
            if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->cv + b->cv, w));
            if (a->k == K::Ite && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(K::Add, a->b, b), mkBin(K::Add, a->c, b));
         }
         else if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
         else if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
         if (w == 1) return mkBin(K::Xor, a, b);
         break;
      case K::Sub:
         if (a == b) return mkConst(0, w);
         if (isC(b)) return mkBin(K::Add, a, mkConst(0 - b->cv, w));
         // (x + c) - x, (x + c1) - (x + c2)
         {
            Expr* ab = a; u128 ac = 0; Expr* bb = b; u128 bc = 0;
            if (a->k == K::Add && isC(a->b)) { ab = a->a; ac = a->b->cv; }
            if (b->k == K::Add && isC(b->b)) { bb = b->a; bc = b->b->cv; }
            if (ab == bb) return mkConst(ac - bc, w);
            if (ab->k == K::Add && ab->a == bb) return mkBin(K::Add, ab->b, mkConst(ac - bc, w));
            if (ab->k == K::Add && ab->b == bb) return mkBin(K::Add, ab->a, mkConst(ac - bc, w));
            if (isC(bb) == false && bc) return mkBin(K::Add, mkBin(K::Sub, a, bb), mkConst(0 - bc, w));
            if (ac) return mkBin(K::Add, mkBin(K::Sub, ab, b), mkConst(ac, w));
         }
         if (w == 1) return mkBin(K::Xor, a, b);
         break;
      case K::Mul:
         if (isC(b))
         {
            if (b->cv == 0) return b;
            if (b->cv == 1) return a;
            if ((b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (!((b->cv >> s) & 1)) ++s; return mkBin(K::Shl, a, mkConst(s, w)); }
            if (a->k == K::Ite && (isC(a->b) && isC(a->c))) return mkIte(a->a, mkBin(K::Mul, a->b, b), mkBin(K::Mul, a->c, b));
         }
         if (w == 1) return mkBin(K::And, a, b);
         break;
      case K::UDiv:
         if (isC(b))
         {
            if (b->cv == 1) return a;
            if (b->cv && (b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (!((b->cv >> s) & 1)) ++s; return mkBin(K::LShr, a, mkConst(s, w)); }
         }
         break;
      case K::SDiv:
         if (isC(b) && b->cv == 1) return a;
         if (isC(b) && highZeros(a) > 0 && !((b->cv >> (w - 1)) & 1)) return mkBin(K::UDiv, a, b);
         break;
      case K::URem:
         if (isC(b))
         {
            if (b->cv == 1) return mkConst(0, w);
            if (b->cv && (b->cv & (b->cv - 1)) == 0) return mkBin(K::And, a, mkConst(b->cv - 1, w));
         }
         break;
      case K::SRem:
         if (isC(b) && b->cv == 1) return mkConst(0, w);
         if (isC(b) && highZeros(a) > 0 && !((b->cv >> (w - 1)) & 1)) return mkBin(K::URem, a, b);
         break;
      case K::And:
         if (a == b) return a;
         if (isC(b))
         {
            if (b->cv == 0) return b;
            if (b->cv == m) return a;
            if (a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(a->b->cv & b->cv, w));
            // low mask -> zext(extract)
            if (((b->cv + 1) & b->cv) == 0) { unsigned n = 0; while ((b->cv >> n) & 1) ++n; return mkZExt(mkExtract(a, 0, n), w); }
            // contiguous mask
            { unsigned lo = 0; while (!((b->cv >> lo) & 1)) ++lo; u128 t = b->cv >> lo; if (((t + 1) & t) == 0) { unsigned n = 0; while (n < w && ((t >> n) & 1)) ++n; Expr* mid = mkExtract(a, lo, n); return mkZExt(mkConcat(mid, mkConst(0, lo)), w); } }
            if (a->k == K::Ite && (isC(a->b) && isC(a->c))) return mkIte(a->a, mkBin(K::And, a->b, b), mkBin(K::And, a->c, b));
         }
         if (w == 1)
         {
            if (isNotOf(a, b)) return mkConst(0, 1);
            if (a->k == K::And && (a->a == b || a->b == b)) return a;
            if (b->k == K::And && (b->a == a || b->b == a)) return b;
         }
         break;
      case K::Or:
         if (a == b) return a;
         if (isC(b))
         {
            if (b->cv == 0) return a;
            if (b->cv == m) return b;
         }
         if (w == 1)
         {
            if (isNotOf(a, b)) return mkConst(1, 1);
            // x<y or x==y
         }
         // disjoint parts -> concat
         if (w > 1)
         {
            for (int i = 0; i < 2; ++i)
            {
               Expr* x = i ? b : a; Expr* y = i ? a : b;
               unsigned lz = lowZeros(x), hz = highZeros(y);
               if (lz > 0 && lz < w && hz + lz >= w)
                  return mkConcat(mkExtract(x, lz, w - lz), mkExtract(y, 0, lz));
            }
         }
         break;
      case K::Xor:
         if (a == b) return mkConst(0, w);
         if (isC(b))
         {
            if (b->cv == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->cv ^ b->cv, w));
            if (a->k == K::Ite && (isC(a->b) && isC(a->c))) return mkIte(a->a, mkBin(K::Xor, a->b, b), mkBin(K::Xor, a->c, b));
         }
         if (w == 1 && isNotOf(a, b)) return mkConst(1, 1);
         break;
      case K::Shl:
         if (isC(b))
         {
            if (b->cv == 0) return a;
            if (b->cv >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->cv;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
         }
         if (isC(a) && a->cv == 0) return a;
         break;
      case K::LShr:
         if (isC(b))
         {
            if (b->cv == 0) return a;
            if (b->cv >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->cv;
            return mkZExt(mkExtract(a, s, w - s), w);
         }
         if (isC(a) && a->cv == 0) return a;
         break;
      case K::AShr:
         if (isC(b))
         {
            if (b->cv == 0) return a;
            unsigned s = b->cv >= w ? w - 1 : (unsigned)b->cv;
            return mkSExt(mkExtract(a, s, w - s), w);
         }
         if (isC(a) && a->cv == 0) return a;
         break;
      case K::Eq:
         if (a == b) return mkConst(1, 1);
         if (w == 1 && isC(b)) return b->cv ? a : mkNot(a);
         if (isC(b))
         {
            if (a->k == K::ZExt)
            {
               if (b->cv >> a->a->w) return mkConst(0, 1);
               return mkBin(K::Eq, a->a, mkConst(b->cv, a->a->w));
            }
            if (a->k == K::SExt)
            {
               u128 t = b->cv & maskw(a->a->w);
               if (((u128)sext128(t, a->a->w) & m) != b->cv) return mkConst(0, 1);
               return mkBin(K::Eq, a->a, mkConst(t, a->a->w));
            }
            if (a->k == K::Concat)
            {
               if (isC(a->a))
               {
                  if (a->a->cv != (b->cv >> a->b->w)) return mkConst(0, 1);
                  return mkBin(K::Eq, a->b, mkConst(b->cv, a->b->w));
               }
               if (isC(a->b))
               {
                  if (a->b->cv != (b->cv & maskw(a->b->w))) return mkConst(0, 1);
                  return mkBin(K::Eq, a->a, mkConst(b->cv >> a->b->w, a->a->w));
               }
               return mkBin(K::And, mkBin(K::Eq, a->a, mkConst(b->cv >> a->b->w, a->a->w)), mkBin(K::Eq, a->b, mkConst(b->cv, a->b->w)));
            }
            if (a->k == K::Add && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->cv - a->b->cv, w));
            if (a->k == K::Sub && isC(a->a)) return mkBin(K::Eq, a->b, mkConst(a->a->cv - b->cv, w));
            if (a->k == K::Sub && b->cv == 0) return mkBin(K::Eq, a->a, a->b);
            if (a->k == K::Xor && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(a->b->cv ^ b->cv, w));
            if (a->k == K::Xor && b->cv == 0) return mkBin(K::Eq, a->a, a->b);
            if (a->k == K::Or && b->cv == 0) return mkBin(K::And, mkBin(K::Eq, a->a, b), mkBin(K::Eq, a->b, b));
            if (a->k == K::Ite)
            {
               bool cb = isC(a->b), cc = isC(a->c);
               if (cb || cc)
                  return mkIte(a->a, mkBin(K::Eq, a->b, b), mkBin(K::Eq, a->c, b));
            }
         }
         else
         {
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
            if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
            if (w == 1 && isNotOf(a, b)) return mkConst(0, 1);
            if (a->k == K::Add && b->k == K::Add && a->b == b->b) return mkBin(K::Eq, a->a, b->a);
         }
         break;
      case K::Ult:
         if (a == b) return mkConst(0, 1);
         if (isC(b) && b->cv == 0) return mkConst(0, 1);
         if (isC(a) && a->cv == m) return mkConst(0, 1);
         if (isC(b) && b->cv == 1) return mkBin(K::Eq, a, mkConst(0, w));
         if (isC(a) && a->cv == 0) return mkNot(mkBin(K::Eq, b, a));
         if (isC(b)) { unsigned hz = highZeros(a); if (hz == w) return mkConst(1, 1); if (hz && maskw(w - hz) < b->cv) return mkConst(1, 1); }
         if (isC(a)) { unsigned hz = highZeros(b); if (hz && hz <= w && (hz == w ? 0 : maskw(w - hz)) <= a->cv) return mkConst(0, 1); }
         if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
         if (a->k == K::ZExt && isC(b) && !(b->cv >> a->a->w)) return mkBin(K::Ult, a->a, mkConst(b->cv, a->a->w));
         if (b->k == K::ZExt && isC(a) && !(a->cv >> b->a->w)) return mkBin(K::Ult, mkConst(a->cv, b->a->w), b->a);
         if (isC(b) && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
         if (isC(a) && b->k == K::Ite && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
         break;
      case K::Ule:
         if (a == b) return mkConst(1, 1);
         if (isC(a) && a->cv == 0) return mkConst(1, 1);
         if (isC(b) && b->cv == m) return mkConst(1, 1);
         if (isC(b)) return mkBin(K::Ult, a, mkConst(b->cv + 1, w));
         if (isC(a)) return mkBin(K::Ult, mkConst(a->cv - 1, w), b);
         if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
         break;
      case K::Slt:
         if (a == b) return mkConst(0, 1);
         if (highZeros(a) && highZeros(b)) return mkBin(K::Ult, a, b);
         if (isC(b) && b->cv == ((u128)1 << (w - 1))) return mkConst(0, 1);
         if (isC(a) && a->cv == maskw(w - 1)) return mkConst(0, 1);
         if (isC(b) && b->cv == 0 && w > 1) return mkExtract(a, w - 1, 1);
         if (a->k == K::SExt && isC(b))
         {
            unsigned n = a->a->w; u128 t = b->cv & maskw(n);
            if (((u128)sext128(t, n) & m) == b->cv) return mkBin(K::Slt, a->a, mkConst(t, n));
            return mkConst(sext128(b->cv, w) > 0 ? 1 : 0, 1);
         }
         if (b->k == K::SExt && isC(a))
         {
            unsigned n = b->a->w; u128 t = a->cv & maskw(n);
            if (((u128)sext128(t, n) & m) == a->cv) return mkBin(K::Slt, mkConst(t, n), b->a);
            return mkConst(sext128(a->cv, w) < 0 ? 1 : 0, 1);
         }
         if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Slt, a->a, b->a);
         if (isC(b) && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
         if (isC(a) && b->k == K::Ite && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
         break;
      case K::Sle:
         if (a == b) return mkConst(1, 1);
         if (isC(b)) { if (b->cv == maskw(w - 1)) return mkConst(1, 1); return mkBin(K::Slt, a, mkConst(b->cv + 1, w)); }
         if (isC(a)) { if (a->cv == ((u128)1 << (w - 1))) return mkConst(1, 1); return mkBin(K::Slt, mkConst(a->cv - 1, w), b); }
         if (highZeros(a) && highZeros(b)) return mkBin(K::Ule, a, b);
         if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Sle, a->a, b->a);
         break;
      default: break;
   }
   return intern(k, isCmp(k) ? 1 : w, a, b, nullptr, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
   if (isC(c)) return c->cv ? a : b;
   if (a == b) return a;
   if (c->k == K::Xor && isC(c->b) && c->w == 1) return mkIte(c->a, b, a);
   if (a->w == 1)
   {
      if (isC(a) && isC(b)) return a->cv ? c : mkNot(c);
      if (isC(a)) return a->cv ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
      if (isC(b)) return b->cv ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
   }
   if (b->k == K::Ite && b->b == a) return mkIte(mkBin(K::Or, c, b->a), a, b->c);
   if (a->k == K::Ite && a->c == b) return mkIte(mkBin(K::And, c, a->a), a->b, b);
   if (b->k == K::Ite && b->a == c) return mkIte(c, a, b->c);
   if (a->k == K::Ite && a->a == c) return mkIte(c, a->b, b);
   return intern(K::Ite, a->w, c, a, b, 0, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo)
{
   unsigned w = hi->w + lo->w;
   if (isC(hi) && isC(lo)) return mkConst((hi->cv << lo->w) | lo->cv, w);
   if (isC(hi) && hi->cv == 0) return mkZExt(lo, w);
   if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
      return mkExtract(hi->a, lo->aux, w);
   // hi: ..., lo is whole low part of the same thing
   if (hi->k == K::Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(hi->a, 0, w);
   if (lo->k == K::Concat && hi->k == K::Extract && lo->a->k == K::Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
      return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
   if (isC(hi) && lo->k == K::Concat && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
   // right-associate
   if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
   if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
   return intern(K::Concat, w, hi, lo, nullptr, 0, 0);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
   if (lo == 0 && w == a->w) return a;
   if (w == 0 || lo + w > a->w) { fprintf(stderr, "bad extract %u %u of %u\n", lo, w, a->w); abort(); }
   switch (a->k)
   {
      case K::Const: return mkConst(a->cv >> lo, w);
      case K::Extract: return mkExtract(a->a, a->aux + lo, w);
      case K::Concat:
      {
         unsigned lw = a->b->w;
         if (lo >= lw) return mkExtract(a->a, lo - lw, w);
         if (lo + w <= lw) return mkExtract(a->b, lo, w);
         return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
      }
      case K::ZExt:
      {
         unsigned iw = a->a->w;
         if (lo >= iw) return mkConst(0, w);
         if (lo + w <= iw) return mkExtract(a->a, lo, w);
         return mkZExt(mkExtract(a->a, lo, iw - lo), w);
      }
      case K::SExt:
      {
         unsigned iw = a->a->w;
         if (lo + w <= iw) return mkExtract(a->a, lo, w);
         if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
         break;
      }
      case K::And: case K::Or: case K::Xor:
         return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      case K::Add: case K::Sub: case K::Mul:
         if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
         break;
      case K::Ite:
         if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
         break;
      default: break;
   }
   return intern(K::Extract, w, a, nullptr, nullptr, 0, lo);
}

Expr* mkZExt(Expr* a, unsigned w)
{
   if (w == a->w) return a;
   if (isC(a)) return mkConst(a->cv, w);
   if (a->k == K::ZExt) return mkZExt(a->a, w);
   if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
   return intern(K::ZExt, w, a, nullptr, nullptr, 0, 0);
}

Expr* mkSExt(Expr* a, unsigned w)
{
   if (w == a->w) return a;
   if (isC(a)) return mkConst((u128)sext128(a->cv, a->w), w);
   if (a->k == K::ZExt) return mkZExt(a->a, w);
   if (a->k == K::SExt) return mkSExt(a->a, w);
   if (highZeros(a) > 0) return mkZExt(a, w);
   if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
   return intern(K::SExt, w, a, nullptr, nullptr, 0, 0);
}

// ---- evaluation
namespace
{
   std::vector<u128> memo;
   std::vector<uint32_t> stamp;
   uint32_t epoch = 0;

   u128 ev(Expr* e, const Assignment& m)
   {
      if (e->k == K::Const) return e->cv;
      if (e->k == K::Sym) return m.get(e->aux) & maskw(e->w);
      if (stamp[e->id] == epoch) return memo[e->id];
      u128 r;
      switch (e->k)
      {
         case K::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
         case K::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
         case K::Extract: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
         case K::ZExt: r = ev(e->a, m); break;
         case K::SExt: r = (u128)sext128(ev(e->a, m), e->a->w) & maskw(e->w); break;
         case K::And: { r = ev(e->a, m); if (r) r &= ev(e->b, m); break; }
         default: r = foldBin(e->k, e->a->w, ev(e->a, m), ev(e->b, m)); break;
      }
      stamp[e->id] = epoch;
      memo[e->id] = r;
      return r;
   }
}

u128 evalExpr(Expr* e, const Assignment& m)
{
   if (stamp.size() < arena.size()) { stamp.resize(arena.size() + 4096, 0); memo.resize(arena.size() + 4096); }
   if (++epoch == 0) { std::fill(stamp.begin(), stamp.end(), 0); epoch = 1; }
   return ev(e, m);
}

static Expr* sub(Expr* e, const std::vector<std::pair<bool,u128>>& known, std::unordered_map<Expr*, Expr*>& mm)
{
   if (e->k == K::Const) return e;
   if (e->k == K::Sym) return e->aux < known.size() && known[e->aux].first ? mkConst(known[e->aux].second, e->w) : e;
   bool any = false;
   for (auto s : e->ss->v) if (s < known.size() && known[s].first) { any = true; break; }
   if (!any) return e;
   auto it = mm.find(e);
   if (it != mm.end()) return it->second;
   Expr* r;
   switch (e->k)
   {
      case K::Ite: { Expr* c = sub(e->a, known, mm); if (isC(c)) r = sub(c->cv ? e->b : e->c, known, mm); else r = mkIte(c, sub(e->b, known, mm), sub(e->c, known, mm)); break; }
      case K::Concat: r = mkConcat(sub(e->a, known, mm), sub(e->b, known, mm)); break;
      case K::Extract: r = mkExtract(sub(e->a, known, mm), e->aux, e->w); break;
      case K::ZExt: r = mkZExt(sub(e->a, known, mm), e->w); break;
      case K::SExt: r = mkSExt(sub(e->a, known, mm), e->w); break;
      default: r = mkBin(e->k, sub(e->a, known, mm), sub(e->b, known, mm)); break;
   }
   mm[e] = r;
   return r;
}
Expr* substExpr(Expr* e, const std::vector<std::pair<bool,u128>>& known)
{
   std::unordered_map<Expr*, Expr*> mm;
   return sub(e, known, mm);
}

std::string exprStr(Expr* e, int d)
{
   static const char* n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
   if (e->k == K::Const) { char b[64]; snprintf(b, sizeof b, "%llx:%u", (unsigned long long)e->cv, e->w); return b; }
   if (e->k == K::Sym) return g_symbols[e->aux].name;
   if (d == 0) return "...";
   std::string r = std::string("(") + n[(int)e->k];
   if (e->k == K::Extract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
   for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, d - 1);
   return r + ")";
}
