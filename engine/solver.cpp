#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>

SolverStats g_solver;
unsigned g_solver_timeout_ms = 60000;
std::string g_dump_dir;

namespace
{
   Z3_context ctx = nullptr;
   std::vector<Z3_ast> bvcache, bcache;
   std::unordered_map<unsigned, Z3_sort> sorts;
   Z3_solver zs = nullptr;

   void init()
   {
      if (ctx) return;
      Z3_config cfg = Z3_mk_config();
      ctx = Z3_mk_context(cfg);
      Z3_del_config(cfg);
   }
   Z3_sort bv(unsigned w)
   {
      auto it = sorts.find(w);
      if (it != sorts.end()) return it->second;
      Z3_sort s = Z3_mk_bv_sort(ctx, w);
      Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
      return sorts[w] = s;
   }
   Z3_ast toBV(Expr* e);
   Z3_ast toB(Expr* e)
   {
      if (bcache.size() <= e->id) bcache.resize(e->id + 1024, nullptr);
      if (bcache[e->id]) return bcache[e->id];
      Z3_ast r;
      switch (e->k)
      {
         case K::Const: r = e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
         case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, toB(e->a), toB(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Ult: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Ule: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Slt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Sle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
         case K::And: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
         case K::Or: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
         case K::Xor: if (isTrue(e->b)) r = Z3_mk_not(ctx, toB(e->a)); else r = Z3_mk_xor(ctx, toB(e->a), toB(e->b)); break;
         case K::Ite: r = Z3_mk_ite(ctx, toB(e->a), toB(e->b), toB(e->c)); break;
         default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, bv(1))); break;
      }
      Z3_inc_ref(ctx, r);
      if (bcache.size() <= e->id) bcache.resize(e->id + 1024, nullptr);
      return bcache[e->id] = r;
   }
   Z3_ast num(u128 v, unsigned w)
   {
      if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
      Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bv(w - 64));
      Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
      return Z3_mk_concat(ctx, hi, lo);
   }
   Z3_ast toBV(Expr* e)
   {
      if (bvcache.size() <= e->id) bvcache.resize(e->id + 1024, nullptr);
      if (bvcache[e->id]) return bvcache[e->id];
      Z3_ast r;
      switch (e->k)
      {
         case K::Const: r = num(e->cv, e->w); break;
         case K::Sym:
         {
            std::string n = "s" + std::to_string(e->aux);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv(e->w));
            break;
         }
         case K::Add: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Sub: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Mul: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
         case K::UDiv: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
         case K::SDiv: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
         case K::URem: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
         case K::SRem: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Shl: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
         case K::LShr: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
         case K::AShr: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Concat: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, toBV(e->a)); break;
         case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
         case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
         case K::And: if (e->w == 1) goto boolean; r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Or: if (e->w == 1) goto boolean; r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Xor: if (e->w == 1) goto boolean; r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
         case K::Ite: if (e->w == 1) goto boolean; r = Z3_mk_ite(ctx, toB(e->a), toBV(e->b), toBV(e->c)); break;
         default:
         boolean:
            r = Z3_mk_ite(ctx, toB(e), num(1, 1), num(0, 1));
            break;
      }
      Z3_inc_ref(ctx, r);
      if (bvcache.size() <= e->id) bvcache.resize(e->id + 1024, nullptr);
      return bvcache[e->id] = r;
   }

   struct Entry { Sat r; std::vector<std::pair<uint32_t, u128>> model; };
   struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 17; for (auto x : v) h = (h ^ x) * 0x100000001b3ull; return h; } };
   std::unordered_map<std::vector<uint32_t>, Entry, VH> cache;
}

Sat solve(const std::vector<Expr*>& pc, Expr* cond, Assignment* model)
{
   if (isFalse(cond)) return Sat::no;
   if (isTrue(cond)) return Sat::yes;
   ++g_solver.queries;

   // independent slice
   std::vector<Expr*> slice;
   std::vector<char> used(pc.size(), 0);
   std::vector<uint8_t> in(g_symbols.size(), 0);
   std::vector<uint32_t> syms;
   auto addsyms = [&](const SymSet* s) { bool ch = false; for (auto x : s->v) if (!in[x]) { in[x] = 1; syms.push_back(x); ch = true; } return ch; };
   addsyms(cond->ss);
   bool changed = true;
   while (changed)
   {
      changed = false;
      for (size_t i = 0; i < pc.size(); ++i)
      {
         if (used[i]) continue;
         bool hit = false;
         for (auto x : pc[i]->ss->v) if (in[x]) { hit = true; break; }
         if (!hit) continue;
         used[i] = 1;
         slice.push_back(pc[i]);
         if (addsyms(pc[i]->ss)) changed = true;
      }
   }
   Expr* neg = mkNot(cond);
   for (auto c : slice)
   {
      if (c == cond) return Sat::yes;
      if (c == neg) return Sat::no;
   }
   std::vector<uint32_t> key;
   for (auto c : slice) key.push_back(c->id);
   std::sort(key.begin(), key.end());
   key.push_back(0xffffffffu);
   key.push_back(cond->id);
   auto it = cache.find(key);
   if (it != cache.end())
   {
      ++g_solver.cachehits;
      if (it->second.r == Sat::yes && model)
         for (auto& p : it->second.model) model->set(p.first, p.second);
      return it->second.r;
   }
   init();
   auto t0 = std::chrono::steady_clock::now();
   ++g_solver.z3calls;
   if (!zs)
   {
      zs = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
      Z3_solver_inc_ref(ctx, zs);
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_solver_timeout_ms);
      Z3_solver_set_params(ctx, zs, p);
      Z3_params_dec_ref(ctx, p);
   }
   Z3_solver_reset(ctx, zs);
   for (auto c : slice) Z3_solver_assert(ctx, zs, toB(c));
   Z3_solver_assert(ctx, zs, toB(cond));
   Z3_lbool r = Z3_solver_check(ctx, zs);
   if (!g_dump_dir.empty() && (g_solver.z3calls % 97) == 1)
   {
      static int n = 0;
      std::ofstream f(g_dump_dir + "/q." + std::to_string(getpid()) + "." + std::to_string(n++) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unknown") + ".smt2");
      f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, zs) << "(check-sat)\n";
   }
   Entry e;
   if (r == Z3_L_FALSE) e.r = Sat::no;
   else if (r == Z3_L_UNDEF) { e.r = Sat::unknown; ++g_solver.unknown; }
   else
   {
      e.r = Sat::yes;
      Z3_model m = Z3_solver_get_model(ctx, zs);
      Z3_model_inc_ref(ctx, m);
      for (auto s : syms)
      {
         Expr* se = mkSym(s, g_symbols[s].w);
         Z3_ast out = nullptr;
         Z3_ast in_ast = toBV(se);
         u128 v = 0;
         if (Z3_model_eval(ctx, m, in_ast, true, &out) && out)
         {
            Z3_inc_ref(ctx, out);
            uint64_t x = 0;
            if (g_symbols[s].w <= 64 && Z3_get_numeral_uint64(ctx, out, &x)) v = x;
            else
            {
               const char* str = Z3_get_numeral_string(ctx, out);
               v = 0;
               for (const char* p = str; *p; ++p) v = v * 10 + (*p - '0');
            }
            Z3_dec_ref(ctx, out);
         }
         e.model.emplace_back(s, v);
      }
      Z3_model_dec_ref(ctx, m);
      // the model must satisfy slice and cond under our own evaluator: guards against translation errors
      Assignment t;
      for (auto& p : e.model) t.set(p.first, p.second);
      bool good = evalExpr(cond, t) == 1;
      for (auto c : slice) good = good && evalExpr(c, t) == 1;
      if (!good) { fprintf(stderr, "internal: z3 model does not satisfy the query\n"); abort(); }
   }
   double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   g_solver.seconds += dt;
   if (dt > g_solver.maxsec) g_solver.maxsec = dt;
   if (e.r == Sat::yes && model)
      for (auto& p : e.model) model->set(p.first, p.second);
   Sat res = e.r;
   if (res != Sat::unknown) cache.emplace(std::move(key), std::move(e));
   return res;
}
