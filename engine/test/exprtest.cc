// randomised self-test of the expression simplifier: simplified DAG vs. reference semantics
#include "../src/expr.h"
#include <cstdio>
#include <random>
struct R { EOp op; unsigned w; int a, b, d; u128 c; Expr *e; };
int main(int argc, char **argv) {
  std::mt19937_64 g(argc > 1 ? atoi(argv[1]) : 1); long bad = 0;
  auto rnd = [&](u64 n) { return g() % n; };
  for (int round = 0; round < 3000; ++round) {
    std::vector<R> v; unsigned W[] = {1, 3, 8, 16, 32, 64};
    int nv = 2 + rnd(3);
    size_t vb = X.vars.size();
    for (int i = 0; i < nv; ++i) { unsigned w = W[1 + rnd(5)]; u128 ub = ~(u128)0; if (rnd(2)) ub = g() & maskw(w) & (g() % 200); Expr *e = X.mkVar("v", w, ub); v.push_back({E_VAR, w, -1, -1, -1, (u128)(X.vars.size() - 1), e}); }
    for (int i = 0; i < 40; ++i) {
      int a = rnd(v.size()); unsigned w = v[a].w; int k = rnd(20);
      auto same = [&](unsigned ww) { std::vector<int> c; for (size_t j = 0; j < v.size(); ++j) if (v[j].w == ww) c.push_back(j); return c.empty() ? -1 : c[rnd(c.size())]; };
      R r; r.a = a; r.b = r.d = -1; r.c = 0; r.w = w;
      if (k < 2) { u128 cv = (rnd(2) ? rnd(6) : rnd(2) ? (u128)0 - rnd(6) : (u128)g()) & maskw(w); r = {E_CONST, w, -1, -1, -1, cv, X.mkConst(cv, w)}; }
      else if (k < 13) { EOp ops[] = {E_ADD, E_SUB, E_ADD, E_SUB, E_MUL, E_UDIV, E_UREM, E_SDIV, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE}; EOp op = ops[rnd(20)]; if (rnd(3) == 0) op = ops[rnd(4)]; if (rnd(4) == 0) op = ops[15 + rnd(5)]; r.op = op; r.b = same(w); if ((op == E_MUL || op == E_SHL || op >= E_UDIV && op <= E_SREM) && rnd(2)) { u128 cv = rnd(10) & maskw(w); v.push_back({E_CONST, w, -1, -1, -1, cv, X.mkConst(cv, w)}); r.b = v.size() - 1; } r.w = op >= E_EQ && op <= E_SLE ? 1 : w; r.e = X.bin(op, v[a].e, v[r.b].e); }
      else if (k < 15) { int c = same(1); if (c < 0) continue; r.op = E_ITE; r.b = a; r.d = same(w); r.a = c; r.e = X.ite(v[c].e, v[r.b].e, v[r.d].e); }
      else if (k < 18) { unsigned ww = W[rnd(6)]; if (ww <= w) continue; bool s = rnd(2); r.op = s ? E_SEXT : E_ZEXT; r.w = ww; r.e = s ? X.sext(v[a].e, ww) : X.zext(v[a].e, ww); }
      else if (k < 19) { unsigned ww = W[rnd(6)]; if (ww >= w) continue; unsigned lo = rnd(2) ? 0 : rnd(w - ww + 1); r.op = E_EXTRACT; r.w = ww; r.c = lo; r.e = X.extract(v[a].e, lo, ww); }
      else { int b = rnd(v.size()); if (w + v[b].w > 64 || (w + v[b].w != 64 && w + v[b].w != 32 && w + v[b].w != 16 && w + v[b].w != 8)) continue; r.op = E_CONCAT; r.b = b; r.w = w + v[b].w; r.e = X.concat(v[a].e, v[b].e); }
      if (r.e->w != r.w) { printf("width mismatch\n"); return 1; }
      v.push_back(r);
    }
    for (int t = 0; t < 12; ++t) {
      std::vector<u128> m(X.vars.size(), 0);
      for (size_t i = vb; i < m.size(); ++i) { u128 x = rnd(2) ? g() : rnd(3) ? rnd(5) : (u128)0 - 1 - rnd(3); x &= maskw(X.vars[i].w); if (x > X.vars[i].ub) x = x % (X.vars[i].ub + 1); m[i] = x; }
      X.setModel(m); std::vector<u128> val(v.size());
      for (size_t i = 0; i < v.size(); ++i) { R &r = v[i];
        if (r.op == E_VAR) val[i] = m[(size_t)r.c]; else if (r.op == E_CONST) val[i] = r.c;
        else val[i] = ExprCtx::fold(r.op, r.w, r.a >= 0 ? v[r.a].w : 0, r.a >= 0 ? val[r.a] : 0, r.b >= 0 ? val[r.b] : 0, r.d >= 0 ? val[r.d] : 0, r.c, r.b >= 0 ? v[r.b].w : 0);
        u128 got = X.eval(r.e); Expr *e = r.e;
        bool ivok = !e->iv || (sextw(got, e->w) >= e->slo && sextw(got, e->w) <= e->shi);
        if (got != val[i] || !ivok) { if (bad++ < 5) printf("MISMATCH round %d op %d w %u: want %llx got %llx iv %d\n  a=%s\n  b=%s\n  e=%s\n", round, r.op, r.w, (unsigned long long)val[i], (unsigned long long)got, ivok, r.a >= 0 ? exprStr(v[r.a].e, 5).c_str() : "", r.b >= 0 ? exprStr(v[r.b].e, 5).c_str() : "", exprStr(r.e, 6).c_str()); }
      }
    }
  }
  printf("bad=%ld exprs=%llu\n", bad, (unsigned long long)X.nExprs); return bad != 0;
}
