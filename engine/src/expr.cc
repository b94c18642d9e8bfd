#include "expr.h"
#include <cassert>
#include <algorithm>
#include <cstdio>
ExprCtx X;

static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

Expr *ExprCtx::intern(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c) {
  if (table_.empty()) table_.assign(1 << 14, nullptr);
  u64 h = hmix(hmix(hmix(hmix(hmix(hmix(op, w), a ? a->id : 0), b ? b->id : 0), d ? d->id : 0), (u64)c), (u64)(c >> 64));
  h ^= h >> 32;
  size_t m = table_.size() - 1, i = h & m;
  while (Expr *e = table_[i]) {
    if (e->op == op && e->w == w && e->a == a && e->b == b && e->d == d && e->c == c) return e;
    i = (i + 1) & m;
  }
  if (arenaLeft_ < sizeof(Expr)) { arenaLeft_ = sizeof(Expr) * 512; arena_ = (char *)malloc(arenaLeft_); }
  Expr *e = (Expr *)arena_; arena_ += sizeof(Expr); arenaLeft_ -= sizeof(Expr);
  e->op = op; e->w = w; e->id = (u32)++nExprs; e->c = c; e->a = a; e->b = b; e->d = d;
  e->epoch = 0; e->flags = 0; e->val = 0; e->lits = -1; e->lowered = nullptr; e->z3ast = nullptr;
  e->hasFP = (op >= E_FADD) || (a && a->hasFP) || (b && b->hasFP) || (d && d->hasFP);
  if (op == E_CONST) { e->val = c; e->epoch = ~0u; }
  e->lin = op == E_ADD || op == E_SUB || ((op == E_MUL || op == E_SHL) && b->op == E_CONST);
  interval(e);
  table_[i] = e;
  if (++used_ * 2 > table_.size()) {
    std::vector<Expr *> o; o.swap(table_); table_.assign(o.size() * 2, nullptr);
    size_t mm = table_.size() - 1;
    for (Expr *q : o) if (q) {
      u64 hh = hmix(hmix(hmix(hmix(hmix(hmix(q->op, q->w), q->a ? q->a->id : 0), q->b ? q->b->id : 0), q->d ? q->d->id : 0), (u64)q->c), (u64)(q->c >> 64));
      hh ^= hh >> 32;
      size_t j = hh & mm; while (table_[j]) j = (j + 1) & mm; table_[j] = q;
    }
  }
  return e;
}

Expr *ExprCtx::mkConst(u128 v, unsigned w) { return intern(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr *ExprCtx::mkVar(const std::string &name, unsigned w, u128 ub) {
  vars.push_back({name, w, ub});
  model.push_back(0);
  Expr *e = intern(E_VAR, w, nullptr, nullptr, nullptr, vars.size() - 1);
  varExpr.push_back(e);
  return e;
}

static long double ffn1(int fn, long double x, unsigned w) {
  if (w == 32) { float f = x; switch (fn) { case MF_CEIL: return ceilf(f); case MF_FLOOR: return floorf(f); case MF_TRUNC: return truncf(f); case MF_RINT: return rintf(f); case MF_NEARBYINT: return nearbyintf(f); case MF_ROUND: return roundf(f); case MF_SQRT: return sqrtf(f); case MF_FABS: return fabsf(f); case MF_LOG: return logf(f); case MF_LOG2: return log2f(f); case MF_LOG10: return log10f(f); case MF_EXP: return expf(f); case MF_EXP2: return exp2f(f); case MF_LOG1P: return log1pf(f); case MF_SIN: return sinf(f); case MF_COS: return cosf(f);} abort(); }
  if (w == 64) { double f = x; switch (fn) { case MF_CEIL: return ceil(f); case MF_FLOOR: return floor(f); case MF_TRUNC: return trunc(f); case MF_RINT: return rint(f); case MF_NEARBYINT: return nearbyint(f); case MF_ROUND: return round(f); case MF_SQRT: return sqrt(f); case MF_FABS: return fabs(f); case MF_LOG: return log(f); case MF_LOG2: return log2(f); case MF_LOG10: return log10(f); case MF_EXP: return exp(f); case MF_EXP2: return exp2(f); case MF_LOG1P: return log1p(f); case MF_SIN: return sin(f); case MF_COS: return cos(f);} abort(); }
  long double f = x; switch (fn) { case MF_CEIL: return ceill(f); case MF_FLOOR: return floorl(f); case MF_TRUNC: return truncl(f); case MF_RINT: return rintl(f); case MF_NEARBYINT: return nearbyintl(f); case MF_ROUND: return roundl(f); case MF_SQRT: return sqrtl(f); case MF_FABS: return fabsl(f); case MF_LOG: return logl(f); case MF_LOG2: return log2l(f); case MF_LOG10: return log10l(f); case MF_EXP: return expl(f); case MF_EXP2: return exp2l(f); case MF_LOG1P: return log1pl(f); case MF_SIN: return sinl(f); case MF_COS: return cosl(f);} abort();
}
static u128 fromLD(long double r, unsigned w) { return w == 32 ? f2bits((float)r) : w == 64 ? d2bits((double)r) : ld2bits(r); }

template <class T> static T fbin(EOp op, T a, T b) {
  switch (op) { case E_FADD: return a + b; case E_FSUB: return a - b; case E_FMUL: return a * b; case E_FDIV: return a / b; case E_FREM: return std::fmod(a, b); default: abort(); }
}
static bool fcmp(int p, long double a, long double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  switch (p) {
  case 0: return false; case 1: return !uno && a == b; case 2: return !uno && a > b; case 3: return !uno && a >= b;
  case 4: return !uno && a < b; case 5: return !uno && a <= b; case 6: return !uno && a != b; case 7: return !uno;
  case 8: return uno; case 9: return uno || a == b; case 10: return uno || a > b; case 11: return uno || a >= b;
  case 12: return uno || a < b; case 13: return uno || a <= b; case 14: return uno || a != b; case 15: return true; }
  abort();
}

u128 ExprCtx::fold(EOp op, unsigned w, unsigned wa, u128 a, u128 b, u128 d, u128 c, unsigned wb) {
  u128 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b == 0 ? m : (a / b) & m;
  case E_UREM: return b == 0 ? a : (a % b) & m;
  case E_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x < 0 ? (u128)1 : m); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case E_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
  case E_ASHR: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? (w - 1) : (unsigned)b)) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextw(a, wa) < sextw(b, wa);
  case E_SLE: return sextw(a, wa) <= sextw(b, wa);
  case E_ITE: return a ? b : d;
  case E_CONCAT: return ((a << wb) | b) & m;
  case E_EXTRACT: return (a >> (unsigned)c) & m;
  case E_ZEXT: return a;
  case E_SEXT: return (u128)sextw(a, wa) & m;
  case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM:
    if (w == 32) return f2bits(fbin<float>(op, bits2f(a), bits2f(b)));
    if (w == 64) return d2bits(fbin<double>(op, bits2d(a), bits2d(b)));
    return ld2bits(fbin<long double>(op, bits2ld(a), bits2ld(b)));
  case E_FNEG: return a ^ ((u128)1 << (w == 80 ? 79 : w - 1));
  case E_FCMP: return fcmp((int)c, toLD(a, wa), toLD(b, wa));
  case E_SITOFP: { i128 x = sextw(a, wa); return w == 32 ? f2bits((float)(i64)x) : w == 64 ? d2bits((double)(i64)x) : ld2bits((long double)x); }
  case E_UITOFP: return w == 32 ? f2bits((float)(u64)a) : w == 64 ? d2bits((double)(u64)a) : ld2bits((long double)a);
  case E_FPTOSI: { long double x = toLD(a, wa); unsigned wc = w <= 32 ? 32 : 64; long double lim = ldexpl(1.0L, wc - 1); if (!(x > -lim - 1 && x < lim)) return ((u128)1 << (wc - 1)) & m; return (u128)(i128)(i64)x & m; }
  case E_FPTOUI: { long double x = toLD(a, wa); if (w < 64) { if (!(x > -9223372036854775808.0L && x < 9223372036854775808.0L)) return 0; return (u128)(i64)x & m; } long double lim = ldexpl(1.0L, w); if (!(x > -1 && x < lim)) return (x != x || x < 0) ? ((u128)1 << (w - 1)) : m; return (u128)(u64)x & m; }
  case E_FPEXT: case E_FPTRUNC: {
    if (w == 32) { if (wa == 64) return f2bits((float)bits2d(a)); return f2bits((float)bits2ld(a)); }
    if (w == 64) { if (wa == 32) return d2bits((double)bits2f(a)); return d2bits((double)bits2ld(a)); }
    return ld2bits(toLD(a, wa)); }
  case E_FUNC1: return fromLD(ffn1((int)c, toLD(a, w), w), w);
  case E_FUNC2: {
    if (w == 32) { float x = bits2f(a), y = bits2f(b); switch ((int)c) { case MF_POW: return f2bits(powf(x, y)); case MF_FMIN: return f2bits(fminf(x, y)); case MF_FMAX: return f2bits(fmaxf(x, y)); case MF_FMOD: return f2bits(fmodf(x, y)); case MF_COPYSIGN: return f2bits(copysignf(x, y)); } abort(); }
    double x = (double)toLD(a, w), y = (double)toLD(b, w); double r; switch ((int)c) { case MF_POW: r = pow(x, y); break; case MF_FMIN: r = fmin(x, y); break; case MF_FMAX: r = fmax(x, y); break; case MF_FMOD: r = fmod(x, y); break; case MF_COPYSIGN: r = copysign(x, y); break; default: abort(); }
    return w == 64 ? d2bits(r) : ld2bits(r); }
  default: abort();
  }
}


// ---- signed intervals and linear normal forms ----
static const i128 BIG = (i128)1 << 100;
void ExprCtx::interval(Expr *e) {
  unsigned w = e->w; e->iv = 0; e->slo = e->shi = 0;
  auto set = [&](i128 lo, i128 hi) { e->iv = 1; e->slo = lo; e->shi = hi; };
  if (e->op == E_CONST) { i128 v = sextw(e->c, w); if (v > -BIG && v < BIG) set(v, v); return; }
  i128 mn = w <= 64 ? -((i128)1 << (w - 1)) : 0, mx = w <= 64 ? ((i128)1 << (w - 1)) - 1 : 0;
  if (w <= 64) set(mn, mx);
  Expr *a = e->a, *b = e->b, *d = e->d;
  auto fit = [&](i128 lo, i128 hi) { if (w <= 64 ? (lo >= mn && hi <= mx) : (lo > -BIG && hi < BIG)) set(lo, hi); };
  auto nn = [](Expr *x) { return x->iv && x->slo >= 0; };
  switch (e->op) {
  case E_ADD: if (a->iv && b->iv) fit(a->slo + b->slo, a->shi + b->shi); break;
  case E_SUB: if (a->iv && b->iv) fit(a->slo - b->shi, a->shi - b->slo); break;
  case E_MUL: if (a->iv && b->iv && w <= 64) { i128 p[4] = {a->slo * b->slo, a->slo * b->shi, a->shi * b->slo, a->shi * b->shi}; fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
  case E_SHL: if (a->iv && b->op == E_CONST && b->c < 60 && w <= 64) fit(a->slo * ((i128)1 << (int)b->c), a->shi * ((i128)1 << (int)b->c)); break;
  case E_ZEXT: if (a->op == E_VAR && vars[(size_t)a->c].ub <= (u128)maskw(a->w)) set(0, (i128)vars[(size_t)a->c].ub); else if (nn(a)) set(a->slo, a->shi); else if (a->w <= 64) set(0, (i128)maskw(a->w)); break;
  case E_SEXT: if (a->iv) set(a->slo, a->shi); break;
  case E_ITE: if (b->iv && d->iv) set(std::min(b->slo, d->slo), std::max(b->shi, d->shi)); break;
  case E_EXTRACT: if (e->c == 0 && a->iv) fit(a->slo, a->shi); break;
  case E_AND: { bool x = nn(a), y = nn(b); if (x && y) set(0, std::min(a->shi, b->shi)); else if (x) set(0, a->shi); else if (y) set(0, b->shi); break; }
  case E_OR: case E_XOR: if (nn(a) && nn(b) && w > 1) { i128 m = std::max(a->shi, b->shi), p = 1; while (p <= m) p *= 2; set(0, p - 1); } break;
  case E_UDIV: case E_SDIV: if (nn(a) && b->op == E_CONST && nn(b) && b->slo > 0) set(a->slo / b->slo, a->shi / b->slo); else if (e->op == E_SDIV && a->iv && b->op == E_CONST && nn(b) && b->slo > 0) set(a->slo / b->slo, a->shi / b->slo); break;
  case E_UREM: if (b->op == E_CONST && nn(b) && b->slo > 0) set(0, nn(a) ? std::min(a->shi, b->slo - 1) : b->slo - 1); break;
  case E_SREM: if (b->op == E_CONST && nn(b) && b->slo > 0) set(nn(a) ? 0 : -(b->slo - 1), b->slo - 1); break;
  case E_LSHR: case E_ASHR: if (b->op == E_CONST && b->c < w && (nn(a) || (e->op == E_ASHR && a->iv))) set(a->slo >> (int)b->c, a->shi >> (int)b->c); else if (nn(a)) set(0, a->shi); break;
  default: break;
  }
}
static const size_t MAXT = 40;
static inline i128 srep(i128 v, unsigned w) { return w >= 127 ? v : sextw((u128)v, w); }
bool ExprCtx::decomp(Expr *e, i128 k, Lin &l) {
  switch (e->op) {
  case E_CONST: l.c = srep(l.c + k * sextw(e->c, l.w), l.w); return true;
  case E_ADD: return decomp(e->a, k, l) && decomp(e->b, k, l);
  case E_SUB: return decomp(e->a, k, l) && decomp(e->b, srep(-k, l.w), l);
  case E_MUL: if (e->b->op == E_CONST) return decomp(e->a, srep(k * sextw(e->b->c, l.w), l.w), l); break;
  case E_SHL: if (e->b->op == E_CONST && e->b->c < l.w) return decomp(e->a, srep((i128)((u128)k << (unsigned)e->b->c), l.w), l); break;
  case E_XOR: if (l.w > 1 && e->b->op == E_CONST && e->b->c == maskw(l.w)) { l.c = srep(l.c - k, l.w); return decomp(e->a, srep(-k, l.w), l); } break;
  case E_ITE: if (l.w > 1 && e->b->op == E_CONST && e->d->op == E_CONST && !(e->b->c == 1 && e->d->c == 0)) {
      i128 t = sextw(e->b->c, l.w), f = sextw(e->d->c, l.w); l.c = srep(l.c + k * f, l.w);
      l.t.push_back({intern(E_ITE, l.w, e->a, mkConst(1, l.w), mkConst(0, l.w), 0), srep(k * srep(t - f, l.w), l.w)}); return l.t.size() <= MAXT; }
    break;
  default: break;
  }
  if (k) l.t.push_back({e, k});
  return l.t.size() <= MAXT;
}
void ExprCtx::normLin(Lin &l) {
  std::sort(l.t.begin(), l.t.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
  size_t n = 0;
  for (size_t i = 0; i < l.t.size();) { size_t j = i; i128 k = 0; while (j < l.t.size() && l.t[j].first == l.t[i].first) k = srep(k + l.t[j++].second, l.w); if (k) l.t[n++] = {l.t[i].first, k}; i = j; }
  l.t.resize(n);
}
bool ExprCtx::linOf(Expr *e, i128 k, Lin &l) { l.w = e->w; if (e->w > 64 || e->w < 2 || e->hasFP) return false; return decomp(e, k, l); }
Expr *ExprCtx::build(const Lin &l) {
  unsigned w = l.w; Expr *r = nullptr; bool usedC = false;
  auto is01 = [](Expr *e) { return e->op == E_ITE && e->b->op == E_CONST && e->b->c == 1 && e->d->op == E_CONST && e->d->c == 0; };
  if (l.t.size() == 1 && is01(l.t[0].first)) return ite(l.t[0].first->a, mkConst((u128)(l.c + l.t[0].second), w), mkConst((u128)l.c, w));
  auto term = [&](Expr *e, i128 k) -> Expr * {
    if (k == 1) return e;
    if (is01(e)) return ite(e->a, mkConst((u128)k, w), mkConst(0, w));
    u128 uk = (u128)k & maskw(w);
    if ((uk & (uk - 1)) == 0) { unsigned n = 0; while (!((uk >> n) & 1)) ++n; return intern(E_SHL, w, e, mkConst(n, w), nullptr, 0); }
    return intern(E_MUL, w, e, mkConst(uk, w), nullptr, 0);
  };
  for (auto &p : l.t) if (p.second > 0) { Expr *t = term(p.first, p.second); r = r ? intern(E_ADD, w, r, t, nullptr, 0) : t; }
  for (auto &p : l.t) if (p.second < 0) {
    if (p.second == -((i128)1 << (w - 1))) { Expr *t = term(p.first, p.second); r = r ? intern(E_ADD, w, r, t, nullptr, 0) : t; continue; }
    Expr *t = term(p.first, -p.second); if (!r) { r = mkConst((u128)l.c, w); usedC = true; } r = intern(E_SUB, w, r, t, nullptr, 0); }
  if (!r) return mkConst((u128)l.c, w);
  if (!usedC && l.c) r = intern(E_ADD, w, r, mkConst((u128)l.c, w), nullptr, 0);
  return r;
}
static bool exactIv(const Lin &l, i128 &lo, i128 &hi, int sign = 0) { // interval of the exact integer sum; sign: +1 only positive terms, -1 only (negated) negative ones
  lo = hi = sign == 0 ? l.c : sign > 0 ? std::max<i128>(l.c, 0) : std::max<i128>(-l.c, 0);
  for (auto &p : l.t) {
    i128 k = p.second; if (sign > 0 && k < 0) continue; if (sign < 0) { if (k > 0) continue; k = -k; }
    if (!p.first->iv || k > ((i128)1 << 40) || k < -((i128)1 << 40)) return false;
    i128 x = k * p.first->slo, y = k * p.first->shi; lo += std::min(x, y); hi += std::max(x, y);
  }
  return true;
}
static bool fits(i128 lo, i128 hi, unsigned w) { return lo >= -((i128)1 << (w - 1)) && hi <= ((i128)1 << (w - 1)) - 1; }
// comparison of linear expressions; nullptr: no simplification
Expr *ExprCtx::linCmp(EOp op, Expr *a, Expr *b) {
  if (a->w > 64 || a->w < 2 || (!a->lin && !b->lin)) return nullptr;
  unsigned w = a->w; Lin la, lb, d; if (!linOf(a, 1, la) || !linOf(b, 1, lb)) return nullptr;
  if (op != E_EQ) {
    i128 lo, hi; normLin(la); normLin(lb);
    if (!exactIv(la, lo, hi) || !fits(lo, hi, w) || !exactIv(lb, lo, hi) || !fits(lo, hi, w)) return nullptr;
    if ((op == E_ULT || op == E_ULE) && !(a->slo >= 0 && b->slo >= 0)) return nullptr;
  }
  d.w = w; d.t = la.t; for (auto &p : lb.t) d.t.push_back({p.first, op == E_EQ ? srep(-p.second, w) : -p.second}); 
  if (op == E_EQ) { d.c = srep(la.c - lb.c, w); normLin(d); }
  else { d.c = la.c - lb.c; std::sort(d.t.begin(), d.t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; }); size_t n = 0; for (size_t i = 0; i < d.t.size();) { size_t j = i; i128 k = 0; while (j < d.t.size() && d.t[j].first == d.t[i].first) k += d.t[j++].second; if (k) d.t[n++] = {d.t[i].first, k}; i = j; } d.t.resize(n); }
  i128 lo, hi; bool ex = exactIv(d, lo, hi);
  if (op == E_EQ) {
    if (d.t.empty()) return mkConst(d.c == 0, 1);
    if (ex && lo > -((i128)1 << w) && hi < ((i128)1 << w) && (lo > 0 || hi < 0)) return mkConst(0, 1);
    if (d.t[0].second < 0) { for (auto &p : d.t) p.second = srep(-p.second, w); d.c = srep(-d.c, w); }
    Lin P, Q; P.w = Q.w = w; bool neg = false;
    for (auto &p : d.t) if (p.second > 0 || p.second == -((i128)1 << (w - 1))) P.t.push_back(p); else { Q.t.push_back({p.first, -p.second}); neg = true; }
    if (neg) P.c = d.c; else Q.c = srep(-d.c, w);
    Expr *x = build(P), *y = build(Q);
    if ((x == a && y == b) || (x == b && y == a)) return nullptr;
    if (!x->lin && !y->lin) return bin(E_EQ, x, y);
    // avoid ping-pong: the pair (x, y) is canonical
    if (x->op == E_CONST || (y->op != E_CONST && x->id > y->id)) std::swap(x, y);
    if (x == y) return mkConst(1, 1);
    return intern(E_EQ, 1, x, y, nullptr, 0);
  }
  if (!ex) return nullptr;
  bool strict = op == E_SLT || op == E_ULT;
  if (strict ? hi < 0 : hi <= 0) return mkConst(1, 1);
  if (strict ? lo >= 0 : lo > 0) return mkConst(0, 1);
  i128 plo, phi, qlo, qhi; if (!exactIv(d, plo, phi, 1) || !exactIv(d, qlo, qhi, -1) || !fits(plo, phi, w) || !fits(qlo, qhi, w)) return nullptr;
  Lin P, Q; P.w = Q.w = w; for (auto &p : d.t) if (p.second > 0) P.t.push_back(p); else Q.t.push_back({p.first, -p.second});
  P.c = std::max<i128>(d.c, 0); Q.c = std::max<i128>(-d.c, 0);
  // strict comparisons only: x <= y  <=>  x < y + 1
  if (!strict) { if (P.c > 0) P.c -= 1; else Q.c += 1; i128 l2, h2; if (!exactIv(Q, l2, h2) || !fits(l2, h2, w) || !exactIv(P, l2, h2) || !fits(l2, h2, w)) return nullptr; }
  Expr *x = build(P), *y = build(Q);
  i128 xl, xh, yl, yh; exactIv(P, xl, xh); exactIv(Q, yl, yh);
  EOp o = xl >= 0 && yl >= 0 ? E_ULT : E_SLT;
  if (x == a && y == b && o == op) return nullptr;
  if (x->op == E_CONST && y->op == E_CONST) return mkConst(fold(o, 1, w, x->c, y->c, 0, 0), 1);
  if (!x->lin && !y->lin) return bin(o, x, y);
  return intern(o, 1, x, y, nullptr, 0);
}

Expr *ExprCtx::mk(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c) {
  // generic constructor with constant folding and 'push through ite of constants'
  bool ca = !a || a->op == E_CONST, cb = !b || b->op == E_CONST, cd = !d || d->op == E_CONST;
  if (ca && cb && cd) return mkConst(fold(op, w, a ? a->w : 0, a ? a->c : 0, b ? b->c : 0, d ? d->c : 0, c, b ? b->w : 0), w);
  if (op != E_ITE && op != E_CONCAT) {
    // op(ite(c,k1,k2), k3) -> ite(c, fold, fold)
    if (a && a->op == E_ITE && a->b->op == E_CONST && a->d->op == E_CONST && cb && cd) {
      Expr *t = mk(op, w, a->b, b, d, c), *f = mk(op, w, a->d, b, d, c);
      return ite(a->a, t, f);
    }
    if (b && b->op == E_ITE && b->b->op == E_CONST && b->d->op == E_CONST && ca && cd) {
      Expr *t = mk(op, w, a, b->b, d, c), *f = mk(op, w, a, b->d, d, c);
      return ite(b->a, t, f);
    }
    if (!d && a && b && a->op == E_ITE && b->op == E_ITE && a->a == b->a && a->b->op == E_CONST && a->d->op == E_CONST && b->b->op == E_CONST && b->d->op == E_CONST)
      return ite(a->a, mk(op, w, a->b, b->b, nullptr, c), mk(op, w, a->d, b->d, nullptr, c));
  }
  return intern(op, w, a, b, d, c);
}

unsigned knownZeroLow(Expr *e) {
  switch (e->op) {
  case E_CONST: { if (e->c == 0) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) ++n; return n; }
  case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(knownZeroLow(e->a), knownZeroLow(e->b));
  case E_AND: return std::max(knownZeroLow(e->a), knownZeroLow(e->b));
  case E_MUL: return std::min<unsigned>(e->w, knownZeroLow(e->a) + knownZeroLow(e->b));
  case E_SHL: if (e->b->op == E_CONST) return (unsigned)std::min<u128>(e->w, knownZeroLow(e->a) + e->b->c); return 0;
  case E_ITE: return std::min(knownZeroLow(e->b), knownZeroLow(e->d));
  case E_ZEXT: case E_SEXT: { unsigned k = knownZeroLow(e->a); return k == e->a->w ? e->w : k; }
  case E_CONCAT: { unsigned k = knownZeroLow(e->b); return k == e->b->w ? k + knownZeroLow(e->a) : k; }
  default: return 0;
  }
}

// cheap upper bound on an unsigned value
static u128 ubound0(Expr *e, int depth);
static u128 ubound(Expr *e, int depth = 4) {
  u128 m = maskw(e->w);
  if (e->op == E_CONST) return e->c;
  if (e->iv && e->slo >= 0) { u128 u = (u128)e->shi; if (depth == 0 || e->w > 64) return u; m = u; }
  if (depth == 0) return m;
  return std::min(m, ubound0(e, depth));
}
static u128 ubound0(Expr *e, int depth) {
  u128 m = maskw(e->w);
  switch (e->op) {
  case E_ZEXT: return ubound(e->a, depth - 1);
  case E_ITE: return std::max(ubound(e->b, depth - 1), ubound(e->d, depth - 1));
  case E_AND: return std::min(ubound(e->a, depth - 1), ubound(e->b, depth - 1));
  case E_UREM: if (e->b->op == E_CONST && e->b->c) return e->b->c - 1; return m;
  case E_UDIV: if (e->b->op == E_CONST && e->b->c) return ubound(e->a, depth - 1) / e->b->c; return m;
  case E_LSHR: if (e->b->op == E_CONST && e->b->c < e->w) return ubound(e->a, depth - 1) >> (unsigned)e->b->c; return m;
  case E_CONCAT: { u128 h = ubound(e->a, depth - 1); return ((h << e->b->w) | maskw(e->b->w)) & m; }
  case E_ADD: { if (e->w > 100) return m; u128 s = ubound(e->a, depth - 1) + ubound(e->b, depth - 1); return s > m ? m : s; }
  case E_MUL: { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); if (x >> 60 || y >> 60) return m; u128 s = x * y; return s > m ? m : s; }
  case E_SHL: if (e->b->op == E_CONST && e->b->c < 60) { u128 x = ubound(e->a, depth - 1); if (x >> 60) return m; x <<= (unsigned)e->b->c; return x > m ? m : x; } return m;
  default: return m;
  }
}

Expr *ExprCtx::notE(Expr *a) {
  if (a->op == E_XOR && a->b->op == E_CONST && a->b->c == maskw(a->w)) return a->a;
  return bin(E_XOR, a, mkConst(maskw(a->w), a->w));
}

Expr *ExprCtx::bin(EOp op, Expr *a, Expr *b) {
  unsigned w = (op >= E_EQ && op <= E_SLE) ? 1 : a->w;
  bool ca = a->op == E_CONST, cb = b->op == E_CONST;
  if (ca && cb) return mkConst(fold(op, w, a->w, a->c, b->c, 0, 0), w);
  // canonical order: constant on the right for commutative ops
  switch (op) { case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
    if (ca || (!cb && a->id > b->id)) { std::swap(a, b); std::swap(ca, cb); } break; default: break; }
  u128 m = maskw(a->w);
  if ((op == E_ADD || op == E_SUB || ((op == E_MUL || op == E_SHL) && cb && (op == E_MUL || b->c < a->w))) && a->w >= 2 && a->w <= 64 && !a->hasFP && !b->hasFP) {
    Lin l; l.w = a->w; bool ok;
    if (op == E_MUL) ok = decomp(a, sextw(b->c, a->w), l); else if (op == E_SHL) ok = decomp(a, srep((i128)((u128)1 << (unsigned)b->c), a->w), l); else ok = decomp(a, 1, l) && decomp(b, op == E_ADD ? 1 : -1, l);
    if (ok) { normLin(l); return build(l); }
  }
  if (op >= E_EQ && op <= E_SLE) if (Expr *r = linCmp(op, a, b)) return r;
  switch (op) {
  case E_ADD:
    if (cb && b->c == 0) return a;
    if (cb && a->op == E_ADD && a->b->op == E_CONST) return bin(E_ADD, a->a, mkConst(a->b->c + b->c, a->w));
    if (b->op == E_SUB && b->b == a) return b->a;
    if (a->op == E_SUB && a->b == b) return a->a;
    break;
  case E_SUB:
    if (cb && b->c == 0) return a;
    if (a == b) return mkConst(0, a->w);
    if (cb) return bin(E_ADD, a, mkConst((u128)0 - b->c, a->w));
    if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    break;
  case E_MUL:
    if (cb) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) ++n; return bin(E_SHL, a, mkConst(n, a->w)); }
    }
    break;
  case E_UDIV: if (cb && b->c == 1) return a; if (cb && b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) ++n; return bin(E_LSHR, a, mkConst(n, a->w)); } break;
  case E_UREM: if (cb && b->c == 1) return mkConst(0, a->w); if (cb && b->c && (b->c & (b->c - 1)) == 0) return bin(E_AND, a, mkConst(b->c - 1, a->w)); if (cb && ubound(a) < b->c) return a; break;
  case E_AND:
    if (a == b) return a;
    if (cb) {
      if (b->c == 0) return b; if (b->c == m) return a;
      // low mask -> zext(extract)
      if ((b->c & (b->c + 1)) == 0) { unsigned n = 0; while ((b->c >> n) & 1) ++n; return zext(extract(a, 0, n), a->w); }
      if (a->op == E_AND && a->b->op == E_CONST) return bin(E_AND, a->a, mkConst(a->b->c & b->c, a->w));
    }
    if (a->w == 1 && ((a->op == E_XOR && a->a == b && a->b->op == E_CONST) || (b->op == E_XOR && b->a == a && b->b->op == E_CONST))) return mkConst(0, 1);
    break;
  case E_OR:
    if (a == b) return a;
    if (cb) { if (b->c == 0) return a; if (b->c == m) return b; }
    if (a->w == 1 && ((a->op == E_XOR && a->a == b && a->b->op == E_CONST) || (b->op == E_XOR && b->a == a && b->b->op == E_CONST))) return mkConst(1, 1);
    break;
  case E_XOR:
    if (a == b) return mkConst(0, a->w);
    if (cb && b->c == 0) return a;
    if (cb && a->op == E_XOR && a->b->op == E_CONST) return bin(E_XOR, a->a, mkConst(a->b->c ^ b->c, a->w));
    if (cb && a->w == 1) { // negation pushed into comparisons
      if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
      if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
      if (a->op == E_SLT) return bin(E_SLE, a->b, a->a);
      if (a->op == E_SLE) return bin(E_SLT, a->b, a->a);
    }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (cb && b->c == 0) return a;
    if (cb && op != E_ASHR && b->c >= a->w) return mkConst(0, a->w);
    if (ca && a->c == 0) return a;
    if (cb && op == E_LSHR && a->op == E_ZEXT) { if (b->c >= a->a->w) return mkConst(0, a->w); return zext(extract(a->a, (unsigned)b->c, a->a->w - (unsigned)b->c), a->w); }
    if (cb && op == E_LSHR) return zext(extract(a, (unsigned)b->c, a->w - (unsigned)b->c), a->w);
    if (cb && op == E_SHL && a->op == E_SHL && a->b->op == E_CONST && a->b->c + b->c < a->w) return bin(E_SHL, a->a, mkConst(a->b->c + b->c, a->w));
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->w == 1) { if (cb) return b->c ? a : notE(a); }
    if (cb) {
      if (ubound(a) < b->c) return mkConst(0, 1);
      if (a->op == E_ADD && a->b->op == E_CONST) return bin(E_EQ, a->a, mkConst(b->c - a->b->c, a->w));
      if (a->op == E_XOR && a->b->op == E_CONST) return bin(E_EQ, a->a, mkConst(b->c ^ a->b->c, a->w));
      if (a->op == E_ZEXT) { if (b->c > maskw(a->a->w)) return mkConst(0, 1); return bin(E_EQ, a->a, mkConst(b->c, a->a->w)); }
      if (a->op == E_SEXT) { u128 lo = b->c & maskw(a->a->w); if (((u128)sextw(lo, a->a->w) & m) != b->c) return mkConst(0, 1); return bin(E_EQ, a->a, mkConst(lo, a->a->w)); }
      if (a->op == E_CONCAT) return bin(E_AND, bin(E_EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)), bin(E_EQ, a->b, mkConst(b->c, a->b->w)));
      if (a->op == E_ITE) {
        if (a->b->op == E_CONST) { if (a->b->c == b->c) return bin(E_OR, a->a, bin(E_EQ, a->d, b)); return bin(E_AND, notE(a->a), bin(E_EQ, a->d, b)); }
        if (a->d->op == E_CONST) { if (a->d->c == b->c) return bin(E_OR, notE(a->a), bin(E_EQ, a->b, b)); return bin(E_AND, a->a, bin(E_EQ, a->b, b)); }
      }
      if (a->op == E_SHL && a->b->op == E_CONST) { unsigned s = (unsigned)a->b->c; if (b->c & maskw(s)) return mkConst(0, 1); return bin(E_EQ, extract(a->a, 0, a->w - s), mkConst(b->c >> s, a->w - s)); }
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned ww = std::max(a->a->w, b->a->w); return bin(E_EQ, zext(a->a, ww), zext(b->a, ww)); }
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
      if (a->op == E_ADD && a->b->op == E_CONST && b->op == E_ADD && b->b->op == E_CONST && a->b == b->b) return bin(E_EQ, a->a, b->a);
    }
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (cb && b->c == 0) return mkConst(0, 1);
    if (cb && b->c == 1) return bin(E_EQ, a, mkConst(0, a->w));
    if (ca && a->c == m) return mkConst(0, 1);
    if (ca && a->c == 0) return notE(bin(E_EQ, b, a));
    if (cb && ubound(a) < b->c) return mkConst(1, 1);
    if (ca && ubound(b) <= a->c) return mkConst(0, 1);
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned ww = std::max(a->a->w, b->a->w); return bin(E_ULT, zext(a->a, ww), zext(b->a, ww)); }
    if (a->op == E_ZEXT && cb && b->c <= maskw(a->a->w)) return bin(E_ULT, a->a, mkConst(b->c, a->a->w));
    if (b->op == E_ZEXT && ca && a->c <= maskw(b->a->w)) return bin(E_ULT, mkConst(a->c, b->a->w), b->a);
    break;
  case E_ULE:
    if (a == b) return mkConst(1, 1);
    if (cb && b->c == m) return mkConst(1, 1);
    if (ca && a->c == 0) return mkConst(1, 1);
    if (cb) return bin(E_ULT, a, mkConst(b->c + 1, a->w));
    if (ca) return bin(E_ULT, mkConst(a->c - 1, a->w), b);
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned ww = std::max(a->a->w, b->a->w); return bin(E_ULE, zext(a->a, ww), zext(b->a, ww)); }
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return mkConst(op == E_SLE, 1);
    // both sides known non-negative -> unsigned comparison
    u128 half = (u128)1 << (a->w - 1);
    if (ubound(a) < half && ubound(b) < half) return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
    if (a->op == E_SEXT && cb) { u128 lo = b->c & maskw(a->a->w); if (((u128)sextw(lo, a->a->w) & m) == b->c) return bin(op, a->a, mkConst(lo, a->a->w)); }
    if (b->op == E_SEXT && ca) { u128 lo = a->c & maskw(b->a->w); if (((u128)sextw(lo, b->a->w) & m) == a->c) return bin(op, mkConst(lo, b->a->w), b->a); }
    break; }
  default: break;
  }
  return mk(op, w, a, b);
}

Expr *ExprCtx::ite(Expr *c, Expr *t, Expr *f) {
  if (c->op == E_CONST) return c->c ? t : f;
  if (t == f) return t;
  if (c->op == E_XOR && c->w == 1 && c->b->op == E_CONST && c->b->c == 1) return ite(c->a, f, t);
  if (t->w == 1) {
    if (t->op == E_CONST && f->op == E_CONST) return t->c ? c : notE(c);
    if (t->op == E_CONST) return t->c ? bin(E_OR, c, f) : bin(E_AND, notE(c), f);
    if (f->op == E_CONST) return f->c ? bin(E_OR, notE(c), t) : bin(E_AND, c, t);
  }
  if (t->op == E_ITE && t->a == c) t = t->b;
  if (f->op == E_ITE && f->a == c) f = f->d;
  if (t == f) return t;
  if (f->op == E_ITE && f->b == t) return ite(bin(E_OR, c, f->a), t, f->d);
  if ((t->lin || f->lin) && t->w >= 2 && t->w <= 64 && !t->hasFP && !f->hasFP && !c->hasFP) {
    Lin lt, lf, d; 
    if (linOf(t, 1, lt) && linOf(f, 1, lf)) {
      normLin(lt); normLin(lf); d.w = t->w; d.c = srep(lt.c - lf.c, d.w); d.t = lt.t; for (auto &p : lf.t) d.t.push_back({p.first, srep(-p.second, d.w)}); normLin(d);
      if (d.t.size() < std::max(lt.t.size(), lf.t.size())) { // common part: f + ite(c, t - f, 0)
        // split d into its positive and negative share to keep intervals tight
        Expr *dd = build(d); Expr *k = (dd->op == E_ITE && dd->a == c) ? nullptr : dd->lin ? intern(E_ITE, t->w, c, dd, mkConst(0, t->w), 0) : ite(c, dd, mkConst(0, t->w));
        if (k) { Lin r; r.w = t->w; r.c = lf.c; r.t = lf.t; if (decomp(k, 1, r)) { normLin(r); return build(r); } }
      }
    }
  }
  return intern(E_ITE, t->w, c, t, f, 0);
}

Expr *ExprCtx::extract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == E_CONST) return mkConst(a->c >> lo, w);
  switch (a->op) {
  case E_EXTRACT: return extract(a->a, lo + (unsigned)a->c, w);
  case E_CONCAT:
    if (lo + w <= a->b->w) return extract(a->b, lo, w);
    if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
    return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
  case E_ZEXT:
    if (lo + w <= a->a->w) return extract(a->a, lo, w);
    if (lo >= a->a->w) return mkConst(0, w);
    return zext(extract(a->a, lo, a->a->w - lo), w);
  case E_SEXT:
    if (lo + w <= a->a->w) return extract(a->a, lo, w);
    if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
    break;
  case E_ITE:
    if (a->b->op == E_CONST || a->d->op == E_CONST) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
    break;
  case E_AND: case E_OR: case E_XOR:
    if (a->b->op == E_CONST) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
    break;
  case E_ADD: case E_SUB: case E_MUL:
    if (lo == 0 && (a->op != E_MUL || a->a->op == E_ZEXT || a->a->op == E_SEXT || a->a->op == E_CONCAT || a->b->op == E_CONST || a->b->op == E_ZEXT || a->b->op == E_SEXT))
      return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    break;
  case E_SHL:
    if (a->b->op == E_CONST && lo == 0 && a->b->c < w) return bin(E_SHL, extract(a->a, 0, w), mkConst(a->b->c, w));
    if (a->b->op == E_CONST) { unsigned s = (unsigned)a->b->c; if (lo >= s) return extract(a->a, lo - s, w); if (lo + w <= s) return mkConst(0, w); return concat(extract(a->a, 0, lo + w - s), mkConst(0, s - lo)); }
    break;
  default: break;
  }
  return intern(E_EXTRACT, w, a, nullptr, nullptr, lo);
}

Expr *ExprCtx::concat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->op == E_CONST && lo->op == E_CONST) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->op == E_CONST && hi->c == 0) return zext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(hi->a, (unsigned)lo->c, w);
  // extract of a vs. a itself (lo part complete)
  if (hi->op == E_EXTRACT && lo->op == E_CONCAT && lo->a->op == E_EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w) return concat(extract(hi->a, (unsigned)lo->a->c, hi->w + lo->a->w), lo->b);
  if (hi->op == E_EXTRACT && hi->a->lin && (unsigned)hi->c == lo->w && lo->op != E_CONST && extract(hi->a, 0, lo->w) == lo) return extract(hi->a, 0, w); // truncation was pushed into a sum
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->d, lo->d));
  if (hi->op == E_ITE && lo->op == E_CONST && hi->b->op == E_CONST && hi->d->op == E_CONST) return ite(hi->a, concat(hi->b, lo), concat(hi->d, lo));
  return intern(E_CONCAT, w, hi, lo, nullptr, 0);
}
// extension distributes over a linear expression that provably does not wrap
Expr *ExprCtx::ext(Expr *a, unsigned w, bool sg) {
  if (!a->lin || w > 64) return nullptr;
  if (!sg && !(a->iv && a->slo >= 0)) return nullptr;
  Lin l; if (!linOf(a, 1, l)) return nullptr;
  i128 lo, hi; if (!exactIv(l, lo, hi) || !fits(lo, hi, a->w)) return nullptr;
  Lin r; r.w = w; r.c = l.c; for (auto &p : l.t) r.t.push_back({sext(p.first, w), p.second});
  Lin q; q.w = w; q.c = r.c; for (auto &p : r.t) if (!decomp(p.first, p.second, q)) return nullptr;
  normLin(q); return build(q);
}
Expr *ExprCtx::zext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == E_CONST) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return zext(a->a, w);
  if (a->op == E_ITE && a->b->op == E_CONST && a->d->op == E_CONST) return ite(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  if (a->op == E_ITE && a->w > 1 && (a->b->op == E_CONST || a->d->op == E_CONST)) return ite(a->a, zext(a->b, w), zext(a->d, w));
  if (a->w == 1 && w > 1 && !a->hasFP) return intern(E_ITE, w, a, mkConst(1, w), mkConst(0, w), 0);
  if (Expr *r = ext(a, w, false)) return r;
  return intern(E_ZEXT, w, a, nullptr, nullptr, 0);
}
Expr *ExprCtx::sext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == E_CONST) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->op == E_SEXT) return sext(a->a, w);
  if (a->op == E_ZEXT) return zext(a->a, w);
  if (a->op == E_ITE && a->w > 1 && (a->b->op == E_CONST || a->d->op == E_CONST)) return ite(a->a, sext(a->b, w), sext(a->d, w));
  if (a->w > 1 && ubound(a) < ((u128)1 << (a->w - 1))) return zext(a, w);
  if (Expr *r = ext(a, w, true)) return r;
  return intern(E_SEXT, w, a, nullptr, nullptr, 0);
}

u128 ExprCtx::eval(Expr *e) {
  if (e->op == E_CONST) return e->c;
  if (e->epoch == epoch) return e->val;
  // iterative post-order to avoid deep recursion
  static std::vector<Expr *> st;
  size_t base = st.size();
  st.push_back(e);
  while (st.size() > base) {
    Expr *x = st.back();
    if (x->op == E_CONST || x->epoch == epoch) { st.pop_back(); continue; }
    if (x->op == E_VAR) { x->val = model[(size_t)x->c]; x->epoch = epoch; st.pop_back(); continue; }
    bool ready = true;
    if (x->op == E_ITE) {
      Expr *c = x->a;
      if (c->op != E_CONST && c->epoch != epoch) { st.push_back(c); continue; }
      Expr *s = (c->op == E_CONST ? c->c : c->val) ? x->b : x->d;
      if (s->op != E_CONST && s->epoch != epoch) { st.push_back(s); continue; }
      x->val = s->op == E_CONST ? s->c : s->val; x->epoch = epoch; st.pop_back(); continue;
    }
    for (Expr *k : {x->a, x->b, x->d}) if (k && k->op != E_CONST && k->epoch != epoch) { st.push_back(k); ready = false; }
    if (!ready) continue;
    auto V = [&](Expr *k) -> u128 { return !k ? 0 : k->op == E_CONST ? k->c : k->val; };
    x->val = fold(x->op, x->w, x->a ? x->a->w : 0, V(x->a), V(x->b), V(x->d), x->c, x->b ? x->b->w : 0);
    x->epoch = epoch;
    st.pop_back();
  }
  return e->val;
}

std::string exprStr(Expr *e, int depth) {
  static const char *nm[] = {"const","var","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fneg","fcmp","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","func1","func2"};
  char buf[64];
  if (e->op == E_CONST) { snprintf(buf, 64, "%llu:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == E_VAR) return X.vars[(size_t)e->c].name;
  if (depth == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == E_EXTRACT) { snprintf(buf, 64, "[%llu+%d]", (unsigned long long)e->c, e->w); s += buf; }
  if (e->op == E_FCMP) { snprintf(buf, 64, "[%llu]", (unsigned long long)e->c); s += buf; }
  for (Expr *k : {e->a, e->b, e->d}) if (k) s += " " + exprStr(k, depth - 1);
  return s + ")";
}
