#include "solver.h"
#include <unordered_set>
#include <unordered_map>
#include <minisat/core/Solver.h>
#include <z3++.h>
#include <time.h>
#include <set>
#include <algorithm>
using Minisat::Lit; using Minisat::Var; using Minisat::mkLit; using Minisat::toInt; using Minisat::toLit; using Minisat::lbool; using Minisat::vec;
SolverStats SS;
static u64 nowus() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static const u64 MAX_FP_TUPLES = getenv("KSE_FP_TUPLES") ? atoll(getenv("KSE_FP_TUPLES")) : 700;

typedef int L; // literal = 2*var+sign
static inline L neg(L l) { return l ^ 1; }

struct BVSolver::Impl {
  Minisat::Solver S;
  std::vector<std::vector<L>> lits; // per blasted expr
  std::vector<Expr *> blastedVars;
  L T, F;
  struct KH { size_t operator()(const std::array<int, 4> &k) const { u64 h = k[0]; for (int i = 1; i < 4; ++i) h = (h ^ (u64)(unsigned)k[i]) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
  std::unordered_map<std::array<int, 4>, L, KH> gates;
  z3::context *zc = nullptr;
  Impl() { Var v = S.newVar(); T = toInt(mkLit(v)); F = neg(T); S.addClause(mkLit(v)); }
  L nv() { return toInt(mkLit(S.newVar())); }
  Lit ml(L l) { return toLit(l); }
  void cl(L a) { S.addClause(ml(a)); }
  void cl(L a, L b) { S.addClause(ml(a), ml(b)); }
  void cl(L a, L b, L c) { S.addClause(ml(a), ml(b), ml(c)); }
  L And(L a, L b) {
    if (a == F || b == F || a == neg(b)) return F;
    if (a == T || a == b) return b;
    if (b == T) return a;
    if (a > b) std::swap(a, b);
    auto k = std::array<int, 4>{0, a, b, 0};
    auto it = gates.find(k); if (it != gates.end()) return it->second;
    L o = nv(); cl(neg(o), a); cl(neg(o), b); cl(o, neg(a), neg(b));
    gates[k] = o; return o;
  }
  L Or(L a, L b) { return neg(And(neg(a), neg(b))); }
  L Xor(L a, L b) {
    if (a == F) return b; if (b == F) return a; if (a == T) return neg(b); if (b == T) return neg(a);
    if (a == b) return F; if (a == neg(b)) return T;
    int s = (a & 1) ^ (b & 1); a &= ~1; b &= ~1;
    if (a > b) std::swap(a, b);
    auto k = std::array<int, 4>{1, a, b, 0};
    auto it = gates.find(k); if (it != gates.end()) return it->second ^ s;
    L o = nv(); cl(neg(o), a, b); cl(neg(o), neg(a), neg(b)); cl(o, neg(a), b); cl(o, a, neg(b));
    gates[k] = o; return o ^ s;
  }
  L Mux(L c, L t, L f) {
    if (c == T) return t; if (c == F) return f; if (t == f) return t;
    if (c & 1) { c ^= 1; std::swap(t, f); }
    if (t == T) return Or(c, f); if (t == F) return And(neg(c), f);
    if (f == T) return Or(neg(c), t); if (f == F) return And(c, t);
    if (t == neg(f)) return neg(Xor(c, t));
    if (t == c) return Or(c, f); if (t == neg(c)) return And(neg(c), f);
    if (f == c) return And(c, t); if (f == neg(c)) return Or(neg(c), t);
    auto k = std::array<int, 4>{2, c, t, f};
    auto it = gates.find(k); if (it != gates.end()) return it->second;
    L o = nv(); cl(neg(c), neg(t), o); cl(neg(c), t, neg(o)); cl(c, neg(f), o); cl(c, f, neg(o)); cl(neg(t), neg(f), o); cl(t, f, neg(o));
    gates[k] = o; return o;
  }
  typedef std::vector<L> V;
  V cst(u128 v, unsigned w) { V r(w); for (unsigned i = 0; i < w; ++i) r[i] = ((v >> i) & 1) ? T : F; return r; }
  V addc(const V &a, const V &b, L c, L *cout = nullptr) {
    V r(a.size());
    for (size_t i = 0; i < a.size(); ++i) { L x = Xor(a[i], b[i]); r[i] = Xor(x, c); c = Mux(x, c, a[i]); }
    if (cout) *cout = c;
    return r;
  }
  V inv(V a) { for (L &l : a) l = neg(l); return a; }
  V negv(const V &a) { return addc(inv(a), cst(0, a.size()), T); }
  L ult(const V &a, const V &b) { // a<b : no carry of a + ~b + 1
    L c = T; for (size_t i = 0; i < a.size(); ++i) { L x = Xor(a[i], neg(b[i])); c = Mux(x, c, a[i]); } return neg(c);
  }
  L eqv(const V &a, const V &b) { L r = T; for (size_t i = 0; i < a.size(); ++i) r = And(r, neg(Xor(a[i], b[i]))); return r; }
  V muxv(L c, const V &a, const V &b) { V r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = Mux(c, a[i], b[i]); return r; }
  V mul(const V &a, const V &b) {
    size_t w = a.size();
    // use as multiplier the operand with fewer non-constant bits
    auto cnt = [&](const V &v) { int n = 0; for (L l : v) n += l != F; return n; };
    const V &x = cnt(a) < cnt(b) ? b : a, &y = cnt(a) < cnt(b) ? a : b;
    V acc = cst(0, w);
    for (size_t i = 0; i < w; ++i) if (y[i] != F) {
      V p(w, F); for (size_t j = i; j < w; ++j) p[j] = And(x[j - i], y[i]);
      acc = addc(acc, p, F);
    }
    return acc;
  }
  void udivrem(const V &a, const V &b, V &q, V &r) {
    size_t w = a.size(); q = cst(0, w);
    V rem = cst(0, w + 1), bb = b; bb.push_back(F);
    for (size_t i = w; i-- > 0;) {
      for (size_t j = w; j > 0; --j) rem[j] = rem[j - 1];
      rem[0] = a[i];
      L co; V d = addc(rem, inv(bb), T, &co);
      q[i] = co; rem = muxv(co, d, rem);
    }
    // SMT-LIB semantics for b == 0: q = ~0 (holds by construction), r = a (holds by construction)
    r.assign(rem.begin(), rem.begin() + w);
  }
  V shift(const V &a, const V &b, int kind) { // 0 shl 1 lshr 2 ashr
    size_t w = a.size(); V r = a; L fill = kind == 2 ? a[w - 1] : F;
    unsigned st = 0; while ((1u << st) < w) ++st;
    for (unsigned s = 0; s < st && s < b.size(); ++s) {
      V n(w); size_t k = (size_t)1 << s;
      for (size_t i = 0; i < w; ++i) { L src; if (kind == 0) src = i >= k ? r[i - k] : F; else src = i + k < w ? r[i + k] : fill; n[i] = Mux(b[s], src, r[i]); }
      r = n;
    }
    L big = F; for (size_t s = st; s < b.size(); ++s) big = Or(big, b[s]);
    if (((size_t)1 << st) != w) { V bl(b.begin(), b.begin() + std::min<size_t>(st, b.size())); bl.resize(st + 1, F); big = Or(big, neg(ult(bl, cst(w, st + 1)))); }
    for (auto &l : r) l = Mux(big, fill, l);
    return r;
  }
  const V &blast(Expr *e0) {
    std::vector<Expr *> st{e0};
    while (!st.empty()) {
      Expr *e = st.back();
      if (e->lits >= 0) { st.pop_back(); continue; }
      bool rdy = true;
      for (Expr *k : {e->a, e->b, e->d}) if (k && k->lits < 0) { st.push_back(k); rdy = false; }
      if (!rdy) continue;
      V r; unsigned w = e->w;
      auto A = [&]() -> const V & { return lits[e->a->lits]; };
      auto B = [&]() -> const V & { return lits[e->b->lits]; };
      switch (e->op) {
      case E_CONST: r = cst(e->c, w); break;
      case E_VAR: r.resize(w); for (auto &l : r) l = nv(); blastedVars.push_back(e); break;
      case E_ADD: r = addc(A(), B(), F); break;
      case E_SUB: r = addc(A(), inv(B()), T); break;
      case E_MUL: r = mul(A(), B()); break;
      case E_UDIV: { V q, m; udivrem(A(), B(), q, m); r = q; break; }
      case E_UREM: { V q, m; udivrem(A(), B(), q, m); r = m; break; }
      case E_SDIV: case E_SREM: {
        V a = A(), b = B(); L sa = a[w - 1], sb = b[w - 1];
        V ua = muxv(sa, negv(a), a), ub = muxv(sb, negv(b), b), q, m; udivrem(ua, ub, q, m);
        if (e->op == E_SDIV) { L s = Xor(sa, sb); r = muxv(s, negv(q), q); } else r = muxv(sa, negv(m), m);
        break; }
      case E_AND: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = And(A()[i], B()[i]); break;
      case E_OR: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Or(A()[i], B()[i]); break;
      case E_XOR: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Xor(A()[i], B()[i]); break;
      case E_SHL: r = shift(A(), B(), 0); break;
      case E_LSHR: r = shift(A(), B(), 1); break;
      case E_ASHR: r = shift(A(), B(), 2); break;
      case E_EQ: r = {eqv(A(), B())}; break;
      case E_ULT: r = {ult(A(), B())}; break;
      case E_ULE: r = {neg(ult(B(), A()))}; break;
      case E_SLT: case E_SLE: { V a = A(), b = B(); std::swap(a.back(), b.back()); r = {e->op == E_SLT ? ult(a, b) : neg(ult(b, a))}; break; }
      case E_ITE: { L c = A()[0]; V t = B(), f = lits[e->d->lits]; r = muxv(c, t, f); break; }
      case E_CONCAT: r = B(); r.insert(r.end(), A().begin(), A().end()); break;
      case E_EXTRACT: r.assign(A().begin() + (size_t)e->c, A().begin() + (size_t)e->c + w); break;
      case E_ZEXT: r = A(); r.resize(w, F); break;
      case E_SEXT: { r = A(); L s = r.back(); r.resize(w, s); break; }
      default: fprintf(stderr, "blast: unexpected op %d\n", e->op); abort();
      }
      e->lits = (int)lits.size(); lits.push_back(std::move(r));
      st.pop_back();
    }
    return lits[e0->lits];
  }
  void model(std::vector<u128> &m) {
    m = X.model;
    for (Expr *v : blastedVars) {
      u128 x = 0; const V &l = lits[v->lits];
      for (unsigned i = 0; i < v->w; ++i) { lbool b = S.modelValue(ml(l[i])); if (b == l_True) x |= (u128)1 << i; }
      m[(size_t)v->c] = x;
    }
  }
};

BVSolver::BVSolver() : I(new Impl) {}

void BVSolver::add(Expr *e) {
  pc.push_back(e);
  Expr *l = lower(e);
  if (!l) return; // engine must concretise first (fpStuck)
  // split conjunctions
  std::vector<Expr *> st{l};
  while (!st.empty()) {
    Expr *x = st.back(); st.pop_back();
    if (x->op == E_AND && x->w == 1) { st.push_back(x->a); st.push_back(x->b); continue; }
    I->cl(I->blast(x)[0]);
  }
}

SatRes (BVSolver::check)(Expr *e, std::vector<u128> &nm) {
  u64 t0 = nowus();
  Expr *l = lower(e);
  if (!l) return R_UNKNOWN;
  SS.queries++;
  vec<Lit> as; as.push(toLit(I->blast(l)[0]));
  I->S.setConfBudget(400000);
  lbool r = I->S.solveLimited(as);
  I->S.budgetOff();
  SatRes res = r == l_True ? R_SAT : r == l_False ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT) { I->model(nm); SS.sat++; } else if (res == R_UNSAT) SS.unsat++;
  SS.us += nowus() - t0;
  if (res == R_UNKNOWN) { res = checkZ3(e, 80000000, &nm); if (res == R_UNKNOWN) SS.unknown++; }
  return res;
}

// ---- FP lowering by enumeration of the feasible values of the integer leaves ----
static bool isFPop(EOp o) { return o >= E_FADD; }
static void collectLeaves(Expr *e, std::set<Expr *> &seen, std::vector<Expr *> &leaves) {
  if (e->op == E_CONST || !seen.insert(e).second) return;
  if (!e->hasFP) { leaves.push_back(e); return; }
  if (isFPop(e->op) || e->op == E_ITE || e->op == E_CONCAT || e->op == E_EXTRACT || e->op == E_ZEXT) {
    for (Expr *k : {e->a, e->b, e->d}) if (k) collectLeaves(k, seen, leaves);
    return;
  }
  leaves.push_back(e); // integer expression that itself contains FP below: lower it recursively
}
// variables below e, memoised; empty optional if there are more than MAX_SUP bits of them
static const unsigned MAX_SUP = getenv("KSE_FP_BITS") ? atoi(getenv("KSE_FP_BITS")) : 12;
struct Sup { std::vector<Expr *> v, wide; bool big = false; };
static const Sup &support(Expr *e) {
  static std::unordered_map<Expr *, Sup> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  std::unordered_set<Expr *> seen; std::vector<Expr *> st{e}; Sup s; unsigned bits = 0; std::set<u128> ids;
  while (!st.empty()) {
    Expr *x = st.back(); st.pop_back(); if (x->op == E_CONST || !seen.insert(x).second) continue;
    if (x->op == E_VAR) { if (ids.insert(x->c).second) { if (x->w > MAX_SUP) { s.wide.push_back(x); continue; } s.v.push_back(x); bits += x->w; if (bits > MAX_SUP) { s.big = true; break; } } continue; }
    auto j = memo.find(x); if (j != memo.end()) { if (j->second.big) { s.big = true; break; } for (Expr *k : j->second.v) st.push_back(k); for (Expr *k : j->second.wide) st.push_back(k); continue; }
    for (Expr *k : {x->a, x->b, x->d}) if (k) st.push_back(k);
  }
  return memo[e] = std::move(s);
}
// does the value of e under the current assignment depend on a wide variable (following selected arms only)?
static bool reaches(Expr *e, std::unordered_map<Expr *, bool> &memo) {
  if (e->op == E_CONST) return false;
  if (e->op == E_VAR) return e->w > MAX_SUP;
  if (support(e).wide.empty() && !support(e).big) return false;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false;
  if (e->op == E_ITE) r = reaches(e->a, memo) || reaches(X.eval(e->a) ? e->b : e->d, memo);
  else for (Expr *k : {e->a, e->b, e->d}) if (k && reaches(k, memo)) { r = true; break; }
  return memo[e] = r;
}
// tabulate e over all values of its variables (few bits); false: too many bits or tuples
static bool tabulate(Expr *e, const std::vector<Expr *> &leaves, const std::vector<Expr *> &pc, std::vector<std::pair<std::vector<u128>, u128>> &rows) {
  Sup s = support(e); if (s.big) return false;
  unsigned bits = 0; for (Expr *v : s.v) bits += v->w;
  std::set<Expr *> vs(s.v.begin(), s.v.end()); std::vector<Expr *> rel;
  for (bool again = true; again;) { // add the variables of connected path conditions while there is room
    again = false;
    for (Expr *p : pc) { const Sup &q = support(p); if (q.big) continue; bool touch = false; unsigned extra = 0; for (Expr *v : q.v) if (vs.count(v)) touch = true; else extra += v->w;
      if (touch && extra && bits + extra <= MAX_SUP - 2) { for (Expr *v : q.v) if (vs.insert(v).second) s.v.push_back(v); bits += extra; again = true; } }
  }
  for (Expr *p : pc) { const Sup &q = support(p); if (q.big) continue; bool sub = true; for (Expr *v : q.v) if (!vs.count(v)) { sub = false; break; } if (sub) rel.push_back(p); }
  std::vector<u128> saved = X.model, m = saved; std::map<std::vector<u128>, u128> tab; bool ok = true; std::unordered_map<Expr *, bool> reached;
  for (u64 i = 0; i < (1ull << bits) && ok; ++i) {
    u64 r = i; for (Expr *v : s.v) { size_t k = (size_t)v->c; if (m.size() <= k) m.resize(k + 1, 0); m[k] = r & ((1ull << v->w) - 1); r >>= v->w; }
    X.setModel(m); bool feas = true; reached.clear(); for (Expr *p : rel) if (!X.eval(p) && (support(p).wide.empty() || !reaches(p, reached))) { feas = false; break; }
    if (!feas) continue;
    std::vector<u128> row; for (Expr *l : leaves) row.push_back(X.eval(l));
    if (s.wide.size()) { reached.clear(); bool w = reaches(e, reached); for (Expr *l : leaves) w = w || reaches(l, reached); if (w) { ok = false; break; } }
    u128 res = X.eval(e); auto ins = tab.insert({row, res}); if (!ins.second && ins.first->second != res) ok = false;
    if (tab.size() > MAX_FP_TUPLES) ok = false;
  }
  X.setModel(saved); if (!ok) return false;
  for (auto &p : tab) { rows.push_back(p); SS.fpEntries++; }
  return true;
}
Expr *BVSolver::lower(Expr *e0) {
  if (!e0->hasFP) return e0;
  if (e0->lowered) return e0->lowered;
  if (isFPop(e0->op)) {
    std::set<Expr *> seen; std::vector<Expr *> leaves0, leaves;
    collectLeaves(e0, seen, leaves0);
    std::set<Expr *> ls;
    for (Expr *l : leaves0) { Expr *ll = lower(l); if (!ll) return nullptr; if (ll->op != E_CONST && ls.insert(ll).second) leaves.push_back(ll); }
    if (!isFPop(E_FADD)) abort();
    SS.fpTables++;
    std::vector<std::pair<std::vector<u128>, u128>> rows;
    bool over = false;
    if (!tabulate(e0, leaves, pc, rows)) {
    // enumerate feasible tuples
    L act = I->nv();
    std::vector<u128> saved = X.model;
    while (true) {
      vec<Lit> as; as.push(toLit(act));
      for (Expr *l : leaves) I->blast(l);
      SS.queries++;
      if (!I->S.solve(as)) break;
      SS.sat++;
      std::vector<u128> m; I->model(m); X.setModel(m);
      std::vector<u128> row; for (Expr *l : leaves) row.push_back(X.eval(l));
      u128 res = X.eval(e0);
      rows.push_back({row, res}); SS.fpEntries++;
      L eqall = I->T;
      for (size_t i = 0; i < leaves.size(); ++i) eqall = I->And(eqall, I->eqv(I->blast(leaves[i]), I->cst(row[i], leaves[i]->w)));
      I->cl(neg(act), neg(eqall));
      if (rows.size() > MAX_FP_TUPLES) { over = true; break; }
    }
    X.setModel(saved);
    I->cl(neg(act));
    }
    if (over) { fpStuck = true; fpStuckLeaf = leaves.empty() ? nullptr : leaves[0]; size_t bw = 1000; for (Expr *l : leaves) if (l->w < bw) { bw = l->w; fpStuckLeaf = l; } return nullptr; }
    // group rows by result
    std::map<u128, std::vector<std::vector<u128> *>> byRes;
    for (auto &r : rows) byRes[r.second].push_back(&r.first);
    Expr *out = nullptr;
    std::vector<std::pair<size_t, u128>> order; for (auto &p : byRes) order.push_back({p.second.size(), p.first});
    std::sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.first > b.first; });
    if (order.empty()) return e0->lowered = X.mkConst(0, e0->w); // PC unsat
    out = X.mkConst(order[0].second, e0->w); // default: largest group
    for (size_t i = 1; i < order.size(); ++i) {
      Expr *any = X.mkConst(0, 1);
      for (auto *row : byRes[order[i].second]) {
        Expr *all = X.mkConst(1, 1);
        for (size_t j = 0; j < leaves.size(); ++j) all = X.bin(E_AND, all, X.eq(leaves[j], X.mkConst((*row)[j], leaves[j]->w)));
        any = X.bin(E_OR, any, all);
      }
      out = X.ite(any, X.mkConst(order[i].second, e0->w), out);
    }
    return e0->lowered = out;
  }
  Expr *a = e0->a ? lower(e0->a) : nullptr, *b = e0->b ? lower(e0->b) : nullptr, *d = e0->d ? lower(e0->d) : nullptr;
  if ((e0->a && !a) || (e0->b && !b) || (e0->d && !d)) return nullptr;
  Expr *r;
  switch (e0->op) {
  case E_ITE: r = X.ite(a, b, d); break;
  case E_CONCAT: r = X.concat(a, b); break;
  case E_EXTRACT: r = X.extract(a, (unsigned)e0->c, e0->w); break;
  case E_ZEXT: r = X.zext(a, e0->w); break;
  case E_SEXT: r = X.sext(a, e0->w); break;
  default: r = X.bin(e0->op, a, b); break;
  }
  return e0->lowered = r;
}

// ---- Z3 ----
static z3::expr toZ3(z3::context &c, Expr *e0) {
  static std::unordered_map<Expr *, z3::expr> memo;
  std::vector<Expr *> st{e0};
  while (!st.empty()) {
    Expr *e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    bool rdy = true;
    for (Expr *k : {e->a, e->b, e->d}) if (k && !memo.count(k)) { st.push_back(k); rdy = false; }
    if (!rdy) continue;
    auto G = [&](Expr *k) { return memo.at(k); };
    auto b1 = [&](z3::expr b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); };
    z3::expr r(c);
    switch (e->op) {
    case E_CONST: {
      if (e->w <= 64) r = c.bv_val((uint64_t)e->c, e->w);
      else r = z3::concat(c.bv_val((uint64_t)(e->c >> 64), e->w - 64), c.bv_val((uint64_t)e->c, 64));
      break; }
    case E_VAR: r = c.bv_const(("v" + std::to_string((u64)e->c)).c_str(), e->w); break;
    case E_ADD: r = G(e->a) + G(e->b); break;
    case E_SUB: r = G(e->a) - G(e->b); break;
    case E_MUL: r = G(e->a) * G(e->b); break;
    case E_UDIV: r = z3::udiv(G(e->a), G(e->b)); break;
    case E_UREM: r = z3::urem(G(e->a), G(e->b)); break;
    case E_SDIV: r = G(e->a) / G(e->b); break;
    case E_SREM: r = z3::srem(G(e->a), G(e->b)); break;
    case E_AND: r = G(e->a) & G(e->b); break;
    case E_OR: r = G(e->a) | G(e->b); break;
    case E_XOR: r = G(e->a) ^ G(e->b); break;
    case E_SHL: r = z3::shl(G(e->a), G(e->b)); break;
    case E_LSHR: r = z3::lshr(G(e->a), G(e->b)); break;
    case E_ASHR: r = z3::ashr(G(e->a), G(e->b)); break;
    case E_EQ: r = b1(G(e->a) == G(e->b)); break;
    case E_ULT: r = b1(z3::ult(G(e->a), G(e->b))); break;
    case E_ULE: r = b1(z3::ule(G(e->a), G(e->b))); break;
    case E_SLT: r = b1(z3::slt(G(e->a), G(e->b))); break;
    case E_SLE: r = b1(z3::sle(G(e->a), G(e->b))); break;
    case E_ITE: r = z3::ite(G(e->a) == c.bv_val(1, 1), G(e->b), G(e->d)); break;
    case E_CONCAT: r = z3::concat(G(e->a), G(e->b)); break;
    case E_EXTRACT: r = G(e->a).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); break;
    case E_ZEXT: r = z3::zext(G(e->a), e->w - e->a->w); break;
    case E_SEXT: r = z3::sext(G(e->a), e->w - e->a->w); break;
    default: fprintf(stderr, "toZ3: op %d\n", e->op); abort();
    }
    memo.emplace(e, r);
    st.pop_back();
  }
  return memo.at(e0);
}

SatRes (BVSolver::checkZ3)(Expr *e, u64 rlimit, std::vector<u128> *model) {
  u64 t0 = nowus();
  if (!I->zc) I->zc = new z3::context;
  z3::context &c = *I->zc;
  SatRes res = R_UNKNOWN;
  try {
    z3::solver s(c, "QF_BV");
    z3::params p(c); p.set("rlimit", (unsigned)std::min<u64>(rlimit, 4000000000u)); s.set(p);
    for (Expr *q : pc) { Expr *l = lower(q); if (!l) return R_UNKNOWN; s.add(toZ3(c, l) == c.bv_val(1, 1)); }
    if (e) { Expr *l = lower(e); if (!l) return R_UNKNOWN; s.add(toZ3(c, l) == c.bv_val(1, 1)); }
    auto r = s.check();
    res = r == z3::sat ? R_SAT : r == z3::unsat ? R_UNSAT : R_UNKNOWN;
    if (res == R_SAT && model) {
      *model = X.model; z3::model m = s.get_model();
      for (size_t i = 0; i < X.vars.size(); ++i) {
        z3::expr v = m.eval(c.bv_const(("v" + std::to_string(i)).c_str(), X.vars[i].w), true);
        u128 x = 0; std::string d = Z3_get_numeral_string(c, v); for (char ch : d) x = x * 10 + (ch - '0');
        (*model)[i] = x;
      }
    }
  } catch (z3::exception &ex) { res = R_UNKNOWN; }
  SS.z3++; if (res == R_UNKNOWN) SS.z3unknown++;
  SS.z3us += nowus() - t0;
  return res;
}
std::string (BVSolver::smt2)(Expr *e) {
  if (!I->zc) I->zc = new z3::context;
  z3::context &c = *I->zc; z3::solver s(c, "QF_BV");
  for (Expr *q : pc) { Expr *l = lower(q); if (l) s.add(toZ3(c, l) == c.bv_val(1, 1)); }
  if (e) { Expr *l = lower(e); if (l) s.add(toZ3(c, l) == c.bv_val(1, 1)); }
  return s.to_smt2();
}
