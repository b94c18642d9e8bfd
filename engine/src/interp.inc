// the interpreter proper
static const u64 VSTACK = 1ull << 22; // Val slots per fiber
static int newFiber() {
  if (fibers.size() >= MAX_FIBERS) unsupported("too many fibers");
  int id = fibers.size(); fibers.push_back({}); Fiber &f = fibers.back();
  f.vbase = (Val *)mmap(nullptr, VSTACK * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  f.stkLo = ARENA + ARENA_SZ - STACK_REGION * (id + 1); f.stkTop = f.stkLo + 64; f.state = 0; f.exObj = 0; f.spinIns = nullptr; f.spinRep = 0; f.spinAddr = 0;
  return id;
}
static u64 stackAlloc(Fiber &fb, u64 size, u64 align) {
  if (align < 16) align = 16;
  u64 a = (fb.stkTop + align - 1) & ~(align - 1);
  fb.stkTop = ((a + size + 15) & ~15ull) + 16;
  if (fb.stkTop > fb.stkLo + STACK_REGION) unsupported("stack overflow");
  u32 id = newObj(a, size, K_STACK); fb.stk.push_back(id); fb.frames.back().nStk++; return a;
}
static void popObj(Fiber &fb) {
  u32 id = fb.stk.back(); fb.stk.pop_back(); Obj &o = objs[id];
  u64 g0 = (o.base - ARENA) >> 4, g1 = (o.base + std::max<u64>(o.size, 1) - 1 - ARENA) >> 4;
  memset(gran + g0, 0, (g1 - g0 + 1) * 4); memset(shb + (o.base - ARENA), 0, o.size);
  freeObjIds.push_back(id);
}
static void popFrame(Fiber &fb) {
  Frame &fr = fb.frames.back();
  for (u32 i = 0; i < fr.nStk; ++i) popObj(fb);
  fb.stkTop = fr.stkTop; fb.frames.pop_back();
}
static Frame &pushFrame(Fiber &fb, FC *f, CallInfo *ci) {
  prepare(f);
  if (!f->ready) unsupported("call of external function " + demangle(f->name) + " (" + f->name + ")");
  Val *fp = fb.vbase; if (!fb.frames.empty()) { auto &p = fb.frames.back(); fp = p.fp + p.f->nslots; }
  if (fp + f->nslots + 16 > fb.vbase + VSTACK || fb.frames.size() > 20000) unsupported("recursion too deep");
  if (f->idx < sizeof(SH->fnUsed)) SH->fnUsed[f->idx] = 1;
  fb.frames.push_back(Frame{f, 0, fp, ci, fb.stkTop, 0});
  return fb.frames.back();
}
static void pushCall(int fib, FC *f, const std::vector<Val> &args) {
  Fiber &fb = fibers[fib]; Frame &fr = pushFrame(fb, f, nullptr);
  for (size_t i = 0; i < args.size() && (int)i < f->nargs; ++i) fr.fp[i] = args[i];
}
static Val tmpVals[4096];
static inline void takeEdge(Frame &fr, int e) {
  Edge &E = fr.f->edges[e]; size_t n = E.copies.size(); Val *fp = fr.fp; Val *cs = fr.f->consts.data();
#define RV(x) ((x) >= 0 ? fp[x] : cs[~(x)])
  if (n == 1) { fp[E.copies[0].first] = RV(E.copies[0].second); }
  else if (n) { for (size_t i = 0; i < n; ++i) { i32 s = E.copies[i].second; tmpVals[i] = RV(s); } for (size_t i = 0; i < n; ++i) fp[E.copies[i].first] = tmpVals[i]; }
#undef RV
  fr.pc = E.target;
}
// unwind the current fiber with the exception throwObj
static void doUnwind() {
  Fiber &fb = fibers[cur]; u64 obj = throwObj; u64 ti = exInfo[obj].tinfo;
  std::string where = stackStr(6);
  bool first = true;
  while (true) {
    if (fb.frames.empty()) violation("exception", "uncaught exception of type " + tiName(ti) + " thrown in " + where);
    Frame &fr = fb.frames.back();
    CallInfo *ci = nullptr;
    Ins &in = fr.f->code[fr.pc]; if (in.op == O_CALL) ci = (CallInfo *)in.p;
    if (ci && ci->unwind >= 0 && (in.op == O_CALL)) {
      Edge &E = fr.f->edges[ci->unwind]; Ins &lp = fr.f->code[E.target];
      if (lp.op != O_LPAD) unsupported("unwind target without landing pad");
      auto *li = (LpadInfo *)lp.p; u64 sel = 0; bool enter = li->cleanup;
      for (auto &c : li->clauses) { if (!c.first) { continue; } if (c.second == 0 || tiIsA(ti, c.second)) { sel = c.second ? (u32)((c.second - ARENA) / 16) : 1; enter = true; break; } }
      if (enter) { takeEdge(fr, ci->unwind); fr.fp[lp.d] = CV(obj); fr.fp[lp.d + 1] = CV(sel); fr.pc++; return; }
    }
    (void)first;
    popFrame(fb);
  }
}
static void wakeAndPick(bool mustSwitch) {
  // wake blocked fibers whose condition holds
  for (size_t i = 0; i < fibers.size(); ++i) {
    Fiber &f = fibers[i]; if (f.state != 2) continue;
    bool ok = false;
    if (f.blockKind == 1) ok = fibers[f.blockAddr].state == 1;
    else if (f.blockKind == 2) { Val v = loadC(f.blockAddr, 32); ok = CC(v) != 0; }
    else if (f.blockKind == 3) ok = mutexOwner[f.blockAddr] == 0;
    if (ok) f.state = 0;
  }
  std::vector<int> run; for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i].state == 0) run.push_back(i);
  if (run.empty()) violation("deadlock", "no thread or rank can make progress");
  if (!mtMode) { // round robin
    for (size_t k = 1; k <= fibers.size(); ++k) { int i = (cur + k) % fibers.size(); if (fibers[i].state == 0) { cur = i; return; } }
  }
  // nondeterministic choice
  size_t n = run.size(); u64 pick = 0, fv = 0;
  if (n > 1) {
    if (nextReplay(fv)) { pick = fv < n ? fv : 0; }
    else { SH->schedChoices++; for (; pick + 1 < n; ++pick) if (!forkPath()) break; }
    symCalls.push_back({"sched", 64, nullptr, pick});
  }
  cur = run[pick]; (void)mustSwitch;
}
// scheduling point before an atomic operation of the running fiber; true if another fiber was chosen
static bool schedPoint(const void *ins, const Val &addr) {
  int nr = 0; for (auto &f : fibers) if (f.state == 0) nr++;
  if (nr < 2) return false;
  Fiber &me = fibers[cur]; u64 ad = addr.e ? ~0ull : addr.c;
  if (me.spinIns == ins && me.spinAddr == ad) { if (++me.spinRep >= SPIN_LIMIT) { // a busy-waiting fiber lets the next one run
    me.spinRep = 0; for (size_t k = 1; k < fibers.size(); ++k) { int i = (cur + k) % fibers.size(); if (fibers[i].state == 0) { cur = i; return true; } } } }
  else { me.spinIns = ins; me.spinAddr = ad; me.spinRep = 0; }
  if (preemptBudget <= 0) return false;
  u64 v = 0, fv = 0; bool preempt = false;
  if (nextReplay(fv)) preempt = fv != 0; else { SH->schedChoices++; preempt = forkPath(); }
  symCalls.push_back({"preempt", 64, nullptr, (u64)preempt}); (void)v;
  if (!preempt) return false;
  preemptBudget--;
  // pick among the others
  std::vector<int> run; for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i].state == 0 && (int)i != cur) run.push_back(i);
  u64 pick = 0; if (run.size() > 1) { if (nextReplay(fv)) pick = fv < run.size() ? fv : 0; else { for (; pick + 1 < run.size(); ++pick) if (!forkPath()) break; } symCalls.push_back({"sched", 64, nullptr, pick}); }
  cur = run[pick]; return true;
}
static u64 intrEval1(unsigned id, unsigned w, u64 a) {
  switch (id) {
  case Intrinsic::ctpop: return __builtin_popcountll(a & mk64(w));
  case Intrinsic::ctlz: { a &= mk64(w); return a ? __builtin_clzll(a) - (64 - w) : w; }
  case Intrinsic::cttz: { a &= mk64(w); return a ? __builtin_ctzll(a) : w; }
  case Intrinsic::bswap: return w == 16 ? __builtin_bswap16(a) : w == 32 ? __builtin_bswap32(a) : __builtin_bswap64(a);
  case Intrinsic::bitreverse: { u64 r = 0; for (unsigned i = 0; i < w; ++i) if (a >> i & 1) r |= 1ull << (w - 1 - i); return r; }
  case Intrinsic::abs: return (sx(a, w) < 0 ? -a : a) & mk64(w);
  } return 0;
}
static Expr *intrSym1(unsigned id, unsigned w, Expr *a) {
  switch (id) {
  case Intrinsic::ctpop: { // adder tree
    std::vector<Expr *> v; for (unsigned i = 0; i < w; ++i) v.push_back(X.zext(X.extract(a, i, 1), w));
    while (v.size() > 1) { std::vector<Expr *> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(X.bin(E_ADD, v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v = n; } return v[0]; }
  case Intrinsic::ctlz: { Expr *r = X.mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = X.ite(X.extract(a, i, 1), X.mkConst(w - 1 - i, w), r); return r; }
  case Intrinsic::cttz: { Expr *r = X.mkConst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(a, i, 1), X.mkConst(i, w), r); return r; }
  case Intrinsic::bswap: { Expr *r = X.extract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(a, i, 8)); return r; }
  case Intrinsic::bitreverse: { Expr *r = X.extract(a, 0, 1); for (unsigned i = 1; i < w; ++i) r = X.concat(r, X.extract(a, i, 1)); return r; }
  case Intrinsic::abs: return X.ite(X.bin(E_SLT, a, X.mkConst(0, w)), X.bin(E_SUB, X.mkConst(0, w), a), a);
  } return nullptr;
}
static Val binop(unsigned op, unsigned w, const Val &x, const Val &y) {
  static const EOp m[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_UREM, E_SDIV, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
  return EV(X.bin(m[op - O_ADD], toE(x, w), toE(y, w)));
}
static Val intr2(unsigned id, unsigned w, const Val &A, const Val &B) {
  Expr *a = toE(A, w), *b = toE(B, w);
  switch (id) {
  case Intrinsic::umin: return EV(X.ite(X.bin(E_ULT, a, b), a, b));
  case Intrinsic::umax: return EV(X.ite(X.bin(E_ULT, a, b), b, a));
  case Intrinsic::smin: return EV(X.ite(X.bin(E_SLT, a, b), a, b));
  case Intrinsic::smax: return EV(X.ite(X.bin(E_SLT, a, b), b, a));
  case Intrinsic::uadd_sat: { Expr *s = X.bin(E_ADD, a, b); return EV(X.ite(X.bin(E_ULT, s, a), X.mkConst(maskw(w), w), s)); }
  case Intrinsic::usub_sat: return EV(X.ite(X.bin(E_ULT, a, b), X.mkConst(0, w), X.bin(E_SUB, a, b)));
  default: unsupported("saturating signed intrinsic");
  }
}
static void ovf(unsigned id, unsigned w, const Val &A, const Val &B, Val *out) {
  Expr *a = toE(A, w), *b = toE(B, w);
  auto two = [&](EOp op, bool s, unsigned W) { Expr *x = s ? X.sext(a, W) : X.zext(a, W), *y = s ? X.sext(b, W) : X.zext(b, W); Expr *r = X.bin(op, x, y); Expr *lo = X.extract(r, 0, w); Expr *back = s ? X.sext(lo, W) : X.zext(lo, W); out[0] = EV(lo); out[1] = EV(X.notE(X.eq(back, r))); };
  switch (id) {
  case Intrinsic::sadd_with_overflow: two(E_ADD, true, w + 1); return;
  case Intrinsic::uadd_with_overflow: two(E_ADD, false, w + 1); return;
  case Intrinsic::ssub_with_overflow: two(E_SUB, true, w + 1); return;
  case Intrinsic::usub_with_overflow: two(E_SUB, false, w + 1); return;
  case Intrinsic::smul_with_overflow: if (w > 64) unsupported("wide mul overflow"); two(E_MUL, true, 2 * w); return;
  case Intrinsic::umul_with_overflow: if (w > 64) unsupported("wide mul overflow"); two(E_MUL, false, 2 * w); return;
  }
}
static const char *ubsanName(u64 k) { static const char *n[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound not positive"}; return k < 25 ? n[k] : "trap"; }

static void intrinsicOp(Ins &in, Frame &fr, Val *fp, Val *cs) {
#define R(x) ((x) >= 0 ? fp[x] : cs[~(x)])
  unsigned w = in.w;
  switch (in.w2) {
  case XI_MEMCPY: { u64 n = CC(R(in.c)); if (n) { u64 d = CC(R(in.a)), s = CC(R(in.b)); memMoveV(d, s, n); } return; }
  case XI_MEMSET: { u64 n = CC(R(in.c)); if (n) { u64 d = CC(R(in.a)); memSetV(d, R(in.b), n); } return; }
  case XI_TLS: fp[in.d] = CV(tlsGlobalAddr((GlobalVariable *)in.p)); return;
  case XI_TRAP: violation("undefined-behaviour", std::string(ubsanName(in.imm)) + " in " + demangle(fr.f->name).substr(0, 140)); return;
  case XI_STACKSAVE: fp[in.d] = CV(fr.nStk); return;
  case XI_STACKRESTORE: { u64 n = R(in.a).c; while (fr.nStk > n) { popObj(fibers[cur]); fr.nStk--; } return; }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: case Intrinsic::abs: {
    Val x = R(in.a); if (!x.e) fp[in.d] = CV(intrEval1(in.w2, w, x.c)); else fp[in.d] = EV(intrSym1(in.w2, w, x.e)); return; }
  case Intrinsic::umin: { Val x = R(in.a), y = R(in.b); fp[in.d] = (!x.e && !y.e) ? CV(std::min(x.c, y.c)) : intr2(in.w2, w, x, y); return; }
  case Intrinsic::umax: { Val x = R(in.a), y = R(in.b); fp[in.d] = (!x.e && !y.e) ? CV(std::max(x.c, y.c)) : intr2(in.w2, w, x, y); return; }
  case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: fp[in.d] = intr2(in.w2, w, R(in.a), R(in.b)); return;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: unsupported("saturating signed intrinsic");
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Expr *a = toE(R(in.a), w), *b = toE(R(in.b), w), *c = toE(R(in.c), w); c = X.bin(E_UREM, c, X.mkConst(w, w));
    Expr *wc = X.bin(E_SUB, X.mkConst(w, w), c); // shift by w yields 0 in SMT semantics
    fp[in.d] = in.w2 == Intrinsic::fshl ? EV(X.bin(E_OR, X.bin(E_SHL, a, c), X.bin(E_LSHR, b, wc))) : EV(X.bin(E_OR, X.bin(E_SHL, a, wc), X.bin(E_LSHR, b, c))); return; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: { Val o[2]; ovf(in.w2, w, R(in.a), R(in.b), o); fp[in.d] = o[0]; fp[in.d + 1] = o[1]; return; }
  case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: case Intrinsic::x86_bmi_pdep_32: case Intrinsic::x86_bmi_pdep_64: {
    bool ext = in.w2 == Intrinsic::x86_bmi_pext_32 || in.w2 == Intrinsic::x86_bmi_pext_64; u64 mask = CC(R(in.b)); Expr *a = toE(R(in.a), w); Expr *r = X.mkConst(0, w); unsigned k = 0;
    for (unsigned i = 0; i < w; ++i) if (mask >> i & 1) { Expr *bit = X.extract(a, ext ? i : k, 1); r = X.bin(E_OR, r, X.bin(E_SHL, X.zext(bit, w), X.mkConst(ext ? k : i, w))); ++k; }
    fp[in.d] = EV(r); return; }
  case Intrinsic::x86_ssse3_pshuf_b_128: {
    auto *pi = (PshufInfo *)in.p; Val ix = R(pi->idx[in.imm]);
    if (!ix.e) { fp[in.d] = (ix.c & 0x80) ? CV(0) : R(pi->src[ix.c & 15]); return; }
    Expr *r = X.mkConst(0, 8); Expr *lo = X.extract(ix.e, 0, 4); for (int k = 0; k < 16; ++k) r = X.ite(X.eq(lo, X.mkConst(k, 4)), toE(R(pi->src[k]), 8), r);
    fp[in.d] = EV(X.ite(X.extract(ix.e, 7, 1), X.mkConst(0, 8), r)); return; }
  }
  unsupported("intrinsic " + Intrinsic::getBaseName(in.w2).str());
#undef R
}
// runs until the root fiber's frame depth drops below the starting level or the main fiber finishes
static void interp(int rootFiber, size_t stopDepth) {
  Fiber *fb = &fibers[cur]; Frame *fr = &fb->frames.back(); Val *fp = fr->fp; Val *cs = fr->f->consts.data(); Ins *code = fr->f->code.data(); u32 pc = fr->pc;
  Val extRetBuf[32], argBuf[256];
#define SYNC() (fr->pc = pc)
#define RELOAD() do { fb = &fibers[cur]; fr = &fb->frames.back(); fp = fr->fp; cs = fr->f->consts.data(); code = fr->f->code.data(); pc = fr->pc; } while (0)
#define R(x) ((x) >= 0 ? fp[x] : cs[~(x)])
  u64 nextCheck = nInstr + 65536;
  for (;;) {
    Ins &in = code[pc];
    if (++nInstr >= nextCheck) { nextCheck = nInstr + 65536; SYNC(); if (SH->stop) endPath(ST_CUT); if (nInstr > opt.fuel) { if (opt.fuelViol) violation("termination", "execution did not finish within the instruction budget"); if (opt.trace) fprintf(stderr, "FUEL %s\n", stackStr().c_str()); endPath(ST_FUEL); } }
    switch (in.op) {
    case O_ADD: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV((x.c + y.c) & mk64(in.w)); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_SUB: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV((x.c - y.c) & mk64(in.w)); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_MUL: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV((x.c * y.c) & mk64(in.w)); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_AND: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV(x.c & y.c); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_OR: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV(x.c | y.c); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_XOR: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV(x.c ^ y.c); else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_SHL: case O_LSHR: case O_ASHR: {
      const Val &x = R(in.a), &y = R(in.b);
      if (!x.e && !y.e) { u64 s = y.c; u64 r; if (in.op == O_SHL) r = s >= in.w ? 0 : (x.c << s) & mk64(in.w); else if (in.op == O_LSHR) r = s >= in.w ? 0 : x.c >> s; else r = (u64)(sx(x.c, in.w) >> (s >= in.w ? 63 : s)) & mk64(in.w); fp[in.d] = CV(r); }
      else { SYNC(); fp[in.d] = binop(in.op, in.w, x, y); } ++pc; break; }
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
      Val x = R(in.a), y = R(in.b); SYNC();
      if (!y.e ? y.c == 0 : branch(X.eq(y.e, X.mkConst(0, in.w)))) violation("undefined-behaviour", "division by zero in " + demangle(fr->f->name).substr(0, 140));
      if (!x.e && !y.e) { u64 r; if (in.op == O_UDIV) r = x.c / y.c; else if (in.op == O_UREM) r = x.c % y.c; else { i64 p = sx(x.c, in.w), q = sx(y.c, in.w); if (q == -1) r = in.op == O_SDIV ? -(u64)p : 0; else r = in.op == O_SDIV ? p / q : p % q; } fp[in.d] = CV(r & mk64(in.w)); }
      else fp[in.d] = binop(in.op, in.w, x, y);
      ++pc; break; }
#define CMP(OP, CEXP, SEXP) case OP: { const Val &x = R(in.a), &y = R(in.b); if (!x.e && !y.e) fp[in.d] = CV(CEXP); else { SYNC(); Expr *a = toE(x, in.w), *b = toE(y, in.w); fp[in.d] = EV(SEXP); } ++pc; break; }
    CMP(O_EQ, x.c == y.c, X.eq(a, b)) CMP(O_NE, x.c != y.c, X.notE(X.eq(a, b)))
    CMP(O_ULT, x.c < y.c, X.bin(E_ULT, a, b)) CMP(O_ULE, x.c <= y.c, X.bin(E_ULE, a, b)) CMP(O_UGT, x.c > y.c, X.bin(E_ULT, b, a)) CMP(O_UGE, x.c >= y.c, X.bin(E_ULE, b, a))
    CMP(O_SLT, sx(x.c, in.w) < sx(y.c, in.w), X.bin(E_SLT, a, b)) CMP(O_SLE, sx(x.c, in.w) <= sx(y.c, in.w), X.bin(E_SLE, a, b)) CMP(O_SGT, sx(x.c, in.w) > sx(y.c, in.w), X.bin(E_SLT, b, a)) CMP(O_SGE, sx(x.c, in.w) >= sx(y.c, in.w), X.bin(E_SLE, b, a))
    case O_TRUNC: { const Val &x = R(in.a); if (!x.e) fp[in.d] = CV(x.c & mk64(in.w)); else fp[in.d] = EV(X.extract(x.e, 0, in.w)); ++pc; break; }
    case O_ZEXT: { const Val &x = R(in.a); if (!x.e && in.w <= 64) fp[in.d] = x; else fp[in.d] = EV(X.zext(toE(x, in.w2), in.w)); ++pc; break; }
    case O_SEXT: { const Val &x = R(in.a); if (!x.e && in.w <= 64) fp[in.d] = CV((u64)sx(x.c, in.w2) & mk64(in.w)); else fp[in.d] = EV(X.sext(toE(x, in.w2), in.w)); ++pc; break; }
    case O_COPY: fp[in.d] = R(in.a); ++pc; break;
    case O_SELECT: { const Val &c = R(in.a); if (!c.e) { Val t = (c.c & 1) ? R(in.b) : R(in.c); fp[in.d] = t; } else { Val t = R(in.b), f = R(in.c); if (t.e == f.e && (t.e || t.c == f.c)) fp[in.d] = t; else fp[in.d] = EV(X.ite(c.e, toE(t, in.w), toE(f, in.w))); } ++pc; break; }
    case O_FBIN: {
      const Val &x = R(in.a), &y = R(in.b);
      if (!x.e && !y.e && in.w == 64) { double p = bits2d(x.c), q = bits2d(y.c), r; switch (in.imm) { case E_FADD: r = p + q; break; case E_FSUB: r = p - q; break; case E_FMUL: r = p * q; break; case E_FDIV: r = p / q; break; default: r = fmod(p, q); } fp[in.d] = CV((u64)d2bits(r)); }
      else if (!x.e && !y.e && in.w == 32) { float p = bits2f(x.c), q = bits2f(y.c), r; switch (in.imm) { case E_FADD: r = p + q; break; case E_FSUB: r = p - q; break; case E_FMUL: r = p * q; break; case E_FDIV: r = p / q; break; default: r = fmodf(p, q); } fp[in.d] = CV((u64)f2bits(r)); }
      else { SYNC(); fp[in.d] = EV(X.mk((EOp)in.imm, in.w, toE(x, in.w), toE(y, in.w))); } ++pc; break; }
    case O_FNEG: { Val x = R(in.a); fp[in.d] = EV(X.mk(E_FNEG, in.w, toE(x, in.w))); ++pc; break; }
    case O_FCMP: { Val x = R(in.a), y = R(in.b); SYNC(); fp[in.d] = EV(X.mk(E_FCMP, 1, toE(x, in.w), toE(y, in.w), nullptr, in.imm)); ++pc; break; }
    case O_CVT: { Val x = R(in.a); SYNC(); fp[in.d] = EV(X.mk((EOp)in.imm, in.w, toE(x, in.w2))); ++pc; break; }
    case O_FN1: { Val x = R(in.a); SYNC(); fp[in.d] = EV(X.mk(E_FUNC1, in.w, toE(x, in.w), nullptr, nullptr, in.imm)); ++pc; break; }
    case O_FN2: { Val x = R(in.a), y = R(in.b); SYNC(); fp[in.d] = EV(X.mk(E_FUNC2, in.w, toE(x, in.w), toE(y, in.w), nullptr, in.imm)); ++pc; break; }
    case O_LOAD: {
      SYNC(); if (in.fl && mtMode && schedPoint(&in, R(in.a))) { RELOAD(); break; }
      const Val &p = R(in.a);
      if (!p.e && in.w <= 64) { u64 a = p.c + in.imm; unsigned n = (in.w + 7) / 8; checkAcc(a, n, "load"); fp[in.d] = loadC(a, in.w); }
      else { Val r = loadV(p, in.imm, in.w); fp[in.d] = r; }
      ++pc; break; }
    case O_STORE: { SYNC(); if (in.fl && mtMode && schedPoint(&in, R(in.a))) { RELOAD(); break; } storeV(R(in.a), in.imm, in.w, R(in.b)); ++pc; break; }
    case O_ALLOCA: { SYNC(); u64 n = CC(R(in.a)); u64 a = stackAlloc(*fb, n * in.imm, in.w2); fp[in.d] = CV(a); ++pc; break; }
    case O_GEPI: { const Val &p = R(in.a); if (!p.e) fp[in.d] = CV(p.c + in.imm); else fp[in.d] = EV(X.bin(E_ADD, p.e, X.mkConst(in.imm, 64))); ++pc; break; }
    case O_GEPX: { const Val &p = R(in.a), &x = R(in.b); if (!p.e && !x.e) fp[in.d] = CV(p.c + (u64)sx(x.c, in.w) * in.imm); else { Expr *ix = in.w < 64 ? X.sext(toE(x, in.w), 64) : in.w > 64 ? X.extract(toE(x, in.w), 0, 64) : toE(x, 64); if (in.imm != 1) ix = X.bin(E_MUL, ix, X.mkConst(in.imm, 64)); fp[in.d] = EV(X.bin(E_ADD, toE(p, 64), ix)); } ++pc; break; }
    case O_BR: takeEdge(*fr, in.imm); pc = fr->pc; break;
    case O_CBR: { const Val &c = R(in.a); bool t; if (!c.e) t = c.c & 1; else { SYNC(); t = branch(c.e); } takeEdge(*fr, t ? in.imm : in.b); pc = fr->pc; break; }
    case O_SWITCH: {
      const Val &c = R(in.a); auto *si = (SwitchInfo *)in.p; int e = -1; SYNC();
      if (!c.e) { auto it = si->map.find(c.c); e = it == si->map.end() ? si->def : it->second; }
      else { // group cases by target
        std::map<int, Expr *> grp; Expr *ce = c.e; for (auto &k : si->cases) { Expr *q = X.eq(ce, X.mkConst(k.first, in.w)); u32 tgt = k.second; Expr *&g = grp[tgt]; g = g ? X.bin(E_OR, g, q) : q; }
        for (auto &g : grp) if (branch(g.second)) { e = g.first; break; }
        if (e < 0) e = si->def; }
      takeEdge(*fr, e); pc = fr->pc; break; }
    case O_RET: {
      auto *rv = (std::vector<i32> *)in.p; CallInfo *ci = fr->ci; size_t n = rv->size(); Val *dst = nullptr; Val tmp[64];
      std::vector<Val> big; if (n > 64) big.resize(n); Val *tp = n > 64 ? big.data() : tmp;
      for (size_t i = 0; i < n; ++i) { i32 s = (*rv)[i]; tp[i] = R(s); }
      popFrame(*fb);
      if (fb->frames.empty() || !ci) {
        if (fb->frames.empty()) fb->state = 1;
        if (cur == rootFiber && fb->frames.size() <= stopDepth) return;
        if (fb->frames.empty()) { wakeAndPick(true); RELOAD(); break; }
        RELOAD(); break;
      }
      fr = &fb->frames.back(); fp = fr->fp; dst = fp + ci->d; for (size_t i = 0; i < std::min<size_t>(n, ci->nret); ++i) dst[i] = tp[i];
      if (ci->normal >= 0) takeEdge(*fr, ci->normal); else fr->pc++;
      RELOAD(); break; }
    case O_CALL: {
      SYNC(); auto *ci = (CallInfo *)in.p; FC *f = ci->fc;
      if (!f) { u64 a = CC(R(ci->fn)); auto it = fnByAddr.find(a); if (it == fnByAddr.end()) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)a); if (a < 4096) violation("memory", "call through a null function pointer in " + demangle(fr->f->name).substr(0, 120)); Obj *o = findObj(a); violation("memory", std::string("call of a non-function address ") + b + (o && o->src ? "" : "") + " in " + demangle(fr->f->name).substr(0, 120)); } f = it->second; }
      size_t n = ci->args.size(); if (n > 250) unsupported("too many arguments");
      for (size_t i = 0; i < n; ++i) { i32 s = ci->args[i]; argBuf[i] = R(s); }
      if (f->ext) {
        extRet = extRetBuf; for (unsigned i = 0; i < std::min(ci->nret, 32u); ++i) extRetBuf[i] = CV(0);
        pendThrow = pendRetry = pendResched = false;
        f->ext(ci, argBuf);
        fb = &fibers[cur]; fr = &fb->frames.back(); fp = fr->fp;
        if (pendThrow) { doUnwind(); RELOAD(); break; }
        if (!pendRetry) {
          for (unsigned i = 0; i < ci->nret; ++i) { Val v = extRetBuf[i]; if (!v.e && ci->retw && ci->retw < 64) v.c &= mk64(ci->retw); if (v.e && i == 0 && ci->retw && v.e->w > ci->retw) v = EV(X.extract(v.e, 0, ci->retw)); fp[ci->d + i] = v; }
          if (ci->normal >= 0) takeEdge(*fr, ci->normal); else fr->pc++;
        }
        if (pendResched) wakeAndPick(true);
        RELOAD(); break;
      }
      Frame &nf = pushFrame(*fb, f, ci);
      if ((int)n > f->nargs && !f->F->isVarArg()) n = f->nargs;
      for (size_t i = 0; i < n && (int)i < f->nargs; ++i) {
        if (ci->byval[i]) { u64 a = stackAlloc(*fb, ci->byval[i], 16); u64 s = CC(argBuf[i]); memMoveV(a, s, ci->byval[i]); nf.fp[i] = CV(a); }
        else nf.fp[i] = argBuf[i];
      }
      RELOAD(); break; }
    case O_RESUME: { SYNC(); throwObj = CC(R(in.a)); popFrame(*fb); if (fb->frames.empty()) violation("exception", "uncaught exception of type " + tiName(exInfo[throwObj].tinfo)); doUnwind(); RELOAD(); break; }
    case O_UNREACH: SYNC(); violation("undefined-behaviour", "unreachable code reached in " + demangle(fr->f->name).substr(0, 140)); break;
    case O_RMW: {
      SYNC(); if (mtMode && schedPoint(&in, R(in.a))) { RELOAD(); break; }
      Val p = R(in.a), v = R(in.b); Val old = loadV(p, 0, in.w); Val nv; unsigned w = in.w;
      switch ((AtomicRMWInst::BinOp)in.w2) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = binop(O_ADD, w, old, v); break;
      case AtomicRMWInst::Sub: nv = binop(O_SUB, w, old, v); break;
      case AtomicRMWInst::And: nv = binop(O_AND, w, old, v); break;
      case AtomicRMWInst::Or: nv = binop(O_OR, w, old, v); break;
      case AtomicRMWInst::Xor: nv = binop(O_XOR, w, old, v); break;
      case AtomicRMWInst::Max: nv = intr2(Intrinsic::smax, w, old, v); break;
      case AtomicRMWInst::Min: nv = intr2(Intrinsic::smin, w, old, v); break;
      case AtomicRMWInst::UMax: nv = intr2(Intrinsic::umax, w, old, v); break;
      case AtomicRMWInst::UMin: nv = intr2(Intrinsic::umin, w, old, v); break;
      case AtomicRMWInst::FAdd: nv = EV(X.mk(E_FADD, w, toE(old, w), toE(v, w))); break;
      default: unsupported("atomicrmw");
      }
      storeV(p, 0, w, nv); fp[in.d] = old; ++pc; break; }
    case O_CMPXCHG: {
      SYNC(); if (mtMode && schedPoint(&in, R(in.a))) { RELOAD(); break; }
      Val p = R(in.a), ex = R(in.b), nv = R(in.c); Val old = loadV(p, 0, in.w); Expr *q = X.eq(toE(old, in.w), toE(ex, in.w)); bool ok = q->op == E_CONST ? q->c != 0 : branch(q);
      if (ok) storeV(p, 0, in.w, nv); fp[in.d] = old; fp[in.d + 1] = CV(ok); ++pc; break; }
    case O_LPAD: SYNC(); unsupported("fell into a landing pad"); break;
    case O_INTR: { SYNC(); intrinsicOp(in, *fr, fp, cs); ++pc; break; }
    case O_BITCASTV: {
      auto *bi = (BitcastInfo *)in.p;
      bool conc = true; for (auto s : bi->src) if (R(s).e) { conc = false; break; }
      if (conc && bi->dw <= 64 && bi->sw <= 64 && bi->src.size() * bi->sw <= 256) {
        unsigned char buf[40] = {0};
        if (bi->sw % 8 == 0 && bi->dw % 8 == 0) { size_t o = 0; for (auto s : bi->src) { u64 c = R(s).c; memcpy(buf + o, &c, bi->sw / 8); o += bi->sw / 8; } o = 0; for (unsigned i = 0; i < bi->dn; ++i) { u64 c = 0; memcpy(&c, buf + o, bi->dw / 8); o += bi->dw / 8; fp[in.d + i] = CV(c); } ++pc; break; }
      }
      // generic: pick or concatenate
      for (unsigned i = 0; i < bi->dn; ++i) {
        unsigned lo = i * bi->dw, hi = lo + bi->dw; Expr *r = nullptr;
        for (unsigned b = lo; b < hi;) { unsigned k = b / bi->sw, o = b % bi->sw, n = std::min(bi->sw - o, hi - b); Expr *e = X.extract(toE(R(bi->src[k]), bi->sw), o, n); r = r ? X.concat(e, r) : e; b += n; }
        fp[in.d + i] = EV(r);
      }
      ++pc; break; }
    case O_XELT: { auto *xi = (XeltInfo *)in.p; const Val &ix = R(in.a); if (!ix.e) { Val t = R(xi->src[std::min<u64>(ix.c, xi->src.size() - 1)]); fp[in.d] = t; } else { Expr *r = toE(R(xi->src[0]), in.w); for (size_t k = 1; k < xi->src.size(); ++k) r = X.ite(X.eq(ix.e, X.mkConst(k, xi->w)), toE(R(xi->src[k]), in.w), r); fp[in.d] = EV(r); } ++pc; break; }
    case O_IELT: { Val ix = R(in.a), x = R(in.b), o = R(in.c); if (!ix.e) fp[in.d] = ix.c == in.imm ? x : o; else fp[in.d] = EV(X.ite(X.eq(ix.e, X.mkConst(in.imm, in.w2)), toE(x, in.w), toE(o, in.w))); ++pc; break; }
    case O_NOP: SYNC(); if (in.imm == 1) unsupported((char *)in.p); ++pc; break;
    default: unsupported("opcode");
    }
  }
#undef R
}
