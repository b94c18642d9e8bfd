// LLVM IR -> flat bytecode over scalar slots
static u64 globalAddr(const GlobalVariable *gv);
static u64 funcAddr(const Function *f);
static void constVals(const Constant *c, std::vector<Val> &out);

struct Scal { Type *t; u64 off; unsigned w; };
static unsigned scalW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16;
  return 0;
}
static std::unordered_map<Type *, std::vector<Scal>> scalMemo;
static void scalRec(Type *t, u64 off, std::vector<Scal> &o) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) scalRec(st->getElementType(i), off + L->getElementOffset(i), o); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) scalRec(at->getElementType(), off + i * s, o); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) o.push_back({vt->getElementType(), off + (s % 8 == 0 ? i * s / 8 : 0), scalW(vt->getElementType())}); }
  else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) {}
  else o.push_back({t, off, scalW(t)});
}
static const std::vector<Scal> &scal(Type *t) { auto it = scalMemo.find(t); if (it != scalMemo.end()) return it->second; auto &v = scalMemo[t]; scalRec(t, 0, v); return v; }

static Val wideConst(const APInt &v) {
  unsigned w = v.getBitWidth();
  if (w <= 64) return CV(v.getZExtValue());
  u128 x = 0; const u64 *d = v.getRawData(); x = d[0]; if (w > 64) x |= (u128)d[1] << 64;
  return Val{0, X.mkConst(x, w)};
}
static u64 constAddr(const Constant *c) { std::vector<Val> o; constVals(c, o); return o.at(0).e ? (u64)o[0].e->c : o[0].c; }
static void constVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
    for (auto &s : scal(t)) out.push_back(s.w > 64 ? Val{0, X.mkConst(0, s.w)} : CV(0)); return;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(wideConst(ci->getValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(wideConst(cf->getValueAPF().bitcastToAPInt())); return; }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cds->getNumElements(); ++i) constVals(cds->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) constVals(cast<Constant>(c->getOperand(i)), out); return; }
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { out.push_back(CV(globalAddr(gv))); return; }
  if (auto *f = dyn_cast<Function>(c)) { out.push_back(CV(funcAddr(f))); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      u64 b = constAddr(g->getPointerOperand() ? cast<Constant>(g->getPointerOperand()) : nullptr);
      if (!g->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
      out.push_back(CV(b + off.getSExtValue())); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), out); return;
    case Instruction::PtrToInt: { u64 v = constAddr(ce->getOperand(0)); out.push_back(CV(v & mk64(scalW(t)))); return; }
    case Instruction::IntToPtr: case Instruction::ZExt: out.push_back(CV(constAddr(ce->getOperand(0)))); return;
    case Instruction::Trunc: out.push_back(CV(constAddr(ce->getOperand(0)) & mk64(scalW(t)))); return;
    case Instruction::Add: out.push_back(CV((constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & mk64(scalW(t)))); return;
    case Instruction::Sub: out.push_back(CV((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & mk64(scalW(t)))); return;
    case Instruction::Xor: out.push_back(CV((constAddr(ce->getOperand(0)) ^ constAddr(ce->getOperand(1))) & mk64(scalW(t)))); return;
    case Instruction::And: out.push_back(CV((constAddr(ce->getOperand(0)) & constAddr(ce->getOperand(1))) & mk64(scalW(t)))); return;
    case Instruction::ICmp: {
      u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1)); bool r = false;
      switch ((CmpInst::Predicate)ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_UGE: r = a >= b; break; default: unsupported("constant icmp"); }
      out.push_back(CV(r)); return; }
    default: unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  if (auto *ne = dyn_cast<NoCFIValue>(c)) { constVals(ne->getGlobalValue(), out); return; }
  if (auto *de = dyn_cast<DSOLocalEquivalent>(c)) { constVals(de->getGlobalValue(), out); return; }
  if (c->getType()->isTokenTy()) return;
  std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + os.str());
}
static void initMem(u64 base, const Constant *c) {
  std::vector<Val> v; constVals(c, v); auto &sc = scal(c->getType());
  for (size_t i = 0; i < sc.size(); ++i) {
    if (!v[i].e && v[i].c == 0) continue; // memory is already zeroed
    u128 x = v[i].e ? v[i].e->c : v[i].c; unsigned n = (sc[i].w + 7) / 8;
    memcpy((void *)(base + sc[i].off), &x, n);
  }
}
static u64 allocGlobal(const GlobalVariable *gv) {
  u64 sz = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 0;
  bool decl = gv->isDeclaration();
  if (decl) sz = std::max<u64>(sz, 256);
  return allocHeap(sz, std::max<u64>(16, gv->getAlign() ? gv->getAlign()->value() : 16), K_GLOBAL, true, gv);
}
static u64 globalAddr(const GlobalVariable *gv) {
  auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
  if (gv->hasExternalWeakLinkage() && gv->isDeclaration()) return gaddr[gv] = 0;
  u64 a = allocGlobal(gv); gaddr[gv] = a;
  if (gv->hasInitializer()) initMem(a, gv->getInitializer());
  if (gv->isConstant()) { Obj *o = findObj(a); o->ro = 1; }
  if (gv->isDeclaration() && gv->getName().starts_with("_ZTV")) {} // stays zero
  return a;
}
static u64 tlsGlobalAddr(const GlobalVariable *gv) {
  auto k = std::make_pair(cur, gv); auto it = tlsAddr.find(k); if (it != tlsAddr.end()) return it->second;
  u64 a = allocGlobal(gv); tlsAddr[k] = a; if (gv->hasInitializer()) initMem(a, gv->getInitializer());
  return a;
}
static std::unordered_map<u64, FC *> fnByAddr;
static std::unordered_map<std::string, ExtFn> &extTable();
static std::unordered_map<const Function *, u32> fnOrd;
static FC *getFC(const Function *f) {
  auto it = fcs.find(f); if (it != fcs.end()) return it->second;
  FC *c = new FC(); c->F = const_cast<Function *>(f); c->idx = fnOrd.count(f) ? fnOrd[f] : 0xfffffff; c->name = f->getName().str(); fcList.push_back(c); fcs[f] = c;
  auto e = extTable().find(c->name); if (e != extTable().end()) c->ext = e->second;
  return c;
}
static u64 funcAddr(const Function *f) {
  if (f->hasExternalWeakLinkage() && f->isDeclaration() && !extTable().count(f->getName().str())) return 0;
  FC *c = getFC(f); if (c->addr) return c->addr;
  c->addr = allocHeap(16, 16, K_FUNC, true, f); fnByAddr[c->addr] = c; return c->addr;
}

// ------------------------------------------------------------------ instruction-level
struct BitcastInfo { std::vector<i32> src; unsigned sw, dn, dw; };
struct XeltInfo { std::vector<i32> src; unsigned w; };
struct PshufInfo { std::vector<i32> src, idx; };
struct Translator {
  FC *f; Function &F; std::unordered_map<const Value *, std::vector<i32>> ops; std::unordered_map<u64, i32> cmap;
  std::unordered_map<const BasicBlock *, u32> bpc; struct Pend { const BasicBlock *from, *to; }; std::vector<Pend> pend;
  int ns = 0;
  Translator(FC *f) : f(f), F(*f->F) {}
  i32 cst(Val v) {
    if (!v.e) { auto it = cmap.find(v.c); if (it != cmap.end()) return it->second; }
    f->consts.push_back(v); i32 r = ~(i32)(f->consts.size() - 1); if (!v.e) cmap[v.c] = r; return r;
  }
  const std::vector<i32> &get(const Value *v) {
    auto it = ops.find(v); if (it != ops.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> o; constVals(c, o); std::vector<i32> r; for (auto &x : o) r.push_back(cst(x)); return ops[v] = r; }
    // not yet translated (unreachable definition): zeros
    std::vector<i32> r; for (auto &s : scal(v->getType())) r.push_back(cst(s.w > 64 ? Val{0, X.mkConst(0, s.w)} : CV(0)));
    return ops[v] = r;
  }
  std::vector<i32> &def(const Value *v) { auto &o = ops[v]; o.clear(); for (size_t i = 0; i < scal(v->getType()).size(); ++i) o.push_back(ns++); return o; }
  Ins &emit(IOp op, unsigned w, i32 d = 0, i32 a = 0, i32 b = 0, i32 c = 0, u64 imm = 0, void *p = nullptr, unsigned w2 = 0, unsigned fl = 0) {
    f->code.push_back(Ins{(u16)op, (u16)w, (u16)w2, (u16)fl, d, a, b, c, imm, p}); return f->code.back();
  }
  int edge(const BasicBlock *a, const BasicBlock *b) { f->edges.push_back({}); pend.push_back({a, b}); return f->edges.size() - 1; }
  void unsup(const Instruction &I, const char *why = "") { std::string s; raw_string_ostream os(s); I.print(os); emit(O_NOP, 0, 0, 0, 0, 0, 1, strdup(("instruction" + std::string(why) + ": " + os.str().substr(0, 200)).c_str())); if (!I.getType()->isVoidTy()) def(&I); }
  void run();
  void ins(Instruction &I);
  void call(CallBase &cb);
  bool intrinsic(CallBase &cb, unsigned id);
};
static void lpadOf(const LandingPadInst *lp, LpadInfo *li) {
  li->cleanup = lp->isCleanup();
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) li->clauses.push_back({true, isa<ConstantPointerNull>(c) ? 0 : constAddr(c)});
    else li->clauses.push_back({false, 0});
  }
}
void Translator::call(CallBase &cb) {
  Function *cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
  if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if (cf && cf->isIntrinsic()) {
    if (!intrinsic(cb, cf->getIntrinsicID())) unsup(cb, " (intrinsic)");
    if (auto *iv = dyn_cast<InvokeInst>(&cb)) emit(O_BR, 0, 0, 0, 0, 0, edge(cb.getParent(), iv->getNormalDest()));
    return;
  }
  if (auto *ia = dyn_cast<InlineAsm>(cb.getCalledOperand())) {
    if (StringRef(ia->getAsmString()).trim().empty() || StringRef(ia->getAsmString()).contains("pause")) { if (!cb.getType()->isVoidTy()) { auto &o = def(&cb); for (size_t i = 0; i < o.size(); ++i) { auto &s = get(cb.getArgOperand(0)); emit(O_COPY, 64, o[i], i < s.size() ? s[i] : cst(CV(0))); } } }
    else unsup(cb, " (inline asm)");
    if (auto *iv = dyn_cast<InvokeInst>(&cb)) emit(O_BR, 0, 0, 0, 0, 0, edge(cb.getParent(), iv->getNormalDest()));
    return;
  }
  CallInfo *ci = new CallInfo(); ci->callee = cf; ci->cb = &cb;
  if (cf) ci->fc = getFC(cf); else ci->fn = get(cb.getCalledOperand())[0];
  for (unsigned i = 0; i < cb.arg_size(); ++i) {
    auto &o = get(cb.getArgOperand(i)); auto &sc = scal(cb.getArgOperand(i)->getType());
    u32 bv = cb.isByValArgument(i) ? (u32)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0;
    for (size_t k = 0; k < o.size(); ++k) { ci->args.push_back(o[k]); ci->argw.push_back(sc[k].w); ci->byval.push_back(bv); }
  }
  if (!cb.getType()->isVoidTy()) { auto &o = def(&cb); ci->nret = o.size(); ci->d = o.empty() ? 0 : o[0]; if (!o.empty()) ci->retw = scal(cb.getType())[0].w; }
  if (auto *iv = dyn_cast<InvokeInst>(&cb)) { ci->normal = edge(cb.getParent(), iv->getNormalDest()); ci->unwind = edge(cb.getParent(), iv->getUnwindDest()); }
  emit(O_CALL, 0, ci->d, 0, 0, 0, 0, ci);
}
enum { XI_MEMCPY = 60000, XI_MEMSET, XI_TLS, XI_TRAP, XI_STACKSAVE, XI_STACKRESTORE, XI_TYPEID };
bool Translator::intrinsic(CallBase &cb, unsigned id) {
  auto A = [&](unsigned i) -> const std::vector<i32> & { return get(cb.getArgOperand(i)); };
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause: return true;
  case Intrinsic::invariant_start: ops[&cb] = {cst(CV(0))}; return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation: { auto v = A(0); ops[&cb] = v; return true; }
  case Intrinsic::is_constant: ops[&cb] = {cst(CV(0))}; return true;
  case Intrinsic::objectsize: ops[&cb] = {cst(CV(~0ull))}; return true;
  case Intrinsic::threadlocal_address: { auto *gv = cast<GlobalVariable>(cb.getArgOperand(0)->stripPointerCasts()); auto &o = def(&cb); emit(O_INTR, 64, o[0], 0, 0, 0, 0, gv, XI_TLS); return true; }
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: emit(O_INTR, 64, 0, A(0)[0], A(1)[0], A(2)[0], 0, nullptr, XI_MEMCPY); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: emit(O_INTR, 64, 0, A(0)[0], A(1)[0], A(2)[0], 0, nullptr, XI_MEMSET); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { u64 k = 255; if (id == Intrinsic::ubsantrap) k = cast<ConstantInt>(cb.getArgOperand(0))->getZExtValue(); emit(O_INTR, 0, 0, 0, 0, 0, k, nullptr, XI_TRAP); return true; }
  case Intrinsic::stacksave: { auto &o = def(&cb); emit(O_INTR, 64, o[0], 0, 0, 0, 0, nullptr, XI_STACKSAVE); return true; }
  case Intrinsic::stackrestore: emit(O_INTR, 64, 0, A(0)[0], 0, 0, 0, nullptr, XI_STACKRESTORE); return true;
  case Intrinsic::eh_typeid_for: { auto &o = def(&cb); emit(O_COPY, 32, o[0], cst(CV((u32)(constAddr(cast<Constant>(cb.getArgOperand(0))) - ARENA) / 16))); return true; }
  case Intrinsic::fabs: case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: {
    static std::map<unsigned, int> m{{Intrinsic::fabs, MF_FABS}, {Intrinsic::ceil, MF_CEIL}, {Intrinsic::floor, MF_FLOOR}, {Intrinsic::trunc, MF_TRUNC}, {Intrinsic::rint, MF_RINT}, {Intrinsic::nearbyint, MF_NEARBYINT}, {Intrinsic::round, MF_ROUND}, {Intrinsic::sqrt, MF_SQRT}, {Intrinsic::log, MF_LOG}, {Intrinsic::log2, MF_LOG2}, {Intrinsic::log10, MF_LOG10}, {Intrinsic::exp, MF_EXP}, {Intrinsic::exp2, MF_EXP2}, {Intrinsic::sin, MF_SIN}, {Intrinsic::cos, MF_COS}};
    auto a = A(0); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) emit(O_FN1, w, o[i], a[i], 0, 0, m[id]); return true; }
  case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: {
    int k = id == Intrinsic::pow ? MF_POW : id == Intrinsic::minnum ? MF_FMIN : id == Intrinsic::maxnum ? MF_FMAX : MF_COPYSIGN;
    auto a = A(0), b = A(1); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) emit(O_FN2, w, o[i], a[i], b[i], 0, k); return true; }
  case Intrinsic::fmuladd: { auto a = A(0), b = A(1), c = A(2); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) { int t = ns++; emit(O_FBIN, w, t, a[i], b[i], 0, E_FMUL); emit(O_FBIN, w, o[i], t, c[i], 0, E_FADD); } return true; }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
    auto a = A(0), b = A(1); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) emit(O_INTR, w, o[i], a[i], b[i], 0, 0, nullptr, id); return true; }
  case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
    auto a = A(0); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) emit(O_INTR, w, o[i], a[i], 0, 0, 0, nullptr, id); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { auto a = A(0), b = A(1), c = A(2); auto &o = def(&cb); unsigned w = scal(cb.getType())[0].w; for (size_t i = 0; i < o.size(); ++i) emit(O_INTR, w, o[i], a[i], b[i], c[i], 0, nullptr, id); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    auto a = A(0), b = A(1); auto &o = def(&cb); unsigned w = scal(cb.getArgOperand(0)->getType())[0].w; if (o.size() != 2) return false; emit(O_INTR, w, o[0], a[0], b[0], 0, 0, nullptr, id); return true; }
  case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: case Intrinsic::x86_bmi_pdep_32: case Intrinsic::x86_bmi_pdep_64: { auto a = A(0), b = A(1); auto &o = def(&cb); emit(O_INTR, scal(cb.getType())[0].w, o[0], a[0], b[0], 0, 0, nullptr, id); return true; }
  case Intrinsic::x86_ssse3_pshuf_b_128: { auto *pi = new PshufInfo{A(0), A(1)}; auto &o = def(&cb); for (unsigned i = 0; i < 16; ++i) emit(O_INTR, 8, o[i], 0, 0, 0, i, pi, id); return true; }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
    auto a = A(0); IOp op = id == Intrinsic::vector_reduce_add ? O_ADD : id == Intrinsic::vector_reduce_or ? O_OR : id == Intrinsic::vector_reduce_and ? O_AND : id == Intrinsic::vector_reduce_mul ? O_MUL : O_XOR;
    unsigned w = scal(cb.getType())[0].w; i32 acc = a[0]; for (size_t i = 1; i < a.size(); ++i) { int t = ns++; emit(op, w, t, acc, a[i]); acc = t; } ops[&cb] = {acc}; return true; }
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
    auto a = A(0); unsigned k = id == Intrinsic::vector_reduce_umax ? Intrinsic::umax : id == Intrinsic::vector_reduce_umin ? Intrinsic::umin : id == Intrinsic::vector_reduce_smax ? Intrinsic::smax : Intrinsic::smin;
    unsigned w = scal(cb.getType())[0].w; i32 acc = a[0]; for (size_t i = 1; i < a.size(); ++i) { int t = ns++; emit(O_INTR, w, t, acc, a[i], 0, 0, nullptr, k); acc = t; } ops[&cb] = {acc}; return true; }
  case Intrinsic::load_relative: return false;
  default: return false;
  }
}
void Translator::ins(Instruction &I) {
  Type *T = I.getType();
  auto G = [&](unsigned i) -> std::vector<i32> { return get(I.getOperand(i)); };
  auto lanes = [&](IOp op, unsigned w, u64 imm = 0, unsigned w2 = 0) { auto a = G(0), b = I.getNumOperands() > 1 ? G(1) : std::vector<i32>(a.size(), 0); auto &o = def(&I); for (size_t i = 0; i < o.size(); ++i) emit(op, w, o[i], a[i], b[i], 0, imm, nullptr, w2); };
  switch (I.getOpcode()) {
#define B(N, OP) case Instruction::N: lanes(OP, scal(T)[0].w); return;
  B(Add, O_ADD) B(Sub, O_SUB) B(Mul, O_MUL) B(UDiv, O_UDIV) B(URem, O_UREM) B(SDiv, O_SDIV) B(SRem, O_SREM) B(And, O_AND) B(Or, O_OR) B(Xor, O_XOR) B(Shl, O_SHL) B(LShr, O_LSHR) B(AShr, O_ASHR)
#undef B
  case Instruction::FAdd: lanes(O_FBIN, scal(T)[0].w, E_FADD); return;
  case Instruction::FSub: lanes(O_FBIN, scal(T)[0].w, E_FSUB); return;
  case Instruction::FMul: lanes(O_FBIN, scal(T)[0].w, E_FMUL); return;
  case Instruction::FDiv: lanes(O_FBIN, scal(T)[0].w, E_FDIV); return;
  case Instruction::FRem: lanes(O_FBIN, scal(T)[0].w, E_FREM); return;
  case Instruction::FNeg: lanes(O_FNEG, scal(T)[0].w); return;
  case Instruction::ICmp: {
    static const std::map<int, IOp> m{{CmpInst::ICMP_EQ, O_EQ}, {CmpInst::ICMP_NE, O_NE}, {CmpInst::ICMP_ULT, O_ULT}, {CmpInst::ICMP_ULE, O_ULE}, {CmpInst::ICMP_UGT, O_UGT}, {CmpInst::ICMP_UGE, O_UGE}, {CmpInst::ICMP_SLT, O_SLT}, {CmpInst::ICMP_SLE, O_SLE}, {CmpInst::ICMP_SGT, O_SGT}, {CmpInst::ICMP_SGE, O_SGE}};
    lanes(m.at(cast<ICmpInst>(I).getPredicate()), scal(I.getOperand(0)->getType())[0].w); return; }
  case Instruction::FCmp: lanes(O_FCMP, scal(I.getOperand(0)->getType())[0].w, cast<FCmpInst>(I).getPredicate()); return;
  case Instruction::Trunc: lanes(O_TRUNC, scal(T)[0].w, 0, scal(I.getOperand(0)->getType())[0].w); return;
  case Instruction::ZExt: lanes(O_ZEXT, scal(T)[0].w, 0, scal(I.getOperand(0)->getType())[0].w); return;
  case Instruction::SExt: lanes(O_SEXT, scal(T)[0].w, 0, scal(I.getOperand(0)->getType())[0].w); return;
  case Instruction::PtrToInt: if (scal(T)[0].w < 64) { lanes(O_TRUNC, scal(T)[0].w, 0, 64); return; } if (scal(T)[0].w > 64) { lanes(O_ZEXT, scal(T)[0].w, 0, 64); return; } { auto v = G(0); ops[&I] = v; } return;
  case Instruction::IntToPtr: { unsigned w = scal(I.getOperand(0)->getType())[0].w; if (w < 64) { lanes(O_ZEXT, 64, 0, w); return; } if (w > 64) { lanes(O_TRUNC, 64, 0, w); return; } auto v = G(0); ops[&I] = v; return; }
  case Instruction::Freeze: case Instruction::AddrSpaceCast: { auto v = G(0); ops[&I] = v; return; }
  case Instruction::BitCast: {
    auto v = G(0); auto &ss = scal(I.getOperand(0)->getType()); auto &ds = scal(T);
    if (ss.size() == ds.size()) { ops[&I] = v; return; }
    auto *bi = new BitcastInfo{v, ss[0].w, (unsigned)ds.size(), ds[0].w}; auto &o = def(&I); emit(O_BITCASTV, ds[0].w, o[0], 0, 0, 0, 0, bi); return; }
#define C(N, OP) case Instruction::N: lanes(O_CVT, scal(T)[0].w, OP, scal(I.getOperand(0)->getType())[0].w); return;
  C(SIToFP, E_SITOFP) C(UIToFP, E_UITOFP) C(FPToSI, E_FPTOSI) C(FPToUI, E_FPTOUI) C(FPExt, E_FPEXT) C(FPTrunc, E_FPTRUNC)
#undef C
  case Instruction::Select: {
    auto c = G(0), a = G(1), b = G(2); auto &sc = scal(T); auto &o = def(&I);
    for (size_t i = 0; i < o.size(); ++i) emit(O_SELECT, sc[i].w, o[i], c.size() > 1 ? c[i] : c[0], a[i], b[i]); return; }
  case Instruction::Load: {
    auto p = G(0); auto &sc = scal(T); if (auto *vt = dyn_cast<FixedVectorType>(T)) if (scal(T)[0].w % 8) { unsup(I, " (packed vector load)"); (void)vt; return; }
    auto &o = def(&I); for (size_t i = 0; i < o.size(); ++i) emit(O_LOAD, sc[i].w, o[i], p[0], 0, 0, sc[i].off, nullptr, 0, I.isAtomic()); return; }
  case Instruction::Store: {
    auto v = G(0), p = G(1); Type *st = I.getOperand(0)->getType(); auto &sc = scal(st);
    if (isa<FixedVectorType>(st) && sc[0].w % 8) { unsup(I, " (packed vector store)"); return; }
    for (size_t i = 0; i < v.size(); ++i) emit(O_STORE, sc[i].w, 0, p[0], v[i], 0, sc[i].off, nullptr, 0, I.isAtomic()); return; }
  case Instruction::Alloca: {
    auto &ai = cast<AllocaInst>(I); auto n = G(0); auto &o = def(&I);
    emit(O_ALLOCA, scal(ai.getArraySize()->getType())[0].w, o[0], n[0], 0, 0, DL->getTypeAllocSize(ai.getAllocatedType()), &I, ai.getAlign().value()); return; }
  case Instruction::GetElementPtr: {
    auto &g = cast<GEPOperator>(I); if (T->isVectorTy()) { unsup(I, " (vector gep)"); return; }
    i32 base = G(0)[0]; u64 off = 0; 
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      Value *ix = gi.getOperand();
      if (auto *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      u64 s = DL->getTypeAllocSize(gi.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * s; continue; }
      int t = ns++; i32 xo = get(ix)[0]; emit(O_GEPX, scal(ix->getType())[0].w, t, base, xo, 0, s); base = t;
    }
    if (off) { int t = ns++; emit(O_GEPI, 64, t, base, 0, 0, off); base = t; }
    ops[&I] = {base}; return; }
  case Instruction::Br: {
    auto &b = cast<BranchInst>(I);
    if (b.isUnconditional()) emit(O_BR, 0, 0, 0, 0, 0, edge(I.getParent(), b.getSuccessor(0)));
    else { i32 c = get(b.getCondition())[0]; int e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1)); emit(O_CBR, 1, 0, c, e2, 0, e1); }
    return; }
  case Instruction::Switch: {
    auto &s = cast<SwitchInst>(I); auto *si = new SwitchInfo(); i32 c = get(s.getCondition())[0]; si->def = edge(I.getParent(), s.getDefaultDest());
    for (auto &cs : s.cases()) { int e = edge(I.getParent(), cs.getCaseSuccessor()); u64 v = cs.getCaseValue()->getZExtValue(); si->cases.push_back({v, e}); si->map[v] = e; }
    emit(O_SWITCH, scal(s.getCondition()->getType())[0].w, 0, c, 0, 0, 0, si); return; }
  case Instruction::Ret: {
    auto *r = new std::vector<i32>(); if (I.getNumOperands()) *r = G(0); emit(O_RET, 0, 0, 0, 0, 0, r->size(), r); return; }
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
  case Instruction::Unreachable: emit(O_UNREACH, 0); return;
  case Instruction::ExtractValue: {
    auto &e = cast<ExtractValueInst>(I); auto v = G(0); Type *t = I.getOperand(0)->getType(); size_t pos = 0;
    for (unsigned ix : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) pos += scal(st->getElementType(i)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); pos += ix * scal(t).size(); } }
    ops[&I] = std::vector<i32>(v.begin() + pos, v.begin() + pos + scal(T).size()); return; }
  case Instruction::InsertValue: {
    auto &e = cast<InsertValueInst>(I); auto v = G(0), x = G(1); Type *t = T; size_t pos = 0;
    for (unsigned ix : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) pos += scal(st->getElementType(i)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); pos += ix * scal(t).size(); } }
    for (size_t i = 0; i < x.size(); ++i) v[pos + i] = x[i]; ops[&I] = v; return; }
  case Instruction::ExtractElement: {
    auto v = G(0); if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { ops[&I] = {v[std::min<u64>(ci->getZExtValue(), v.size() - 1)]}; return; }
    auto ix = G(1); auto *xi = new XeltInfo{v, scal(I.getOperand(1)->getType())[0].w}; auto &o = def(&I); emit(O_XELT, scal(T)[0].w, o[0], ix[0], 0, 0, 0, xi); return; }
  case Instruction::InsertElement: {
    auto v = G(0), x = G(1); if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) { v[std::min<u64>(ci->getZExtValue(), v.size() - 1)] = x[0]; ops[&I] = v; return; }
    auto ix = G(2); auto &o = def(&I); unsigned wi = scal(I.getOperand(2)->getType())[0].w; for (size_t i = 0; i < v.size(); ++i) emit(O_IELT, scal(T)[0].w, o[i], ix[0], x[0], v[i], i, nullptr, wi); return; }
  case Instruction::ShuffleVector: {
    auto &s = cast<ShuffleVectorInst>(I); auto a = G(0), b = G(1); std::vector<i32> r; for (int m : s.getShuffleMask()) r.push_back(m < 0 ? cst(CV(0)) : m < (int)a.size() ? a[m] : b[m - a.size()]); ops[&I] = r; return; }
  case Instruction::AtomicRMW: { auto &r = cast<AtomicRMWInst>(I); auto p = G(0), v = G(1); auto &o = def(&I); emit(O_RMW, scal(T)[0].w, o[0], p[0], v[0], 0, 0, nullptr, r.getOperation()); return; }
  case Instruction::AtomicCmpXchg: { auto p = G(0), c = G(1), n = G(2); auto &o = def(&I); emit(O_CMPXCHG, scal(I.getOperand(1)->getType())[0].w, o[0], p[0], c[0], n[0], 0, nullptr, 0, cast<AtomicCmpXchgInst>(I).isWeak()); return; }
  case Instruction::Fence: return;
  case Instruction::LandingPad: { auto *li = new LpadInfo(); lpadOf(cast<LandingPadInst>(&I), li); auto &o = def(&I); emit(O_LPAD, 0, o[0], 0, 0, 0, 0, li); return; }
  case Instruction::Resume: { auto v = G(0); emit(O_RESUME, 0, 0, v[0]); return; }
  default: unsup(I); return;
  }
}
void Translator::run() {
  for (auto &a : F.args()) def(&a);
  f->nargs = ns;
  // reverse post order
  std::vector<BasicBlock *> po; std::set<BasicBlock *> seen; std::vector<std::pair<BasicBlock *, unsigned>> st;
  st.push_back({&F.getEntryBlock(), 0}); seen.insert(&F.getEntryBlock());
  while (!st.empty()) { auto &[b, i] = st.back(); auto *t = b->getTerminator(); if (i < t->getNumSuccessors()) { auto *s = t->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s, 0}); } else { po.push_back(b); st.pop_back(); } }
  std::reverse(po.begin(), po.end());
  for (auto *b : po) for (auto &phi : b->phis()) def(&phi);
  for (auto *b : po) { bpc[b] = f->code.size(); for (auto &I : *b) if (!isa<PHINode>(I)) ins(I); }
  for (size_t i = 0; i < pend.size(); ++i) {
    Edge &e = f->edges[i]; e.target = bpc[pend[i].to];
    for (auto &phi : pend[i].to->phis()) {
      auto d = get(&phi); auto s = get(phi.getIncomingValueForBlock(pend[i].from));
      for (size_t k = 0; k < d.size(); ++k) if (d[k] != s[k]) e.copies.push_back({d[k], s[k]});
    }
  }
  f->nslots = ns; f->ready = true;
}
static void prepare(FC *f) { if (f->ready || f->ext) return; if (f->F->isDeclaration()) return; Translator t(f); t.run(); }
