// external functions and harness intrinsics
static Val *extRet; // where the external function writes its scalars
static bool pendThrow, pendRetry, pendResched;
static u64 throwObj;
struct ExInfo { u64 tinfo; int handlers; };
static std::map<u64, ExInfo> exInfo;
static std::vector<std::vector<u64>> caught(MAX_FIBERS); // per fiber
static std::map<u64, int> mutexOwner; // address -> fiber+1
static std::map<u64, u64> heapSize;
static u64 nHeapAllocs;
static bool isFloatW(unsigned w);
#define EXT(name) static void x_##name(CallInfo *ci, Val *a)
static inline void ret(u64 v) { extRet[0] = CV(v); }
static inline void retV(Val v) { extRet[0] = v; }

EXT(malloc) { u64 n = CC(a[0]); ret(allocHeap(n, 16, K_HEAP, false)); }
EXT(calloc) { u64 n = CC(a[0]), m = CC(a[1]); ret(allocHeap(n * m, 16, K_HEAP, true)); }
EXT(alignedAlloc) { u64 al = CC(a[0]), n = CC(a[1]); ret(allocHeap(n, al, K_HEAP, false)); }
EXT(alignedNew) { u64 n = CC(a[0]), al = CC(a[1]); ret(allocHeap(n, al, K_HEAP, false)); }
EXT(posix_memalign) { u64 al = CC(a[1]), n = CC(a[2]); storeV(a[0], 0, 64, CV(allocHeap(n, al, K_HEAP, false))); ret(0); }
static void freeObj(u64 p) {
  if (!p) return; Obj *o = findObj(p);
  if (!o || o->base != p || o->kind != K_HEAP) violation("memory", "free of a pointer that is not the start of a heap block");
  if (o->freed) violation("memory", "double free");
  o->freed = 1;
  if (o->size > (1 << 20)) { u64 lo = (p + 4095) & ~4095ull, hi = (p + o->size) & ~4095ull; if (hi > lo) { madvise((void *)lo, hi - lo, MADV_DONTNEED); madvise(shb + (lo - ARENA), hi - lo, MADV_DONTNEED); } }
}
EXT(free) { freeObj(CC(a[0])); }
EXT(realloc) {
  u64 p = CC(a[0]), n = CC(a[1]); u64 q = allocHeap(n, 16, K_HEAP, false);
  if (p) { Obj *o = findObj(p); if (!o || o->base != p) violation("memory", "realloc of a bad pointer"); memMoveV(q, p, std::min(n, o->size)); freeObj(p); }
  ret(q);
}
EXT(mmap) { ret(allocHeap(CC(a[1]), 4096, K_HEAP, true)); }
EXT(munmap) { freeObj(CC(a[0])); ret(0); }
EXT(memcpy) { u64 d = CC(a[0]), s = CC(a[1]), n = CC(a[2]); memMoveV(d, s, n); if (ci->nret) ret(d); }
EXT(memset) { u64 d = CC(a[0]), n = CC(a[2]); memSetV(d, a[1].e ? a[1] : CV(a[1].c & 255), n); if (ci->nret) ret(d); }
EXT(memcmp) {
  u64 p = CC(a[0]), q = CC(a[1]), n = CC(a[2]); if (!n) { ret(0); return; }
  checkAcc(p, n, "memcmp read"); checkAcc(q, n, "memcmp read");
  Expr *r = X.mkConst(0, 32);
  for (u64 i = n; i-- > 0;) { Expr *x = toE(loadC(p + i, 8), 8), *y = toE(loadC(q + i, 8), 8); r = X.ite(X.eq(x, y), r, X.bin(E_SUB, X.zext(x, 32), X.zext(y, 32))); }
  retV(EV(r));
}
EXT(noop) { for (unsigned i = 0; i < ci->nret; ++i) extRet[i] = ci->retw > 64 ? Val{0, X.mkConst(0, ci->retw)} : CV(0); }
EXT(one) { ret(1); }
EXT(abort) { violation("abort", "abort() called"); }
EXT(terminate) { violation("abort", "std::terminate called"); }
EXT(exit) { violation("abort", "exit() called"); }
EXT(purevirt) { violation("abort", "pure virtual call"); }
EXT(assert_fail) { violation("assertion", "assert failed: " + cstr(a[0].c)); }
EXT(glibcxx_assert_fail) { violation("assertion", "libstdc++ assertion: " + cstr(a[3].c) + " in " + cstr(a[2].c)); }

// ---- exceptions
EXT(cxa_allocate_exception) { ret(allocHeap(CC(a[0]), 16, K_HEAP, true)); }
EXT(cxa_free_exception) {}
static void doThrow(u64 obj, u64 ti) { exInfo[obj].tinfo = ti; pendThrow = true; throwObj = obj; }
EXT(cxa_throw) { doThrow(CC(a[0]), CC(a[1])); }
EXT(cxa_begin_catch) { u64 o = CC(a[0]); caught[cur].push_back(o); ret(o); }
EXT(cxa_end_catch) { if (!caught[cur].empty()) caught[cur].pop_back(); }
EXT(cxa_rethrow) { if (caught[cur].empty()) violation("abort", "rethrow without exception"); pendThrow = true; throwObj = caught[cur].back(); }
EXT(cxa_get_exception_ptr) { ret(CC(a[0])); }
static std::map<std::string, u64> stdTI;
static u64 stdTypeInfo(const std::string &mangled) {
  if (auto *g = M->getGlobalVariable(mangled, true)) return globalAddr(g);
  auto it = stdTI.find(mangled); if (it != stdTI.end()) return it->second;
  return stdTI[mangled] = allocHeap(64, 16, K_GLOBAL, true);
}
static std::string tiName(u64 ti) {
  Obj *o = findObj(ti); if (o && o->src) return ((const GlobalValue *)o->src)->getName().str();
  for (auto &p : stdTI) if (p.second == ti) return p.first;
  return "?";
}
static const std::map<std::string, std::string> &stdParents() {
  static const std::map<std::string, std::string> m{{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  return m;
}
static bool tiIsA(u64 ti, u64 want, int depth = 0) {
  if (ti == want) return true; if (depth > 8) return false;
  std::string n = tiName(ti); auto it = stdParents().find(n);
  if (it != stdParents().end()) return tiIsA(stdTypeInfo(it->second), want, depth + 1);
  Obj *o = findObj(ti); if (!o || !o->src) return false;
  auto *gv = (const GlobalVariable *)o->src; if (!gv->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(gv->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3) return tiIsA(constAddr(cs->getOperand(2)), want, depth + 1);
  for (unsigned i = 4; i < cs->getNumOperands(); i += 2) if (tiIsA(constAddr(cs->getOperand(i)), want, depth + 1)) return true;
  return false;
}
template <int K> static void x_stdthrow(CallInfo *ci, Val *a) {
  static const char *n[] = {"_ZTISt11logic_error", "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt17bad_function_call", "_ZTISt8bad_cast", "_ZTISt20bad_array_new_length", "_ZTISt18bad_variant_access", "_ZTISt12system_error", "_ZTISt13runtime_error"};
  doThrow(allocHeap(64, 16, K_HEAP, true), stdTypeInfo(n[K]));
}
EXT(guard_acquire) { u64 g = CC(a[0]); checkAcc(g, 8, "guard"); ret(loadC(g, 8).c ? 0 : 1); }
EXT(guard_release) { u64 g = CC(a[0]); storeC(g, 8, CV(1)); }

// ---- libm
template <int FN, int W> static void x_math1(CallInfo *ci, Val *a) { retV(EV(X.mk(E_FUNC1, W, toE(a[0], W), nullptr, nullptr, FN))); }
template <int FN, int W> static void x_math2(CallInfo *ci, Val *a) { retV(EV(X.mk(E_FUNC2, W, toE(a[0], W), toE(a[1], W), nullptr, FN))); }
template <int W> static void x_lround(CallInfo *ci, Val *a) { retV(EV(X.mk(E_FPTOSI, 64, X.mk(E_FUNC1, W, toE(a[0], W), nullptr, nullptr, MF_ROUND), nullptr, nullptr, 0))); }
template <int W> static void x_lrint(CallInfo *ci, Val *a) { retV(EV(X.mk(E_FPTOSI, 64, X.mk(E_FUNC1, W, toE(a[0], W), nullptr, nullptr, MF_RINT), nullptr, nullptr, 0))); }

// ---- harness intrinsics
static Expr *newSym(const std::string &name, unsigned w, u64 forced, bool haveForced, u64 &cv) {
  SH->symCalls++;
  if (haveForced) { cv = forced & mk64(w); symCalls.push_back({name, w, nullptr, cv}); return nullptr; }
  Expr *v = X.mkVar(name, w); symCalls.push_back({name, w, v, 0}); return v;
}
static bool nextReplay(u64 &v) { if (!replayMode) return false; v = replayPos < replayVals.size() ? replayVals[replayPos] : 0; replayPos++; return true; }
static unsigned bitsFor(u64 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n ? n : 1; }
static void symRange(const std::string &name, u64 lo, u64 hi, bool sgn) {
  if (sgn ? (i64)lo > (i64)hi : lo > hi) endPath(ST_ASSUME);
  u64 fv = 0; bool fr = nextReplay(fv);
  if (lo == hi) { symCalls.push_back({name, 64, nullptr, lo}); ret(lo); return; }
  if (fr) { u64 cv; newSym(name, 64, fv, true, cv); if (sgn ? ((i64)cv < (i64)lo || (i64)cv > (i64)hi) : (cv < lo || cv > hi)) endPath(ST_ASSUME); ret(cv); return; }
  u64 span = hi - lo; unsigned w = bitsFor(span); SH->symCalls++;
  Expr *v = X.mkVar(name, w, span); Expr *full = X.bin(E_ADD, X.zext(v, 64), X.mkConst(lo, 64));
  symCalls.push_back({name, 64, full, 0});
  if (span != mk64(w)) { Expr *cst = X.bin(E_ULE, v, X.mkConst(span, w)); assume(cst); }
  retV(EV(full));
}
EXT(kse_sym) { unsigned w = CC(a[1]); std::string n = cstr(CC(a[0])); u64 fv = 0, cv; bool fr = nextReplay(fv); Expr *e = newSym(n, w, fv, fr, cv); if (fr) ret(cv); else retV(EV(X.zext(e, 64))); }
EXT(kse_range) { symRange(cstr(CC(a[0])), CC(a[1]), CC(a[2]), false); }
EXT(kse_srange) { symRange(cstr(CC(a[0])), CC(a[1]), CC(a[2]), true); }
EXT(kse_sym_bytes) { std::string n = cstr(CC(a[2])); u64 p = CC(a[0]), k = CC(a[1]); if (!k) return; checkAcc(p, k, "kse_sym_bytes", true); for (u64 i = 0; i < k; ++i) { u64 fv = 0, cv; bool fr = nextReplay(fv); Expr *e = newSym(n + "[" + std::to_string(i) + "]", 8, fv, fr, cv); storeC(p + i, 8, fr ? CV(cv) : EV(e)); } }
static Val truth(const Val &v, unsigned w) { if (!v.e) return CV((v.c & mk64(w)) != 0); if (w == 1) return v; return EV(X.notE(X.eq(v.e, X.mkConst(0, w)))); }
EXT(kse_assume) { Val t = truth(a[0], ci->argw[0]); if (t.e) assume(t.e); else if (!t.c) endPath(ST_ASSUME); }
EXT(kse_assert) { double t0 = forkLog >= 0 ? nowS() : 0; doAssert(truth(a[0], ci->argw[0]), "property", cstr(CC(a[1]))); if (forkLog >= 0 && nowS() - t0 > 0.5) { std::string t = "SLOWASSERT " + std::to_string((int)(nowS() - t0)) + " " + cstr(CC(a[1])) + "\n"; (void)!write(forkLog, t.data(), t.size()); } }
EXT(kse_fail) { violation("property", cstr(CC(a[0]))); }
EXT(kse_kassert_fail) { violation("kassert", cstr(CC(a[0]))); }
EXT(kse_reach) {
  std::string n = cstr(CC(a[0])); lockS(); int k = SH->nReach, i = 0; for (; i < k; ++i) if (!strncmp(SH->reach[i].name, n.c_str(), 95)) break;
  if (i == k && k < 256) { strncpy(SH->reach[k].name, n.c_str(), 95); SH->nReach = k + 1; } if (i < 256) SH->reach[i].n++; unlockS();
}
EXT(kse_choose) {
  u64 n = CC(a[1]); if (n == 0) endPath(ST_ASSUME); std::string name = cstr(CC(a[0])); u64 fv = 0; bool fr = nextReplay(fv);
  if (fr) { if (fv >= n) endPath(ST_ASSUME); symCalls.push_back({name, 64, nullptr, fv}); ret(fv); return; }
  u64 v = 0; SH->schedChoices++;
  for (; v + 1 < n; ++v) if (!forkPath()) break; // the child explores larger values
  symCalls.push_back({name, 64, nullptr, v}); ret(v);
}
EXT(kse_concretize) { ret(CC(a[0])); }
EXT(kse_is_sym) { ret(a[0].e != nullptr); }
EXT(kse_print) { if (opt.trace || replayMode) { Val v = a[1]; fprintf(stderr, "[%d] %s = %llu %s\n", getpid(), cstr(CC(a[0])).c_str(), (unsigned long long)(v.e ? (u64)X.eval(v.e) : v.c), v.e ? exprStr(v.e, getenv("KSE_DEPTH") ? atoi(getenv("KSE_DEPTH")) : 4).c_str() : ""); } }
EXT(kse_check_init) { u64 p = CC(a[0]), n = CC(a[1]); checkAcc(p, n, "kse_check_init"); for (u64 i = 0; i < n; ++i) if (shb[p + i - ARENA] == 0) violation("property", "uninitialised memory: " + cstr(CC(a[2]))); }
EXT(kse_make_uninit) { u64 p = CC(a[0]), n = CC(a[1]); checkAcc(p, n, "kse_make_uninit", true); memset(shb + (p - ARENA), 0, n); }
EXT(kse_readonly) { u64 p = CC(a[0]); Obj *o = findObj(p); if (o) o->ro = CC(a[1]) != 0; }
EXT(kse_tag) { tag = cstr(CC(a[0])); }
EXT(kse_end) { endPath(ST_OK); }
EXT(kse_symbolic) { ret(1); }
// bitwise (non-forking) boolean helpers on 32-bit ints
EXT(kse_ite64) { Val t = truth(a[0], ci->argw[0]); if (!t.e) retV(t.c ? a[1] : a[2]); else retV(EV(X.ite(t.e, toE(a[1], 64), toE(a[2], 64)))); }
// ---- fibers
static int newFiber();
static void pushCall(int fib, FC *f, const std::vector<Val> &args);
EXT(kse_spawn) {
  u64 fn = CC(a[0]); auto it = fnByAddr.find(fn); if (it == fnByAddr.end()) unsupported("kse_spawn of a non-function");
  int id = -1; for (size_t i = 1; i < fibers.size(); ++i) if (fibers[i].state == 3) { id = i; break; } // a worker that was joined takes the next job
  if (id < 0) id = newFiber(); else { fibers[id].state = 0; fibers[id].spinIns = nullptr; fibers[id].spinRep = 0; }
  pushCall(id, it->second, {a[1]}); ret(id);
}
EXT(kse_done) { ret(fibers[CC(a[0])].state == 1); }
EXT(kse_self) { ret(cur); }
EXT(kse_yield) { pendResched = true; }
EXT(kse_join) { u64 id = CC(a[0]); if (fibers[id].state == 1) fibers[id].state = 3; else { pendRetry = true; pendResched = true; fibers[cur].state = 2; fibers[cur].blockKind = 1; fibers[cur].blockAddr = id; } }
EXT(kse_block_until) { // (const int* flag): block until *flag != 0
  u64 p = CC(a[0]); Val v = loadV(CV(p), 0, 32); if (!CC(v)) { pendRetry = true; pendResched = true; fibers[cur].state = 2; fibers[cur].blockKind = 2; fibers[cur].blockAddr = p; } }
EXT(kse_mt) { preemptBudget = (int)(i64)CC(a[0]); mtMode = preemptBudget >= 0; }
EXT(mutex_lock) {
  u64 m = CC(a[0]); if (ci->nret) ret(0); int &o = mutexOwner[m];
  if (o == 0) { o = cur + 1; return; }
  if (o == cur + 1) violation("deadlock", "mutex locked twice by the same thread");
  pendRetry = pendResched = true; fibers[cur].state = 2; fibers[cur].blockKind = 3; fibers[cur].blockAddr = m;
}
EXT(mutex_unlock) { mutexOwner[CC(a[0])] = 0; if (ci->nret) ret(0); }
EXT(mutex_trylock) { int &o = mutexOwner[CC(a[0])]; if (!o) { o = cur + 1; ret(0); } else ret(16); }

static std::unordered_map<std::string, ExtFn> &extTable() {
  static std::unordered_map<std::string, ExtFn> t{
    {"malloc", x_malloc}, {"_Znwm", x_malloc}, {"_Znam", x_malloc}, {"_ZnwmRKSt9nothrow_t", x_malloc}, {"_ZnamRKSt9nothrow_t", x_malloc}, {"calloc", x_calloc}, {"free", x_free}, {"_ZdlPv", x_free}, {"_ZdaPv", x_free}, {"_ZdlPvm", x_free}, {"_ZdaPvm", x_free}, {"_ZdlPvSt11align_val_t", x_free}, {"_ZdlPvmSt11align_val_t", x_free}, {"_ZdaPvSt11align_val_t", x_free}, {"_ZdaPvmSt11align_val_t", x_free}, {"_ZdlPvRKSt9nothrow_t", x_free}, {"_ZdaPvRKSt9nothrow_t", x_free},
    {"_ZnwmSt11align_val_t", x_alignedNew}, {"_ZnamSt11align_val_t", x_alignedNew}, {"aligned_alloc", x_alignedAlloc}, {"posix_memalign", x_posix_memalign}, {"realloc", x_realloc}, {"mmap", x_mmap}, {"munmap", x_munmap}, {"madvise", x_noop},
    {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset}, {"memcmp", x_memcmp}, {"bcmp", x_memcmp},
    {"abort", x_abort}, {"_ZSt9terminatev", x_terminate}, {"__clang_call_terminate", x_terminate}, {"exit", x_exit}, {"_exit", x_exit}, {"_Exit", x_exit}, {"__cxa_pure_virtual", x_purevirt}, {"__assert_fail", x_assert_fail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", x_glibcxx_assert_fail},
    {"__cxa_allocate_exception", x_cxa_allocate_exception}, {"__cxa_free_exception", x_cxa_free_exception}, {"__cxa_throw", x_cxa_throw}, {"__cxa_begin_catch", x_cxa_begin_catch}, {"__cxa_end_catch", x_cxa_end_catch}, {"__cxa_rethrow", x_cxa_rethrow}, {"__cxa_get_exception_ptr", x_cxa_get_exception_ptr},
    {"__cxa_guard_acquire", x_guard_acquire}, {"__cxa_guard_release", x_guard_release}, {"__cxa_guard_abort", x_noop}, {"__cxa_atexit", x_noop}, {"__cxa_thread_atexit", x_noop}, {"atexit", x_noop},
    {"_ZSt19__throw_logic_errorPKc", x_stdthrow<0>}, {"_ZSt20__throw_length_errorPKc", x_stdthrow<1>}, {"_ZSt20__throw_out_of_rangePKc", x_stdthrow<2>}, {"_ZSt24__throw_out_of_range_fmtPKcz", x_stdthrow<2>}, {"_ZSt24__throw_invalid_argumentPKc", x_stdthrow<3>}, {"_ZSt17__throw_bad_allocv", x_stdthrow<4>}, {"_ZSt25__throw_bad_function_callv", x_stdthrow<5>}, {"_ZSt16__throw_bad_castv", x_stdthrow<6>}, {"_ZSt28__throw_bad_array_new_lengthv", x_stdthrow<7>}, {"_ZSt26__throw_bad_variant_accessPKc", x_stdthrow<8>}, {"_ZSt20__throw_system_errori", x_stdthrow<9>}, {"_ZSt21__throw_runtime_errorPKc", x_stdthrow<10>}, {"_ZSt19__throw_range_errorPKc", x_stdthrow<10>}, {"_ZSt20__throw_future_errori", x_stdthrow<0>},
    {"ceil", x_math1<MF_CEIL, 64>}, {"floor", x_math1<MF_FLOOR, 64>}, {"trunc", x_math1<MF_TRUNC, 64>}, {"round", x_math1<MF_ROUND, 64>}, {"sqrt", x_math1<MF_SQRT, 64>}, {"log", x_math1<MF_LOG, 64>}, {"log2", x_math1<MF_LOG2, 64>}, {"log10", x_math1<MF_LOG10, 64>}, {"exp", x_math1<MF_EXP, 64>}, {"exp2", x_math1<MF_EXP2, 64>}, {"log1p", x_math1<MF_LOG1P, 64>}, {"sin", x_math1<MF_SIN, 64>}, {"cos", x_math1<MF_COS, 64>}, {"fabs", x_math1<MF_FABS, 64>},
    {"ceilf", x_math1<MF_CEIL, 32>}, {"floorf", x_math1<MF_FLOOR, 32>}, {"truncf", x_math1<MF_TRUNC, 32>}, {"roundf", x_math1<MF_ROUND, 32>}, {"sqrtf", x_math1<MF_SQRT, 32>}, {"logf", x_math1<MF_LOG, 32>}, {"log2f", x_math1<MF_LOG2, 32>}, {"expf", x_math1<MF_EXP, 32>}, {"exp2f", x_math1<MF_EXP2, 32>}, {"fabsf", x_math1<MF_FABS, 32>},
    {"ceill", x_math1<MF_CEIL, 80>}, {"floorl", x_math1<MF_FLOOR, 80>}, {"logl", x_math1<MF_LOG, 80>}, {"log2l", x_math1<MF_LOG2, 80>}, {"expl", x_math1<MF_EXP, 80>}, {"sqrtl", x_math1<MF_SQRT, 80>},
    {"pow", x_math2<MF_POW, 64>}, {"fmin", x_math2<MF_FMIN, 64>}, {"fmax", x_math2<MF_FMAX, 64>}, {"fmod", x_math2<MF_FMOD, 64>}, {"powf", x_math2<MF_POW, 32>}, {"fmodf", x_math2<MF_FMOD, 32>}, {"fminf", x_math2<MF_FMIN, 32>}, {"fmaxf", x_math2<MF_FMAX, 32>}, {"__pow_finite", x_math2<MF_POW, 64>},
    {"lround", x_lround<64>}, {"lroundf", x_lround<32>}, {"llround", x_lround<64>}, {"lrint", x_lrint<64>},
    {"kse_sym", x_kse_sym}, {"kse_range", x_kse_range}, {"kse_srange", x_kse_srange}, {"kse_sym_bytes", x_kse_sym_bytes}, {"kse_assume", x_kse_assume}, {"kse_assert", x_kse_assert}, {"kse_fail", x_kse_fail}, {"kse_kassert_fail", x_kse_kassert_fail}, {"kse_reach", x_kse_reach}, {"kse_choose", x_kse_choose}, {"kse_concretize", x_kse_concretize}, {"kse_is_sym", x_kse_is_sym}, {"kse_print", x_kse_print}, {"kse_check_init", x_kse_check_init}, {"kse_make_uninit", x_kse_make_uninit}, {"kse_readonly", x_kse_readonly}, {"kse_tag", x_kse_tag}, {"kse_end", x_kse_end}, {"kse_symbolic", x_kse_symbolic}, {"kse_ite64", x_kse_ite64},
    {"kse_spawn", x_kse_spawn}, {"kse_done", x_kse_done}, {"kse_self", x_kse_self}, {"kse_yield", x_kse_yield}, {"kse_join", x_kse_join}, {"kse_block_until", x_kse_block_until}, {"kse_mt", x_kse_mt},
    {"pthread_mutex_lock", x_mutex_lock}, {"pthread_mutex_unlock", x_mutex_unlock}, {"pthread_mutex_trylock", x_mutex_trylock}, {"pthread_mutex_init", x_noop}, {"pthread_mutex_destroy", x_noop}, {"pthread_spin_lock", x_mutex_lock}, {"pthread_spin_unlock", x_mutex_unlock}, {"sched_yield", x_kse_yield},
    {"_ZNSt8ios_base4InitC1Ev", x_noop}, {"_ZNSt8ios_base4InitD1Ev", x_noop}, {"omp_get_max_threads", x_one}, {"omp_get_num_threads", x_one}, {"omp_get_thread_num", x_noop}, {"sched_getcpu", x_noop}, {"getpid", x_one}, {"fflush", x_noop}, {"printf", x_noop}, {"fprintf", x_noop}, {"puts", x_noop}, {"putchar", x_noop}, {"fwrite", x_noop}, {"fputs", x_noop}, {"fputc", x_noop}, {"time", x_one}, {"clock_gettime", x_noop}, {"_ZNSt6chrono3_V212system_clock3nowEv", x_noop}, {"_ZNSt6chrono3_V212steady_clock3nowEv", x_noop},
    // std exception constructors/destructors (payload ignored)
    {"_ZNSt9exceptionD2Ev", x_noop}, {"_ZNSt9exceptionD1Ev", x_noop}, {"_ZNSt9exceptionD0Ev", x_noop}, {"_ZNSt13runtime_errorC1EPKc", x_noop}, {"_ZNSt13runtime_errorC2EPKc", x_noop}, {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", x_noop}, {"_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", x_noop}, {"_ZNSt13runtime_errorD1Ev", x_noop}, {"_ZNSt13runtime_errorD2Ev", x_noop}, {"_ZNSt11logic_errorC1EPKc", x_noop}, {"_ZNSt11logic_errorC2EPKc", x_noop}, {"_ZNSt11logic_errorD1Ev", x_noop}, {"_ZNSt11logic_errorD2Ev", x_noop}, {"_ZNSt16invalid_argumentC1EPKc", x_noop}, {"_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", x_noop}, {"_ZNSt16invalid_argumentD1Ev", x_noop}, {"_ZNSt12out_of_rangeC1EPKc", x_noop}, {"_ZNSt12out_of_rangeD1Ev", x_noop}, {"_ZNSt12length_errorC1EPKc", x_noop}, {"_ZNSt12length_errorD1Ev", x_noop}, {"_ZNSt13runtime_errorC2ERKS_", x_noop}, {"_ZNSt13runtime_errorC1ERKS_", x_noop}, {"_ZNSt9bad_allocD1Ev", x_noop},
  };
  return t;
}
