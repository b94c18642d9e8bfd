// kse: a symbolic executor for LLVM 18 bitcode.
//   * objects live at concrete, bounds-checked addresses; bytes may be concrete, symbolic or uninitialised
//   * path forking by fork(2); branch feasibility and assertions decided by BVSolver (bit-blasting + MiniSat, Z3 cross-check)
//   * exceptions, thread-locals, fibers with nondeterministic scheduling at atomic operations
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#undef O_TRUNC
#include <atomic>
#include <functional>
#include <unordered_map>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
using namespace llvm;
static const unsigned kAPEINT = 0;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ shared statistics
struct Shared {
  std::atomic<int> running, stop, engineErrors, nViol, nKnown, errOnce;
  std::atomic<u64> paths, pathsAssume, pathsViol, pathsUnsup, pathsFuel, pathsCut, forks, instrs, queries, qsat, qunsat, qunknown, solverUs,
      z3, z3us, z3unknown, z3disagree, obligSym, obligConc, fpTables, fpEntries, maxPathInstrs, maxVars, uninitReads, schedChoices, symCalls;
  std::atomic<int> nReach;
  struct { char name[96]; std::atomic<u64> n; } reach[256];
  struct { char text[8192]; } viol[24];
  char known[24][512];
  struct { std::atomic<int> set; char text[4096]; } sample[24]; std::atomic<u64> nSampleTry;
  char err[8][1024];
  std::atomic<int> lock;
  std::atomic<u64> z3quota;
  unsigned char fnUsed[1 << 20];
};
static Shared *SH;
static void lockS() { int e = 0; int spins = 0; while (!SH->lock.compare_exchange_weak(e, 1)) { e = 0; if (++spins > 1000) usleep(50); if (spins > 200000) break; } }
static void unlockS() { SH->lock = 0; }

struct Opts {
  std::string module, entry = "harness", out, replay, violDir;
  double timeout = 60; int procs = 8; u64 fuel = 400000000; int trace = 0; int z3every = 64; u64 z3quota = 400;
  bool fuelViol = false, all = false, uninitSym = true, memcheck = true; int maxEnum = 300, maxMergeStore = 64; size_t heapLimit = 6ull << 30;
  std::vector<std::string> known;
  u64 maxPaths = 0;
} opt;

// ------------------------------------------------------------------ memory
static const u64 ARENA = 0x200000000000ull, ARENA_SZ = 1ull << 36; // 64 GB virtual
static const u64 STACK_REGION = 1ull << 28, MAX_FIBERS = 16;
static u32 *gran; static unsigned char *shb; static u64 *symtab;
enum { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
struct Obj { u64 base, size; unsigned char kind, freed, ro; const void *src; };
static std::vector<Obj> objs; static std::vector<u32> freeObjIds;
static u64 heapTop;

static u32 newObj(u64 base, u64 size, int kind, const void *src = nullptr) {
  u32 id; if (!freeObjIds.empty()) { id = freeObjIds.back(); freeObjIds.pop_back(); } else { id = objs.size(); objs.push_back({}); }
  objs[id] = {base, size, (unsigned char)kind, 0, 0, src};
  u64 g0 = (base - ARENA) >> 4, g1 = (base + std::max<u64>(size, 1) - 1 - ARENA) >> 4;
  for (u64 g = g0; g <= g1; ++g) gran[g] = id;
  return id;
}
[[noreturn]] static void endPath(int status);
[[noreturn]] static void unsupported(const std::string &s);
static u64 allocHeap(u64 size, u64 align, int kind, bool zero, const void *src = nullptr) {
  if (align < 16) align = 16;
  u64 a = (heapTop + align - 1) & ~(align - 1);
  if (size > opt.heapLimit || a + size + 64 > ARENA + ARENA_SZ - STACK_REGION * MAX_FIBERS) unsupported("out of arena memory (" + std::to_string(size) + ")");
  heapTop = ((a + size + 15) & ~15ull) + 32;
  newObj(a, size, kind, src);
  if (zero) memset(shb + (a - ARENA), 1, size); // memory itself is fresh => zero
  return a;
}
static inline Obj *findObj(u64 a) { u64 o = a - ARENA; if (o >= ARENA_SZ) return nullptr; u32 id = gran[o >> 4]; return id ? &objs[id] : nullptr; }

struct Val { u64 c; Expr *e; };
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline Val EV(Expr *e) { if (e->op == E_CONST && e->w <= 64) return Val{(u64)e->c, nullptr}; return Val{0, e}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : X.mkConst(v.c, w); }
static inline u64 mk64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ code
enum IOp : u16 {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_SELECT, O_FBIN, O_FNEG, O_FCMP, O_CVT, O_FN1, O_FN2,
  O_LOAD, O_STORE, O_ALLOCA, O_GEPI, O_GEPX, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH,
  O_RMW, O_CMPXCHG, O_LPAD, O_RESUME, O_INTR, O_BITCASTV, O_XELT, O_IELT, O_NOP,
};
struct Ins { u16 op, w, w2, fl; i32 d, a, b, c; u64 imm; void *p; };
struct Edge { u32 target; std::vector<std::pair<i32, i32>> copies; };
struct FC;
struct CallInfo { Function *callee = nullptr; FC *fc = nullptr; i32 fn = 0; std::vector<i32> args; std::vector<u32> byval; std::vector<unsigned> argw; u32 nret = 0; i32 d = 0; int normal = -1, unwind = -1; unsigned iid = 0; const CallBase *cb = nullptr; unsigned retw = 0; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; std::unordered_map<u64, int> map; };
struct LpadInfo { bool cleanup; std::vector<std::pair<bool, u64>> clauses; /* isCatch, typeinfo addr */ };
typedef void (*ExtFn)(CallInfo *ci, Val *args);
struct FC { Function *F; u32 idx; bool ready = false; ExtFn ext = nullptr; std::string name; std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; int nslots = 0, nargs = 0; u64 addr = 0; int funcAction = 0; };
struct Frame { FC *f; u32 pc; Val *fp; CallInfo *ci; u64 stkTop; u32 nStk; };
struct Fiber { std::vector<Frame> frames; std::vector<u32> stk; Val *vbase; u64 stkTop, stkLo; int state; /*0 run,1 done,2 blocked*/ u64 blockAddr; int blockKind; u64 exObj; const void *spinIns; u64 spinAddr; int spinRep; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, FC *> fcs;
static std::vector<FC *> fcList;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static std::map<std::pair<int, const GlobalVariable *>, u64> tlsAddr;
static std::vector<Fiber> fibers; static int cur;
static BVSolver *BS;
static std::unordered_map<Expr *, int> knownCond;
static u64 nInstr, nInstrFlushed;
static std::vector<Val> symLog; // values of kse_sym calls in order, for replay
struct SymCall { std::string name; unsigned w; Expr *e; u64 c; };
static std::vector<SymCall> symCalls;
static std::vector<u64> replayVals; static size_t replayPos; static bool replayMode;
static u64 myAssertsConc, myAssertsSym;
static int preemptBudget = 0; static bool mtMode = false; static const int SPIN_LIMIT = 6;
static std::string tag;

static std::string stackStr(int maxn = 6) {
  std::string s; if (fibers.empty()) return s;
  auto &fr = fibers[cur].frames;
  for (int i = (int)fr.size() - 1, n = 0; i >= 0 && n < maxn; --i, ++n) {
    std::string d = demangle(fr[i].f->name); if (d.size() > 110) d = d.substr(0, 110) + "...";
    s += (n ? " <- " : "") + d;
  }
  return s;
}
static void flushStats() {
  SH->instrs += nInstr - nInstrFlushed; nInstrFlushed = nInstr;
  u64 pm = SH->maxPathInstrs; while (nInstr > pm && !SH->maxPathInstrs.compare_exchange_weak(pm, nInstr)) {}
  u64 pv = SH->maxVars; while (X.vars.size() > pv && !SH->maxVars.compare_exchange_weak(pv, X.vars.size())) {}
  SH->queries += SS.queries; SH->qsat += SS.sat; SH->qunsat += SS.unsat; SH->qunknown += SS.unknown; SH->solverUs += SS.us; SH->z3 += SS.z3; SH->z3us += SS.z3us; SH->z3unknown += SS.z3unknown;
  SH->fpTables += SS.fpTables; SH->fpEntries += SS.fpEntries;
  SS = SolverStats();
  SH->obligConc += myAssertsConc; SH->obligSym += myAssertsSym; myAssertsConc = myAssertsSym = 0;
}
enum { ST_OK, ST_ASSUME, ST_VIOL, ST_UNSUP, ST_FUEL, ST_CUT };
static bool iHoldToken = true; // true: release the token on exit ; false: parent waits for us and keeps it
static std::string symJson(bool names);
static void saveSample() {
  u64 n = SH->nSampleTry++; int slot = -1;
  if (n < 8) slot = n; else { u64 m = n - 8; if ((m & (m - 1)) == 0) { int l = 8; while (m) { m >>= 1; ++l; } slot = l < 24 ? l : 23; } }
  if (slot < 0) return; int z = 0; if (!SH->sample[slot].set.compare_exchange_strong(z, 1)) return;
  std::string t = "{\"inputs\":" + symJson(true) + ",\"seq\":" + symJson(false) + "}";
  if (t.size() >= sizeof(SH->sample[0].text)) { t = "{\"seq\":" + symJson(false) + "}"; if (t.size() >= sizeof(SH->sample[0].text)) { SH->sample[slot].set = 0; return; } }
  strcpy(SH->sample[slot].text, t.c_str()); SH->sample[slot].set = 2;
}
[[noreturn]] static void endPath(int status) {
  if (status == ST_OK) saveSample();
  flushStats();
  switch (status) { case ST_OK: SH->paths++; break; case ST_ASSUME: SH->pathsAssume++; break; case ST_VIOL: SH->pathsViol++; break; case ST_UNSUP: SH->pathsUnsup++; break; case ST_FUEL: SH->pathsFuel++; break; default: SH->pathsCut++; }
  if (opt.maxPaths && SH->paths + SH->pathsAssume > opt.maxPaths) SH->stop = 1;
  if (iHoldToken) SH->running--;
  _exit(0);
}
[[noreturn]] static void unsupported(const std::string &s) {
  lockS(); int k = SH->engineErrors; bool dup = false;
  std::string t = s + " @ " + stackStr(10);
  for (int i = 0; i < std::min(k, 8); ++i) if (!strncmp(SH->err[i], t.c_str(), 1000)) dup = true;
  if (!dup && k < 8) { strncpy(SH->err[k], t.c_str(), 1000); SH->engineErrors++; }
  unlockS();
  if (opt.trace) fprintf(stderr, "UNSUPPORTED %s\n", t.c_str());
  endPath(ST_UNSUP);
}
static void checkStop() { if (SH->stop) endPath(ST_CUT); }

static int forkLog = -1; // --forklog: where paths split
// returns true in the child
static bool forkPath() {
  checkStop();
  if (replayMode) unsupported("fork in replay mode");
  SH->forks++;
  if (forkLog >= 0) { std::string t = stackStr(4) + "\n"; (void)!write(forkLog, t.data(), t.size()); }
  flushStats();
  while (waitpid(-1, nullptr, WNOHANG) > 0) {}
  int r = SH->running; bool conc = false;
  while (r < opt.procs) if (SH->running.compare_exchange_weak(r, r + 1)) { conc = true; break; }
  pid_t p = fork();
  if (p < 0) { if (conc) SH->running--; unsupported("fork failed"); }
  if (p == 0) { iHoldToken = conc; nInstrFlushed = nInstr; return true; }
  if (!conc) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { lockS(); int k = SH->engineErrors; if (k < 8) { snprintf(SH->err[k], 1000, "child died with signal %d", WTERMSIG(st)); SH->engineErrors++; } unlockS(); SH->pathsUnsup++; } }
  checkStop();
  return false;
}

static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string symJson(bool names) {
  std::string v = "[";
  for (size_t i = 0; i < symCalls.size(); ++i) { auto &sc = symCalls[i]; u64 x = sc.e ? (u64)X.eval(sc.e) : sc.c; if (i) v += ","; if (names) v += "[\"" + jesc(sc.name) + "\"," + std::to_string(x) + "]"; else v += std::to_string(x); }
  return v + "]";
}
static void reportViolation(const std::string &kind, const std::string &msg, const std::vector<u128> &model) {
  X.setModel(model);
  std::string vals, seq;
  for (size_t i = 0; i < symCalls.size(); ++i) {
    auto &sc = symCalls[i];
    u64 v = sc.e ? (u64)X.eval(sc.e) : sc.c;
    if (i) { vals += ","; seq += ","; }
    vals += "[\"" + jesc(sc.name) + "\"," + std::to_string(v) + "]";
    seq += std::to_string(v);
  }
  std::string id = kind + ": " + msg + (tag.empty() ? "" : " [" + tag + "]");
  for (auto &k : opt.known) if (id.find(k) != std::string::npos) {
    lockS(); int n = SH->nKnown; bool dup = false; for (int i = 0; i < std::min(n, 24); ++i) if (!strncmp(SH->known[i], id.c_str(), 500)) dup = true;
    if (!dup && n < 24) { strncpy(SH->known[n], id.c_str(), 500); SH->nKnown++; } unlockS();
    return;
  }
  std::string t = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"tag\":\"" + jesc(tag) + "\",\"stack\":\"" + jesc(stackStr(8)) + "\",\"inputs\":[" + vals + "],\"seq\":[" + seq + "]}";
  lockS();
  int n = SH->nViol; bool dup = false;
  for (int i = 0; i < std::min(n, 24); ++i) if (strstr(SH->viol[i].text, ("\"msg\":\"" + jesc(msg) + "\"").c_str())) dup = true;
  if (!dup && n < 24) { if (t.size() >= sizeof(SH->viol[0].text)) { t = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"tag\":\"" + jesc(tag) + "\",\"stack\":\"\",\"inputs\":[],\"seq\":[" + seq + "]}"; if (t.size() >= sizeof(SH->viol[0].text)) t = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"tag\":\"\",\"stack\":\"\",\"inputs\":[],\"seq\":[]}"; } strcpy(SH->viol[n].text, t.c_str()); SH->nViol++; }
  unlockS();
  if (!opt.all) SH->stop = 1;
}
[[noreturn]] static void violation(const std::string &kind, const std::string &msg) { reportViolation(kind, msg, X.model); endPath(ST_VIOL); }

static void crossCheckUnsat(Expr *e) {
  u64 q = SH->z3quota; while (q > 0) if (SH->z3quota.compare_exchange_weak(q, q - 1)) {
    SatRes r = BS->checkZ3(e, 20000000);
    if (r == R_SAT) { SH->z3disagree++; lockS(); int k = SH->engineErrors; if (k < 8) { snprintf(SH->err[k], 1000, "z3 disagrees on an unsat answer"); SH->engineErrors++; } unlockS(); }
    return;
  }
}
static void addPC(Expr *c) {
  if (c->op == E_CONST) { if (!c->c) endPath(ST_ASSUME); return; }
  knownCond[c] = 1;
  if (c->op == E_XOR && c->w == 1 && c->b->op == E_CONST) knownCond[c->a] = 0; else knownCond[X.notE(c)] = 0;
  BS->add(c);
}
static u64 concretize(Expr *e);
static u64 qcount = 0;
// SAT check that transparently concretises FP leaves when their tables would be too large
static SatRes checkC(Expr *e, std::vector<u128> &nm) {
  while (true) {
    BS->fpStuck = false;
    double t0 = forkLog >= 0 ? nowS() : 0; if (forkLog >= 0 && getenv("KSE_QLOG")) { std::string t = "Q " + exprStr(e, 7).substr(0, 300) + " @ " + stackStr(3).substr(0, 300) + "\n"; (void)!write(forkLog, t.data(), t.size()); }
    SatRes r = BS->check(e, nm);
    if (forkLog >= 0 && nowS() - t0 > 0.5) { std::string t = "SLOW " + std::to_string((int)(nowS() - t0)) + " " + stackStr(3) + "\n"; (void)!write(forkLog, t.data(), t.size()); }
    if (r == R_UNKNOWN && BS->fpStuck && BS->fpStuckLeaf) { concretize(BS->fpStuckLeaf); continue; }
    return r;
  }
}
static bool branch(Expr *c) {
  if (c->op == E_CONST) return c->c != 0;
  auto it = knownCond.find(c); if (it != knownCond.end()) return it->second;
  Expr *orig = c;
  while (true) {
    bool v = X.eval(c) != 0;
    Expr *side = v ? c : X.notE(c), *other = v ? X.notE(c) : c;
    std::vector<u128> nm;
    SatRes r = checkC(other, nm);
    bool v2 = X.eval(c) != 0; if (v2 != v) continue; // model changed while concretising
    if (r == R_UNKNOWN) unsupported("solver gave no answer on a branch");
    if (r == R_UNSAT) { knownCond[orig] = v; knownCond[X.notE(orig)] = !v; if ((++qcount % opt.z3every) == 0) crossCheckUnsat(other); return v; }
    if (forkPath()) { X.setModel(nm); addPC(other); return !v; }
    addPC(side); return v;
  }
}
static u64 concretize(Expr *e) {
  if (e->op == E_CONST) return (u64)e->c;
  while (true) {
    u128 v = X.eval(e);
    if (branch(X.eq(e, X.mkConst(v, e->w)))) return (u64)v;
  }
}
static inline u64 CC(const Val &v) { return v.e ? concretize(v.e) : v.c; }
static void assume(Expr *c) {
  if (c->op == E_CONST) { if (!c->c) endPath(ST_ASSUME); return; }
  auto it = knownCond.find(c); if (it != knownCond.end()) { if (!it->second) endPath(ST_ASSUME); return; }
  while (!X.eval(c)) {
    std::vector<u128> nm; SatRes r = checkC(c, nm);
    if (r == R_UNKNOWN) unsupported("solver gave no answer on an assumption");
    if (r == R_UNSAT) endPath(ST_ASSUME);
    X.setModel(nm);
  }
  addPC(c);
}
static void doAssert(Val v, const std::string &kind, const std::string &msg) {
  if (!v.e) { myAssertsConc++; if (!v.c) { violation(kind, msg); } return; }
  myAssertsSym++;
  Expr *c = v.e;
  auto it = knownCond.find(c); if (it != knownCond.end()) { if (!it->second) violation(kind, msg); return; }
  if (!X.eval(c)) { // violated by the current model
    // continue on the satisfying side as well
    std::vector<u128> bad = X.model; reportViolation(kind, msg, bad); checkStop();
    std::vector<u128> nm; SatRes r = checkC(c, nm); if (r != R_SAT) endPath(ST_VIOL);
    X.setModel(nm); addPC(c); return;
  }
  std::vector<u128> nm; SatRes r = checkC(X.notE(c), nm);
  if (r == R_UNKNOWN) unsupported("solver gave no answer on an assertion: " + msg);
  if (r == R_SAT) { std::vector<u128> good = X.model; reportViolation(kind, msg, nm); checkStop(); X.setModel(good); addPC(c); return; }
  crossCheckUnsat(X.notE(c));
  knownCond[c] = 1; knownCond[X.notE(c)] = 0;
}

// ------------------------------------------------------------------ loads and stores
static inline void memErr(const char *what, u64 a, u64 n) {
  Obj *o = findObj(a); std::string d = std::string(what) + " of " + std::to_string(n) + " bytes";
  if (!o) { if (a < 4096) d += " at a null pointer"; else d += " outside any object"; }
  else if (o->freed) d += " in freed memory";
  else { char b[128]; snprintf(b, 128, " at offset %lld of an object of %llu bytes", (long long)(a - o->base), (unsigned long long)o->size); d += b; }
  auto &fr = fibers[cur].frames.back();
  violation("memory", d + " in " + demangle(fr.f->name).substr(0, 120));
}
static Expr *byteExpr(u64 a) {
  u64 o = a - ARENA;
  if (shb[o] == 1) return X.mkConst(*(unsigned char *)a, 8);
  if (shb[o] == 2) { u64 s = symtab[o]; Expr *e = (Expr *)(s & 0xffffffffffffull); return X.extract(e, (unsigned)(s >> 48) * 8, 8); }
  if (!opt.uninitSym) { shb[o] = 1; *(unsigned char *)a = 0xAA; return X.mkConst(0xAA, 8); }
  SH->uninitReads++;
  Expr *v = X.mkVar("uninit@" + demangle(fibers[cur].frames.back().f->name).substr(0, 60), 8);
  shb[o] = 2; symtab[o] = (u64)v; return v;
}
static Val loadSlow(u64 a, unsigned n, unsigned w) {
  u64 o = a - ARENA;
  if (shb[o] == 2) {
    u64 s0 = symtab[o]; Expr *e = (Expr *)(s0 & 0xffffffffffffull);
    if ((s0 >> 48) == 0 && e->w == n * 8) {
      bool ok = true; for (unsigned i = 1; i < n; ++i) if (shb[o + i] != 2 || symtab[o + i] != ((u64)e | (u64)i << 48)) { ok = false; break; }
      if (ok) return EV(w == e->w ? e : X.extract(e, 0, w));
    }
  }
  if (shb[o] == 0) {
    bool all = true; for (unsigned i = 0; i < n; ++i) if (shb[o + i] != 0) all = false;
    if (all && opt.uninitSym && n * 8 <= 128) {
      SH->uninitReads++;
      Expr *v = X.mkVar("uninit@" + demangle(fibers[cur].frames.back().f->name).substr(0, 60), n * 8);
      for (unsigned i = 0; i < n; ++i) { shb[o + i] = 2; symtab[o + i] = (u64)v | (u64)i << 48; }
      return EV(w == n * 8 ? v : X.extract(v, 0, w));
    }
  }
  Expr *r = byteExpr(a);
  for (unsigned i = 1; i < n; ++i) r = X.concat(byteExpr(a + i), r);
  return EV(r->w == w ? r : X.extract(r, 0, w));
}
static inline Val loadC(u64 a, unsigned w) { // bounds already checked
  unsigned n = (w + 7) / 8; u64 o = a - ARENA;
  switch (n) {
  case 1: if (shb[o] == 1) return CV(*(unsigned char *)a & mk64(w)); break;
  case 2: if (*(u16 *)(shb + o) == 0x0101) return CV(*(u16 *)a & mk64(w)); break;
  case 4: if (*(u32 *)(shb + o) == 0x01010101u) return CV(*(u32 *)a & mk64(w)); break;
  case 8: if (*(u64 *)(shb + o) == 0x0101010101010101ull) return CV(*(u64 *)a & mk64(w)); break;
  }
  return loadSlow(a, n, w);
}
static inline void storeC(u64 a, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8; u64 o = a - ARENA;
  if (!v.e) {
    u64 c = v.c;
    switch (n) { case 1: *(unsigned char *)a = c; shb[o] = 1; return; case 2: *(u16 *)a = c; *(u16 *)(shb + o) = 0x0101; return; case 4: *(u32 *)a = c; *(u32 *)(shb + o) = 0x01010101u; return; case 8: *(u64 *)a = c; *(u64 *)(shb + o) = 0x0101010101010101ull; return; }
    memcpy((void *)a, &c, n); memset(shb + o, 1, n); return;
  }
  Expr *e = v.e;
  if (e->op == E_CONST) { u128 c = e->c; memcpy((void *)a, &c, n); memset(shb + o, 1, n); return; }
  if (e->w != n * 8) e = X.zext(e, n * 8);
  for (unsigned i = 0; i < n; ++i) { shb[o + i] = 2; symtab[o + i] = (u64)e | (u64)i << 48; }
}
static inline bool okRange(u64 a, u64 n) { Obj *o = findObj(a); return o && !o->freed && o->kind != K_FUNC && a >= o->base && a + n <= o->base + o->size; }
static inline void checkAcc(u64 a, u64 n, const char *what, bool store = false) {
  Obj *o = findObj(a);
  if (!(o && !o->freed && o->kind != K_FUNC && a >= o->base && a + n <= o->base + o->size)) memErr(what, a, n);
  if (store && o->ro) memErr("store to constant", a, n);
}
static std::unordered_map<Expr *, std::vector<u64>> feasMemo;
// feasible values of e under the path condition; false if more than lim
static bool feasible(Expr *e, unsigned lim, std::vector<u64> &out) {
  auto it = feasMemo.find(e); if (it != feasMemo.end()) { out = it->second; return true; }
  out.clear();
  std::vector<u128> saved = X.model; Expr *block = X.mkConst(1, 1);
  u64 v0 = (u64)X.eval(e); out.push_back(v0); block = X.notE(X.eq(e, X.mkConst(v0, e->w)));
  bool ok = true;
  while (true) {
    std::vector<u128> nm; SatRes r = BS->check(block, nm);
    if (r == R_UNKNOWN) { ok = false; break; }
    if (r == R_UNSAT) break;
    X.setModel(nm); u64 v = (u64)X.eval(e); out.push_back(v);
    block = X.bin(E_AND, block, X.notE(X.eq(e, X.mkConst(v, e->w))));
    if (out.size() > lim) { ok = false; break; }
  }
  X.setModel(saved);
  if (ok) { std::sort(out.begin(), out.end()); feasMemo[e] = out; }
  return ok;
}
// narrow a symbolic address to one object (forking when several are possible); returns that object
static Obj *resolveObj(Expr *ad, unsigned n, const char *what) {
  while (true) {
    u64 a0 = (u64)X.eval(ad);
    Obj *o = findObj(a0);
    if (!(o && !o->freed && o->kind != K_FUNC && a0 >= o->base && a0 + n <= o->base + o->size)) memErr(what, a0, n);
    Expr *in = X.bin(E_ULE, X.bin(E_SUB, ad, X.mkConst(o->base, 64)), X.mkConst(o->size - n, 64));
    if (branch(in)) return o;
  }
}
static Val loadV(const Val &p, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!p.e) { u64 a = p.c + off; checkAcc(a, n, "load"); return loadC(a, w); }
  Expr *ad = X.bin(E_ADD, p.e, X.mkConst(off, 64));
  if (ad->op == E_CONST) { checkAcc((u64)ad->c, n, "load"); return loadC((u64)ad->c, w); }
  std::vector<u64> fs;
  Obj *o = resolveObj(ad, n, "load");
  (void)o;
  if (!feasible(ad, opt.maxEnum, fs)) { u64 a = concretize(ad); checkAcc(a, n, "load"); return loadC(a, w); }
  if (fs.size() == 1) { knownCond[X.eq(ad, X.mkConst(fs[0], 64))] = 1; return loadC(fs[0], w); }
  Expr *r = nullptr;
  for (size_t i = fs.size(); i-- > 0;) {
    Val v = loadC(fs[i], w); Expr *e = toE(v, w);
    r = r ? X.ite(X.eq(ad, X.mkConst(fs[i], 64)), e, r) : e;
  }
  return EV(r);
}
static void storeV(const Val &p, u64 off, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  if (!p.e) { u64 a = p.c + off; checkAcc(a, n, "store", true); storeC(a, w, v); return; }
  Expr *ad = X.bin(E_ADD, p.e, X.mkConst(off, 64));
  if (ad->op == E_CONST) { checkAcc((u64)ad->c, n, "store", true); storeC((u64)ad->c, w, v); return; }
  Obj *o = resolveObj(ad, n, "store");
  if (o->ro) memErr("store to constant", o->base, n);
  std::vector<u64> fs;
  if (!feasible(ad, opt.maxMergeStore, fs)) { u64 a = concretize(ad); checkAcc(a, n, "store", true); storeC(a, w, v); return; }
  unsigned W = n * 8; Expr *nv = X.zext(toE(v, w), W);
  for (u64 a : fs) { Val ov = loadC(a, W); storeC(a, W, EV(X.ite(X.eq(ad, X.mkConst(a, 64)), nv, toE(ov, W)))); }
}
static void memSetV(u64 a, const Val &byte, u64 n) {
  if (!n) return; checkAcc(a, n, "memset", true);
  if (!byte.e) { memset((void *)a, (int)byte.c, n); memset(shb + (a - ARENA), 1, n); }
  else for (u64 i = 0; i < n; ++i) storeC(a + i, 8, EV(X.extract(byte.e, 0, 8)));
}
static void memMoveV(u64 d, u64 s, u64 n) {
  if (!n || d == s) return;
  checkAcc(s, n, "memcpy read"); checkAcc(d, n, "memcpy write", true);
  u64 od = d - ARENA, os = s - ARENA;
  bool anySym = memchr(shb + os, 2, n) != nullptr;
  memmove((void *)d, (void *)s, n); memmove(shb + od, shb + os, n);
  if (anySym) memmove(symtab + od, symtab + os, n * 8);
}
static std::string cstr(u64 a) { std::string s; for (int i = 0; i < 4096; ++i) { if (!okRange(a + i, 1) || shb[a + i - ARENA] != 1) break; char c = *(char *)(a + i); if (!c) break; s += c; } return s; }

#include "translate.inc"
#include "externs.inc"
#include "interp.inc"
#include "main.inc"
