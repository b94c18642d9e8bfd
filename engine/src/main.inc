static void runFunction(FC *f, const std::vector<Val> &args) {
  size_t depth = fibers[0].frames.size(); cur = 0; pushCall(0, f, args); interp(0, depth);
}
static void explore() {
  newFiber(); cur = 0;
  // address-taken functions need addresses for indirect calls; done lazily by funcAddr
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v;
    for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) runFunction(getFC(p.second), {});
    fibers[0].state = 0;
  }
  Function *f = M->getFunction(opt.entry); if (!f) unsupported("no entry function " + opt.entry);
  runFunction(getFC(f), {});
  endPath(ST_OK);
}
static std::string slurp(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return ""; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// the optimizer leaves plain uses of thread-local globals next to llvm.threadlocal.address: make them all explicit
static void lowerThreadLocals() {
  std::vector<GlobalVariable *> tls; for (auto &g : M->globals()) if (g.isThreadLocal()) tls.push_back(&g);
  if (tls.empty()) return;
  std::vector<Constant *> cs(tls.begin(), tls.end()); convertUsersOfConstantsToInstructions(cs);
  for (auto *g : tls) {
    std::vector<Use *> us; for (Use &u : g->uses()) if (auto *in = dyn_cast<Instruction>(u.getUser())) { auto *ii = dyn_cast<IntrinsicInst>(in); if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
    for (Use *u : us) {
      auto *in = cast<Instruction>(u->getUser()); Instruction *at = in; if (auto *ph = dyn_cast<PHINode>(in)) at = ph->getIncomingBlock(*u)->getTerminator();
      auto *c = CallInst::Create(Intrinsic::getDeclaration(M.get(), Intrinsic::threadlocal_address, {g->getType()}), {g}, "", at); u->set(c);
    }
  }
}
// adds the engine's scheduling points to a module, so that native code can follow an explored schedule
static int instrument(const std::string &in, const std::string &out) {
  SMDiagnostic err; auto m = parseIRFile(in, err, LC); if (!m) { err.print("kse", errs()); return 2; }
  auto fn = m->getOrInsertFunction("kse_sync", FunctionType::get(Type::getVoidTy(LC), {Type::getInt64Ty(LC), PointerType::getUnqual(LC)}, false));
  u64 id = std::hash<std::string>()(in) << 20;
  for (auto &f : *m) for (auto &b : f) { std::vector<Instruction *> v; for (auto &i : b) if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || ((isa<LoadInst>(i) || isa<StoreInst>(i)) && i.isAtomic())) v.push_back(&i);
    for (auto *i : v) { Value *p = isa<AtomicRMWInst>(i) ? cast<AtomicRMWInst>(i)->getPointerOperand() : isa<AtomicCmpXchgInst>(i) ? cast<AtomicCmpXchgInst>(i)->getPointerOperand() : const_cast<Value *>(getLoadStorePointerOperand(i)); CallInst::Create(fn, {ConstantInt::get(Type::getInt64Ty(LC), ++id), p}, "", i); } }
  std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 2; WriteBitcodeToFile(*m, os); return 0;
}
int main(int argc, char **argv) {
  if (argc == 4 && !strcmp(argv[1], "--instrument")) return instrument(argv[2], argv[3]);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--module") opt.module = nx(); else if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--timeout") opt.timeout = atof(nx().c_str());
    else if (a == "--procs") opt.procs = atoi(nx().c_str()); else if (a == "--fuel") opt.fuel = strtoull(nx().c_str(), 0, 10); else if (a == "--fuel-violation") opt.fuelViol = true; else if (a == "--trace") opt.trace = 1; else if (a == "--all") opt.all = true;
    else if (a == "--z3every") opt.z3every = atoi(nx().c_str()); else if (a == "--z3quota") opt.z3quota = atoll(nx().c_str()); else if (a == "--known") opt.known.push_back(nx()); else if (a == "--replay") { replayMode = true; std::string s = nx(); const char *p = s.c_str(); while (*p) { char *e; u64 v = strtoull(p, &e, 10); if (e == p) { ++p; continue; } replayVals.push_back(v); p = e; } }
    else if (a == "--forklog") forkLog = open(nx().c_str(), 1 | 0100 | 01000 | 02000, 0644); else if (a == "--max-paths") opt.maxPaths = atoll(nx().c_str()); else if (a == "--max-enum") opt.maxEnum = atoi(nx().c_str()); else if (a == "--uninit-concrete") opt.uninitSym = false;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  double t0 = nowS();
  SMDiagnostic err; M = parseIRFile(opt.module, err, LC); if (!M) { err.print("kse", errs()); return 2; }
  lowerThreadLocals();
  DL = &M->getDataLayout();
  { u32 k = 0; for (auto &f : *M) fnOrd[&f] = k++; }
  auto res = [&](u64 sz, u64 at) { void *p = mmap((void *)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } madvise(p, sz, MADV_NOHUGEPAGE); return p; };
  res(ARENA_SZ, ARENA); gran = (u32 *)res(ARENA_SZ / 16 * 4, 0); shb = (unsigned char *)res(ARENA_SZ, 0); symtab = (u64 *)res(ARENA_SZ * 8, 0);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->z3quota = opt.z3quota;
  objs.push_back({}); heapTop = ARENA + 4096; fibers.reserve(MAX_FIBERS);
  BS = new BVSolver();
  double tLoad = nowS() - t0;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH->running = 1;
  pid_t root = fork();
  if (root == 0) { setpgid(0, 0); explore(); }
  setpgid(root, root);
  bool deadline = false; double tStop = 0; bool crashed = false;
  while (true) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { if (WIFSIGNALED(st) && !tStop) { crashed = true; SH->running--; fprintf(stderr, "kse: process died with signal %d\n", WTERMSIG(st)); lockS(); int k = SH->engineErrors; if (k < 8) { snprintf(SH->err[k], 1000, "exploration process died with signal %d", WTERMSIG(st)); SH->engineErrors++; } unlockS(); } continue; }
    if (p < 0) break; // no children left
    if (!deadline && nowS() - t0 > opt.timeout) { deadline = true; SH->stop = 1; }
    if (SH->stop && !tStop) tStop = nowS();
    if (tStop && nowS() - tStop > 3) { kill(-root, SIGKILL); }
    usleep(2000);
  }
  (void)crashed;
  double el = nowS() - t0;
  bool complete = !deadline && !SH->pathsUnsup && !SH->pathsFuel && !SH->pathsCut && !SH->engineErrors && !(SH->stop);
  std::string o = "{";
  auto K = [&](const char *k, u64 v) { o += std::string(o.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
  o += std::string("\"complete\":") + (complete ? "true" : "false") + ",\"deadline\":" + (deadline ? "true" : "false");
  K("paths", SH->paths); K("paths_infeasible", SH->pathsAssume); K("paths_violating", SH->pathsViol); K("paths_unsupported", SH->pathsUnsup); K("paths_fuel", SH->pathsFuel); K("paths_cut", SH->pathsCut); K("forks", SH->forks);
  K("instructions", SH->instrs); K("max_path_instructions", SH->maxPathInstrs); K("queries", SH->queries); K("sat", SH->qsat); K("unsat", SH->qunsat); K("unknown", SH->qunknown); K("solver_us", SH->solverUs); K("z3_crosschecks", SH->z3); K("z3_us", SH->z3us); K("z3_unknown", SH->z3unknown); K("z3_disagree", SH->z3disagree);
  K("assertions_symbolic", SH->obligSym); K("assertions_concrete", SH->obligConc); K("fp_tables", SH->fpTables); K("fp_entries", SH->fpEntries); K("max_vars", SH->maxVars); K("uninit_reads", SH->uninitReads); K("sched_choices", SH->schedChoices); K("sym_calls", SH->symCalls);
  char b[64]; snprintf(b, 64, ",\"wall_s\":%.3f,\"load_s\":%.3f", el, tLoad); o += b;
  o += ",\"reach\":{"; for (int i = 0; i < SH->nReach; ++i) o += std::string(i ? "," : "") + "\"" + jesc(SH->reach[i].name) + "\":" + std::to_string((u64)SH->reach[i].n); o += "}";
  o += ",\"functions\":["; { bool first = true; u32 k = 0; u64 nf = 0; for (auto &f : *M) { if (k < sizeof(SH->fnUsed) && SH->fnUsed[k]) { ++nf; std::string d = demangle(f.getName().str()); if (d.find("kaminpar") != std::string::npos || d.find("streamvbyte") != std::string::npos) { if (d.size() > 200) d = d.substr(0, 200) + "..."; o += (first ? "" : ",") + ("\"" + jesc(d) + "\""); first = false; } } ++k; } o += "]"; K("functions_total", nf); }
  o += ",\"samples\":["; { bool f = true; for (auto &sm : SH->sample) if (sm.set == 2) { o += (f ? "" : ",") + std::string(sm.text); f = false; } } o += "]";
  o += ",\"violations\":["; for (int i = 0; i < SH->nViol; ++i) o += std::string(i ? "," : "") + SH->viol[i].text; o += "]";
  o += ",\"known\":["; for (int i = 0; i < SH->nKnown; ++i) o += std::string(i ? "," : "") + "\"" + jesc(SH->known[i]) + "\""; o += "]";
  o += ",\"errors\":["; for (int i = 0; i < std::min<int>(8, SH->engineErrors); ++i) o += std::string(i ? "," : "") + "\"" + jesc(SH->err[i]) + "\""; o += "]}";
  if (opt.out.empty()) printf("%s\n", o.c_str()); else { FILE *f = fopen(opt.out.c_str(), "w"); if (!f) { perror("out"); return 2; } fwrite(o.data(), 1, o.size(), f); fclose(f); }
  return 0;
}
