// ------------------------------------------------------------------------------------------------ native side (replay and constructor time)
static uint64_t gSoLo = 0, gSoHi = 0;
struct NBlk { void* p; size_t n; bool live; };
static NBlk* gNB = nullptr; static size_t gNBn = 0; static uint64_t gNLive = 0;
static const size_t kNB = 1 << 20;
static inline bool fromSo(void* ra) { return gReplay && (uint64_t)ra >= gSoLo && (uint64_t)ra < gSoHi; }
static void trackNew(void* p, size_t n) { if (!p || gNBn >= kNB) return; gNB[gNBn++] = {p, n, true}; ++gNLive; }
static void trackDel(void* p) { if (!gReplay || !p) return; for (size_t i = gNBn; i-- > 0;) if (gNB[i].p == p && gNB[i].live) { gNB[i].live = false; --gNLive; return; } }
extern "C" {
void* malloc(size_t n) { void* ra = __builtin_return_address(0); if (fromSo(ra)) { if (n > gAllocMax) return nullptr; void* p = __libc_malloc(n); trackNew(p, n); return p; } return __libc_malloc(n); }
void* calloc(size_t a, size_t n) { void* p = __libc_calloc(a, n); if (fromSo(__builtin_return_address(0))) trackNew(p, a * n); return p; }
void free(void* p)
{
    if (__builtin_expect(gArena && inArena((uint64_t)p), 0)) { freePtr((uint64_t)p, false); return; }
    if (gReplay) trackDel(p);
    __libc_free(p);
}
void* realloc(void* p, size_t n)
{
    if (gArena && p && inArena((uint64_t)p)) { Block* b = findBlock((uint64_t)p); void* q = __libc_malloc(n); memcpy(q, p, std::min<uint64_t>(n, b ? b->size : n)); freePtr((uint64_t)p, false); return q; }
    bool t = fromSo(__builtin_return_address(0));
    if (t && p) trackDel(p);
    void* q = __libc_realloc(p, n);
    if (t) trackNew(q, n);
    return q;
}
}
static void* nnew(size_t n, size_t al, void* ra, bool nothrow)
{
    bool t = fromSo(ra);
    void* p = t && n > gAllocMax ? nullptr : al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    if (t) trackNew(p, n);
    return p;
}
#define RA __builtin_return_address(0)
void* operator new(size_t n) { return nnew(n, 16, RA, false); }
void* operator new[](size_t n) { return nnew(n, 16, RA, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nnew(n, 16, RA, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nnew(n, 16, RA, true); }
void* operator new(size_t n, std::align_val_t a) { return nnew(n, (size_t)a, RA, false); }
void* operator new[](size_t n, std::align_val_t a) { return nnew(n, (size_t)a, RA, false); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

static void nativeOnly(const char* what)
{
    if (gReplay) return;
    if (cur) { gInterp = true; incomplete(std::string("harness API used from native code: ") + what); }
}
static u128 nextVal(unsigned w)
{
    u128 v = gReplayPos < gReplayVals.size() ? gReplayVals[gReplayPos] : 0;
    ++gReplayPos;
    return v & maskw(w);
}
struct NThr { ucontext_t c; char* st; void (*fn)(void*); void* arg; };
static std::vector<NThr*> gNT; static int gNCur = 0;
static void nthrMain(int i) { gNT[i]->fn(gNT[i]->arg); printf("REPLAY-INCOMPLETE thread returned\n"); fflush(stdout); _exit(3); }
extern "C" {
__attribute__((used)) uint64_t sym_int(const char*, unsigned b) { nativeOnly("sym_int"); return (uint64_t)nextVal(b); }
__attribute__((used)) void sym_bytes(void* p, size_t n, const char*) { nativeOnly("sym_bytes"); for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)nextVal(8); }
__attribute__((used)) unsigned sym_choice(const char*, unsigned n) { nativeOnly("sym_choice"); if (n <= 1) return 0; unsigned w = 1; while ((1u << w) < n) ++w; return (unsigned)nextVal(w); }
__attribute__((used)) uint64_t sym_conc(uint64_t v) { return v; }
__attribute__((used)) void sym_assume(bool c) { nativeOnly("sym_assume"); if (!c) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(4); } }
__attribute__((used)) void sym_fail(const char* m) { nativeOnly("sym_fail"); printf("REPLAY-VIOLATION %s\n", m); fflush(stdout); _exit(10); }
__attribute__((used)) void sym_check(bool c, const char* m) { nativeOnly("sym_check"); if (!c) sym_fail(m); }
__attribute__((used)) void sym_reach(const char*) {}
__attribute__((used)) void sym_note(const char* k, uint64_t v) { nativeOnly("sym_note"); printf("NOTE %s %llu\n", k, (unsigned long long)v); }
__attribute__((used)) void sym_end() { nativeOnly("sym_end"); printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
__attribute__((used)) void sym_incomplete(const char* m) { nativeOnly("sym_incomplete"); printf("REPLAY-INCOMPLETE %s\n", m); fflush(stdout); _exit(3); }
__attribute__((used)) void sym_mode(const char* k, uint64_t v) { if (!strcmp(k, "alloc-max")) gAllocMax = v; }
__attribute__((used)) uint64_t sym_heap_live() { nativeOnly("sym_heap_live"); return gNLive; }
__attribute__((used)) bool sym_ptr_ok(const void* p, size_t) { return (uint64_t)p >= 65536; }
__attribute__((used)) bool sym_is_symbolic(uint64_t) { return false; }
__attribute__((used)) uint64_t sym_heap_id(const void* p) { for (size_t i = gNBn; i-- > 0;) if (gNB[i].live && (char*)p >= (char*)gNB[i].p && (char*)p < (char*)gNB[i].p + std::max<size_t>(1, gNB[i].n)) return i + 1; return 0; }
__attribute__((used)) void sym_poison(void*, size_t) {}
__attribute__((used)) void sym_unpoison(void*, size_t) {}
__attribute__((used)) int sym_thread_new(void (*fn)(void*), void* arg)
{
    nativeOnly("sym_thread_new");
    auto* t = new NThr; t->fn = fn; t->arg = arg; getcontext(&t->c);
    t->st = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->c.uc_stack.ss_sp = t->st; t->c.uc_stack.ss_size = 1 << 20; t->c.uc_link = nullptr;
    gNT.push_back(t);
    makecontext(&t->c, (void (*)())nthrMain, 1, (int)gNT.size() - 1);
    return gNT.size() - 1;
}
struct EhGlobals { void* caught; unsigned int uncaught; };
extern "C" EhGlobals* __cxa_get_globals();
__attribute__((used)) void sym_thread_switch(int id)
{
    nativeOnly("sym_thread_switch");
    int me = gNCur; if (id == me) return;
    EhGlobals save = *__cxa_get_globals();
    gNCur = id;
    static std::map<int, EhGlobals> eh;
    eh[me] = save;
    *__cxa_get_globals() = eh.count(id) ? eh[id] : EhGlobals{nullptr, 0};
    swapcontext(&gNT[me]->c, &gNT[id]->c);
    *__cxa_get_globals() = eh[me];
}
__attribute__((used)) void sym_hb_release(const void*) {}
__attribute__((used)) void sym_hb_acquire(const void*) {}
__attribute__((used)) int sym_thread_self() { return gReplay ? gNCur : cur ? cur->id : 0; }
}

static void onSegv(int sig, siginfo_t* si, void*)
{
    if (gReplay) { printf("REPLAY-VIOLATION crash: signal %d\n", sig); fflush(stdout); _exit(10); }
    if (gJmpOk) { gFault = (uint64_t)si->si_addr; siglongjmp(gJmp, sig); }
    signal(sig, SIG_DFL); raise(sig);
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o + "\"";
}

static int loadAll(const char* bc, const char* so, LLVMContext& ctx)
{
    SMDiagnostic err;
    auto m = parseIRFile(bc, err, ctx);
    if (!m) { err.print("symx", errs()); return 1; }
    Mod = m.release();
    DL = &Mod->getDataLayout();
    void* h = dlopen(so, RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "symx: dlopen: %s\n", dlerror()); return 1; }
    uint64_t* tab = (uint64_t*)dlsym(h, "__symx_tab");
    uint64_t* n = (uint64_t*)dlsym(h, "__symx_tab_n");
    const char* tl = (const char*)dlsym(h, "__symx_tls");
    if (!tab || !n) { fprintf(stderr, "symx: no table\n"); return 1; }
    { std::istringstream is(tl); std::string l; while (std::getline(is, l)) gTlsNames.insert(l); }
    size_t i = 0;
    for (auto& F : *Mod) { if (i >= *n) return 1; uint64_t a = tab[i++]; if (F.isIntrinsic()) continue; gAddr[&F] = a; if (a) { auto& e = gFnAt[a]; if (!e || e->isDeclaration()) e = &F; } }
    for (auto& G : Mod->globals()) {
        if (i >= *n) break;
        uint64_t a = tab[i++]; gAddr[&G] = a;
        if (a && gTlsNames.count(G.getName().str())) {
            Tls t; t.g = &G; t.addr = a; t.size = DL->getTypeAllocSize(G.getValueType()); t.init.assign((uint8_t*)a, (uint8_t*)a + t.size); gTls[a] = t;
        }
    }
    // address range of the shared object
    std::ifstream mp("/proc/self/maps"); std::string l; char rp[4096]; std::string real = realpath(so, rp) ? rp : so;
    while (std::getline(mp, l)) if (l.find(real) != std::string::npos) { uint64_t lo, hi; sscanf(l.c_str(), "%lx-%lx", &lo, &hi); if (!gSoLo) gSoLo = lo; gSoHi = hi; }
    return 0;
}
static void* mapN(size_t n, bool shared) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } if (!shared && n > (4u << 20)) madvise(p, n, MADV_HUGEPAGE); return p; }

static void enableCov()
{
    std::unordered_map<const DISubprogram*, bool> c;
    for (auto& F : *Mod) for (auto& B : F) {
        bool repo = false;
        for (auto& I : B) { if (repoLoc(I.getDebugLoc().get())) { repo = true; break; } }
        if (repo && gCovBB.size() < (1 << 20)) { gCovIdx[&B] = gCovBB.size(); gCovBB.push_back(&B); }
    }
}
static void startInterp()
{
    gArena = (uint8_t*)mapN(kArenaSize, false);
    gShadow = (uint8_t*)mapN(kArenaSize, false);
    gFilt = (uint32_t*)mapN(sizeof(uint32_t) << kFiltBits, false);
    gBlocks.reserve(1 << 20);
    S.st = &SH->st;
    S.init();
    newThread(0, 0, nullptr);
    cur = gThr[0];
    stack_t ss{}; ss.ss_size = 1 << 18; ss.ss_sp = mapN(ss.ss_size, false); sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
}
static void runMain()
{
    Function* init = Mod->getFunction("rt_init");
    Function* H_ = Mod->getFunction("harness");
    if (!H_ || H_->isDeclaration()) { fprintf(stderr, "symx: no harness()\n"); _exit(2); }
    if (init && !init->isDeclaration()) { gReplay = gReplay; ((void (*)())gvAddr(init))(); }
    pushFrame(decode(H_), nullptr, 0);
    gInterp = true;
    if (int sig = sigsetjmp(gJmp, 1)) {
        char b[64]; snprintf(b, sizeof b, "signal %d", sig);
        if (sig == SIGFPE) violation("division by zero in " + repoSite());
        else violation(std::string("memory error: ") + (gFault < 65536 ? "null pointer" : "invalid access") + " (fault) in " + repoSite());
        endPath(1);
    }
    gJmpOk = true;
    runLoop();
}

static int doRun(int argc, char** argv)
{
    std::string out = argv[4]; int jobs = 8; double deadline = 60; uint64_t memMB = 0;
    for (int i = 5; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k == "--jobs") jobs = atoi(argv[i + 1]); else if (k == "--deadline") deadline = atof(argv[i + 1]);
        else if (k == "--path-insts") gPathLimit = strtoull(argv[i + 1], nullptr, 10); else if (k == "--samples") gSampleMax = atoi(argv[i + 1]);
    }
    (void)memMB;
    gOut = out;
    SH = (Shared*)mapN(sizeof(Shared), true);
    LLVMContext ctx;
    double t0 = nowS();
    if (loadAll(argv[2], argv[3], ctx)) return 2;
    enableCov();
    double tl = nowS() - t0;
    SH->tokens = jobs - 1;
    int pp[2]; if (pipe(pp)) return 2;
    fflush(stdout); fflush(stderr);
    double start = nowS();
    pid_t root = fork();
    if (root == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGCHLD, SIG_IGN);
        close(pp[0]); gPipeW = pp[1];
        gDeadline = start + deadline;
        startInterp();
        runMain();
        _exit(0);
    }
    setpgid(root, root);
    close(pp[1]);
    bool killed = false;
    for (;;) {
        fd_set fs; FD_ZERO(&fs); FD_SET(pp[0], &fs); timeval tv{1, 0};
        int r = select(pp[0] + 1, &fs, nullptr, nullptr, &tv);
        if (r > 0) { char c; if (read(pp[0], &c, 1) <= 0) break; }
        if (nowS() > start + deadline + 40) { kill(-root, SIGKILL); killed = true; break; }
    }
    kill(-root, SIGKILL);
    int st; waitpid(root, &st, 0);
    double wall = nowS() - start;
    bool lost = SH->pathsEnded != SH->forks + 1;
    if (lost && !killed) SH->incomplete.hit("an exploring process was lost");
    if (killed) SH->incomplete.hit("killed after the deadline");
    // coverage of repository code
    struct Fn { std::set<unsigned> all, cov; std::string file; };
    std::map<std::string, Fn> fns;
    std::set<std::string> used;
    for (size_t i = 0; i < gCovBB.size(); ++i) {
        bool cv = SH->cov[i];
        for (auto& I : *gCovBB[i]) for (const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
            auto* sp = L->getScope()->getSubprogram();
            if (!sp || !isRepoFile(sp->getDirectory(), sp->getFilename()) || !L->getLine()) continue;
            if (cv) used.insert(std::string(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()));
        }
    }
    for (size_t i = 0; i < gCovBB.size(); ++i) {
        bool cv = SH->cov[i];
        for (auto& I : *gCovBB[i]) for (const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
            auto* sp = L->getScope()->getSubprogram();
            if (!sp || !isRepoFile(sp->getDirectory(), sp->getFilename()) || !L->getLine()) continue;
            std::string nm(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName());
            if (!used.count(nm)) continue;
            auto& fn = fns[nm];
            std::string f = sp->getFilename().str(); auto p = f.find("fairmq/"); if (p != std::string::npos) f = f.substr(p);
            fn.file = f;
            if (L->getFilename() == sp->getFilename()) { fn.all.insert(L->getLine()); if (cv) fn.cov.insert(L->getLine()); }
        }
    }
    std::ofstream o(out + "/result.json");
    auto tab = [&](const char* name, auto& t) { o << ",\n \"" << name << "\": {"; for (int i = 0; i < t.cnt; ++i) o << (i ? ", " : "") << jstr(t.e[i].key) << ": " << t.e[i].n.load(); o << "}"; };
    o << "{\"paths\": " << SH->paths << ", \"paths_ended\": " << SH->pathsEnded << ", \"assume_pruned\": " << SH->pathsAssumeFail << ", \"forks\": " << SH->forks << ", \"instructions\": " << SH->insts
      << ", \"queries\": " << SH->st.queries << ", \"sat\": " << SH->st.sat << ", \"unsat\": " << SH->st.unsat << ", \"unknown\": " << SH->st.unknown << ", \"cache_hits\": " << SH->st.cacheHits
      << ", \"solver_s\": " << SH->st.micros / 1e6 << ", \"assertions\": " << SH->checks << ", \"assertions_symbolic\": " << SH->checksSym << ", \"deadline_paths\": " << SH->deadlinePaths
      << ", \"threads\": " << SH->nthreadsMax << ", \"switches\": " << SH->switches << ", \"wall_s\": " << wall << ", \"load_s\": " << tl << ", \"nviol\": " << SH->violSeq << ", \"lost\": " << (lost ? "true" : "false") << ", \"samples\": " << std::min<uint64_t>(SH->samples, gSampleMax);
    tab("reach", SH->reach); tab("checks", SH->check); tab("incomplete", SH->incomplete); tab("native", SH->native); tab("violations", SH->viol);
    o << ",\n \"functions\": {";
    bool first = true;
    for (auto& [n, f] : fns) { o << (first ? "\n  " : ",\n  ") << jstr(demangle(n)) << ": [" << jstr(f.file) << ", " << f.cov.size() << ", " << f.all.size() << "]"; first = false; }
    o << "}}\n";
    o.close();
    printf("paths=%llu ended=%llu pruned=%llu queries=%llu solver=%.1fs wall=%.1fs viol=%d incomplete=%d deadline=%llu\n", (unsigned long long)SH->paths, (unsigned long long)SH->pathsEnded, (unsigned long long)SH->pathsAssumeFail,
        (unsigned long long)SH->st.queries, SH->st.micros / 1e6, wall, (int)SH->violSeq, (int)SH->incomplete.cnt, (unsigned long long)SH->deadlinePaths);
    if (getenv("SYMX_STATS")) printf("per path: %.1f faults, %.2f ms user, %.2f ms sys\n", (double)SH->minflt / SH->pathsEnded, SH->cpuUser / 1e3 / SH->pathsEnded, SH->cpuSys / 1e3 / SH->pathsEnded);
    fflush(stdout);
    _exit(0);
}

static int doReplay(int argc, char** argv)
{
    bool interp = argc > 5 && !strcmp(argv[5], "--interp");
    std::ifstream in(argv[4]); std::string l;
    while (std::getline(in, l)) if (l.size() > 2 && l[0] == 'v') { std::istringstream is(l.substr(2)); unsigned w; std::string v; is >> w >> v; u128 x = 0; for (char c : v) x = x * 10 + (c - '0'); gReplayVals.push_back(x); gReplayW.push_back(w); }
    LLVMContext ctx;
    if (loadAll(argv[2], argv[3], ctx)) return 2;
    SH = (Shared*)mapN(sizeof(Shared), true);
    if (interp) {
        gReplayInterp = true;
        if (getenv("SYMX_LIMIT")) gPathLimit = strtoull(getenv("SYMX_LIMIT"), nullptr, 10);
        pid_t p = fork();
        if (p == 0) { alarm(120); startInterp(); runMain(); _exit(0); }
        int st; waitpid(p, &st, 0);
        return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
    }
    stack_t ss{}; ss.ss_size = 1 << 18; ss.ss_sp = mapN(ss.ss_size, false); sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
    alarm(60);
    gNB = (NBlk*)mapN(sizeof(NBlk) * kNB, false);
    auto* main_ = new NThr{}; gNT.push_back(main_);
    Function* init = Mod->getFunction("rt_init");
    gReplay = true;
    if (init && !init->isDeclaration()) ((void (*)())gvAddr(init))();
    try { ((void (*)())gvAddr(Mod->getFunction("harness")))(); }
    catch (std::exception& e) { int st; char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); printf("REPLAY-VIOLATION uncaught exception %s: %s\n", d ? d : "?", e.what()); fflush(stdout); _exit(10); }
    catch (...) { printf("REPLAY-VIOLATION uncaught exception ?\n"); fflush(stdout); _exit(10); }
    printf("REPLAY-OK\n"); fflush(stdout);
    _exit(0);
}

extern "C" char __libc_single_threaded;
int main(int argc, char** argv)
{
    __libc_single_threaded = 0; // threads are simulated: libstdc++ must take the atomic reference counting path

    if (argc < 5) { fprintf(stderr, "usage: symx --run bc so outdir | --replay bc so inputs [--interp]\n"); return 2; }
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    if (!strcmp(argv[1], "--run")) return doRun(argc, argv);
    return doReplay(argc, argv);
}
