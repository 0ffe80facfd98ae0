// ------------------------------------------------------------------------------------------------ run state
struct Exc { uint64_t obj; const std::type_info* ti; uint64_t dtor; int handlers = 0, inflight = 0, refs = 0; bool native = false; uint64_t adj = 0; };
struct Frame { DFunc* f; uint32_t pc; Val* s; uint64_t sp; };
static const int kVC = 16;
struct VC { uint32_t c[kVC] = {0}; void join(const VC& o) { for (int i = 0; i < kVC; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread {
    VC vc;
    int id; std::vector<Frame> fr; Val* slots; uint64_t slotTop = 0; uint64_t sp = 0, spEnd = 0;
    std::vector<Exc*> caught; uint64_t lpObj = 0; uint64_t lpSel = 0; int inflight = 0;
};
static const uint64_t kSlots = 1 << 20;
static std::vector<Thread*> gThr;
static Thread* cur = nullptr;
static std::unordered_map<uint64_t, Exc*> gExc;
static std::unordered_map<uint64_t, uint64_t> gTypeId;
static std::vector<std::pair<std::string, Val>> gNotes;
static std::vector<std::string> gChoices;
static uint64_t gInsts = 0, gInstsFlushed = 0, gPathInsts = 0, gPathLimit = 50000000;
static double gDeadline = 0;
static bool gOwnToken = true, gReplayInterp = false, gLimitIsViolation = true;
static uint64_t gConcMax = 512, gOstreamDisplay = 0, gSampleMax = 20, gDepth = 0;
static std::string gOut;
static int gPipeW = -1;
static std::vector<u128> gReplayVals; static size_t gReplayPos = 0; static std::vector<unsigned> gReplayW;
static sigjmp_buf gJmp; static volatile bool gJmpOk = false; static uint64_t gFault = 0;
static uint64_t gAllocMax = 1ull << 31;
static std::string gStubbed;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string demangle(const std::string& n)
{
    int st = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    std::string r = d && st == 0 ? d : n; __libc_free(d); return r;
}
static std::string shortName(const std::string& n) { std::string d = demangle(n); if (d.size() > 110) d = d.substr(0, 110) + "..."; return d; }
static std::string locOf(const Instruction* I)
{
    const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
    if (!L) return "?";
    std::string f = L->getFilename().str();
    auto p = f.find("/fairmq/"); if (p != std::string::npos) f = f.substr(p + 1); else { p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); }
    return f + ":" + std::to_string(L->getLine());
}
static std::vector<std::string> backtrace_()
{
    std::vector<std::string> r;
    if (!cur) return r;
    for (int i = (int)cur->fr.size() - 1; i >= 0 && r.size() < 40; --i) {
        auto& f = cur->fr[i];
        const Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        for (const DILocation* L = I ? I->getDebugLoc().get() : nullptr; L; L = L->getInlinedAt()) {
            std::string fn = L->getFilename().str();
            auto* sp = L->getScope()->getSubprogram();
            std::string nm = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : shortName(sp->getLinkageName().str())) : "?";
            r.push_back(nm + " (" + fn + ":" + std::to_string(L->getLine()) + ")");
        }
        if (!I || !I->getDebugLoc()) r.push_back(shortName(f.f->F->getName().str()));
    }
    return r;
}
// innermost position inside /repo, used to identify memory errors
static std::string repoSite()
{
    if (!cur) return "?";
    for (int i = (int)cur->fr.size() - 1; i >= 0; --i) {
        auto& f = cur->fr[i];
        const Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        for (const DILocation* L = I ? I->getDebugLoc().get() : nullptr; L; L = L->getInlinedAt()) {
            auto* sp = L->getScope()->getSubprogram();
            if (sp && isRepoFile(sp->getDirectory(), sp->getFilename())) return sp->getLinkageName().empty() ? sp->getName().str() : shortName(sp->getLinkageName().str());
        }
    }
    for (int i = (int)cur->fr.size() - 1; i >= 0; --i) { auto* sp = cur->fr[i].f->F->getSubprogram(); if (sp) return sp->getName().str(); }
    return "?";
}
static void flushStats() { SH->insts += gInsts - gInstsFlushed; gInstsFlushed = gInsts; }

static void writeInputs(const std::string& file, const std::string& key)
{
    std::ofstream o(file);
    o << "k " << key << "\n";
    for (size_t i = 0; i < M.vars.size(); ++i) o << "v " << M.vars[i].w << " " << u128str(M.model[i]) << " " << M.vars[i].name << "\n";
    for (auto& n : gNotes) o << "n " << u128str(n.second.e ? M.eval(n.second.e) : n.second.c) << " " << n.first << "\n";
    if (!key.empty()) for (auto& b : backtrace_()) o << "t " << b << "\n";
}

[[noreturn]] static void endPath(int code)
{
    if (gReplayInterp) { fflush(stdout); _exit(code); }
    flushStats();
    { struct rusage ru; getrusage(RUSAGE_SELF, &ru); SH->minflt += ru.ru_minflt; SH->cpuUser += ru.ru_utime.tv_sec * 1000000ull + ru.ru_utime.tv_usec; SH->cpuSys += ru.ru_stime.tv_sec * 1000000ull + ru.ru_stime.tv_usec; }
    SH->pathsEnded++;
    if (code == 0) {
        SH->paths++;
        if (SH->samples.load() < gSampleMax) { uint64_t n = SH->samples++; if (n < gSampleMax) writeInputs(gOut + "/sample-" + std::to_string(n) + ".txt", ""); }
    }
    if (gOwnToken) SH->tokens++;
    _exit(0);
}
[[noreturn]] static void incomplete(const std::string& why)
{
    if (gReplayInterp) { printf("REPLAY-INCOMPLETE %s\n", why.c_str()); fflush(stdout); _exit(3); }
    std::string s = why + " @ " + repoSite();
    SH->incomplete.hit(s.c_str());
    if (getenv("SYMX_TRACE")) { fprintf(stderr, "incomplete: %s\n", s.c_str()); for (auto& b : backtrace_()) fprintf(stderr, "    %s\n", b.c_str()); }
    endPath(2);
}
static void violation(const std::string& key)
{
    if (gReplayInterp) { printf("REPLAY-VIOLATION %s\n", key.c_str()); for (auto& b : backtrace_()) printf("    %s\n", b.c_str()); fflush(stdout); _exit(10); }
    bool fresh; int i = SH->viol.hit(key.c_str(), &fresh);
    if (fresh || i < 0) { int n = SH->violSeq++; if (n < 200) writeInputs(gOut + "/viol-" + std::to_string(n) + ".txt", key); }
}
[[noreturn]] static void memViolation(uint64_t a, uint64_t n, bool wr)
{
    const char* kind = "wild access";
    if (inArena(a)) {
        uint64_t off = a - (uint64_t)gArena; uint8_t s = gShadow[off];
        for (uint64_t i = 0; i < n && s == 1; ++i) s = gShadow[off + i];
        kind = s == 2 ? (off >= kHeapSize ? "stack use after return" : "use after free") : s == 3 ? "access to poisoned memory" : off >= kHeapSize ? "stack out of bounds" : "heap out of bounds";
        if (s != 2 && s != 3 && off < kHeapSize) { Block* b = findBlock(a); if (b && b->state == 2) kind = "use after free"; }
    } else if (a < 65536) kind = "null pointer";
    violation(std::string("memory error: ") + kind + (wr ? " (write)" : " (read)") + " in " + repoSite());
    endPath(1);
}
// ------------------------------------------------------------------------------------------------ data races (happens-before)
static bool gRace = false, gRaceOn = false, gAtomicNow = false;
static std::unordered_map<uint64_t, VC> gSync;
struct RCell { uint32_t wc; uint8_t wt; uint32_t rc[kVC]; };
struct RGran { RCell b[8]; };
static std::unordered_map<uint64_t, RGran*> gRG;
static void hbRelease(uint64_t k) { if (!gRace || cur->id >= kVC) return; gSync[k].join(cur->vc); cur->vc.c[cur->id]++; }
static void hbAcquire(uint64_t k) { if (!gRace) return; auto it = gSync.find(k); if (it != gSync.end()) cur->vc.join(it->second); }
// 0: library, 1: repository, 2: harness or runtime
static int codeClass(const Instruction* I)
{
    static std::unordered_map<const Instruction*, uint8_t> cache;
    auto it = cache.find(I);
    if (it != cache.end()) return it->second;
    int r = 0;
    for (const DILocation* L = I->getDebugLoc().get(); L && !r; L = L->getInlinedAt()) if (auto* sp = L->getScope()->getSubprogram()) {
        if (isRepoFile(sp->getDirectory(), sp->getFilename())) r = 1;
        else { std::string f = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str(); if (f.compare(0, 5, "/usr/") != 0) r = 2; }
    }
    if (!r) if (auto* sp = I->getFunction()->getSubprogram()) { (void)sp; }
    cache[I] = r;
    return r;
}
static bool repoAccess()
{
    for (int i = (int)cur->fr.size() - 1; i >= 0; --i) { auto& f = cur->fr[i]; int c = codeClass(f.f->code[f.pc].I); if (c) return c == 1; }
    return false;
}
static void raceAccess(uint64_t a, uint64_t n, bool wr)
{
    if (n > 4096 || cur->id >= kVC || !repoAccess()) return;
    int me = cur->id; auto& vc = cur->vc;
    for (uint64_t i = 0; i < n; ++i) {
        auto*& g = gRG[(a + i) >> 3];
        if (!g) { g = new RGran; memset((void*)g, 0, sizeof *g); }
        RCell& c = g->b[(a + i) & 7];
        bool bad = c.wc && c.wt != me && c.wc > vc.c[c.wt];
        if (wr) for (int t = 0; t < kVC && !bad; ++t) if (t != me && c.rc[t] > vc.c[t]) bad = true;
        if (bad) { violation(std::string("data race: unsynchronised ") + (wr ? "write" : "read") + " in " + repoSite()); endPath(1); }
        if (wr) { c.wc = vc.c[me]; c.wt = me; memset(c.rc, 0, sizeof c.rc); } else c.rc[me] = vc.c[me];
    }
}
static void raceForget(uint64_t a, uint64_t n) { if (n > 65536) return; for (uint64_t g = a >> 3; g <= (a + n) >> 3; ++g) { auto it = gRG.find(g); if (it != gRG.end() && it->second) memset((void*)it->second, 0, sizeof(RGran)); } }
static inline void chk(uint64_t a, uint64_t n, bool wr)
{
    if (__builtin_expect(gRaceOn, 0) && !gAtomicNow && n) raceAccess(a, n, wr);
    uint64_t off = a - (uint64_t)gArena;
    if (__builtin_expect(off < kArenaSize, 1)) {
        if (n == 8) { uint64_t v; memcpy(&v, gShadow + off, 8); if (__builtin_expect(v != 0x0101010101010101ull, 0)) memViolation(a, n, wr); return; }
        if (n > 64) { for (uint64_t i = 0; i < n; ++i) if (gShadow[off + i] != 1) memViolation(a + i, 1, wr); return; }
        for (uint64_t i = 0; i < n; ++i) if (gShadow[off + i] != 1) memViolation(a, n, wr);
        return;
    }
    if (__builtin_expect(a < 65536, 0) && n) memViolation(a, n, wr);
}

// ------------------------------------------------------------------------------------------------ forking
static void checkDeadline()
{
    if (gDeadline && nowS() > gDeadline) { if (!gReplayInterp) { SH->deadlinePaths++; SH->stop = 1; } endPath(2); }
    if (SH->stop.load(std::memory_order_relaxed)) { SH->deadlinePaths++; endPath(2); }
}
// true in the child
static bool doFork()
{
    checkDeadline();
    bool async = false;
    int t = SH->tokens.load();
    while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { async = true; break; }
    flushStats();
    SH->forks++;
    fflush(stdout); fflush(stderr);
    pid_t p;
    for (int i = 0; (p = fork()) < 0 && i < 200; ++i) usleep(20000);
    if (p < 0) { SH->incomplete.hit("fork failed"); if (async) SH->tokens++; return false; }
    if (p == 0) { gOwnToken = async; ++gDepth; return true; }
    if (!async) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    return false;
}
static const bool gForkSites = getenv("SYMX_FORKS") != nullptr;
static bool branch(Expr* c)
{
    if (c->k == K::Const) return c->cv != 0;
    auto it = S.known.find(c);
    if (it != S.known.end()) return it->second;
    bool v = M.eval(c) != 0;
    Expr* nc = M.lnot(c);
    Expr* mine = v ? c : nc; Expr* opp = v ? nc : c;
    if (gReplayInterp) { S.known[c] = v; return v; }
    std::vector<u128> nm;
    int r = S.check(opp, &nm);
    if (r == 0) { S.known[c] = v; S.known[nc] = !v; return v; }
    if (r < 0) { SH->incomplete.hit(("solver gave no answer @ " + repoSite()).c_str()); S.add(mine); return v; }
    if (gForkSites) { std::string t; int k = 0; for (auto& b : backtrace_()) if (k++ < 5) t += b.substr(0, 60) + " <- "; fprintf(stderr, "FORK %s\n", t.c_str()); }
    if (doFork()) {
        M.model = nm; ++M.stamp;
        S.add(opp);
        return !v;
    }
    S.add(mine);
    return v;
}
static bool branchV(const Val& v) { return v.e ? branch(v.e->w == 1 ? v.e : M.extract(v.e, 0, 1)) : (v.c & 1); }
static u128 concretizeE(Expr* e)
{
    if (e->k == K::Const) return e->cv;
    for (uint64_t i = 0; i < gConcMax; ++i) {
        u128 v = M.eval(e);
        if (branch(M.cmp(K::Eq, e, M.cst(v, e->w)))) return v;
    }
    incomplete("more than " + std::to_string(gConcMax) + " values of a symbolic operand");
}
static uint64_t conc(const Val& v) { return v.e ? (uint64_t)concretizeE(v.e) : v.c; }
static void assume(Expr* c)
{
    if (c->k == K::Const) { if (!c->cv) { if (gReplayInterp) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(4); } SH->pathsAssumeFail++; endPath(3); } return; }
    auto it = S.known.find(c);
    if (it != S.known.end()) { if (it->second) return; SH->pathsAssumeFail++; endPath(3); }
    if (M.eval(c)) { if (!gReplayInterp) S.add(c); return; }
    if (gReplayInterp) { printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(4); }
    std::vector<u128> nm;
    int r = S.check(c, &nm);
    if (r == 1) { M.model = nm; ++M.stamp; S.add(c); return; }
    if (r < 0) incomplete("solver gave no answer (assume)");
    SH->pathsAssumeFail++; endPath(3);
}
static void checkProp(Expr* c, const std::string& msg)
{
    if (!gReplayInterp) { SH->checks++; SH->check.hit(msg.c_str()); }
    if (c->k == K::Const) { if (!c->cv) { violation(msg); endPath(1); } return; }
    auto it = S.known.find(c);
    if (it != S.known.end()) { if (!it->second) { violation(msg); endPath(1); } return; }
    if (gReplayInterp) { if (!M.eval(c)) violation(msg); return; }
    SH->checksSym++;
    Expr* nc = M.lnot(c);
    if (M.eval(nc)) { violation(msg); assume(c); return; }
    std::vector<u128> nm;
    int r = S.check(nc, &nm);
    if (r == 1) { auto save = M.model; M.model = nm; ++M.stamp; violation(msg); M.model = save; ++M.stamp; S.add(c); return; }
    if (r < 0) { SH->incomplete.hit(("solver gave no answer for assertion " + msg).c_str()); return; }
    S.known[c] = true; S.known[nc] = false;
}

// ------------------------------------------------------------------------------------------------ memory
static Val load(uint64_t a, unsigned w)
{
    unsigned n = (w + 7) / 8;
    chk(a, n, false);
    if (gSym.empty() || !maybeSym(a, n) || !anySym(a, n)) {
        if (n <= 8) { uint64_t v = 0; memcpy(&v, (void*)a, n); return C(v & msk(w)); }
        u128 v = 0; memcpy(&v, (void*)a, n); return Val{0, M.cst(v, w)};
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        Expr* b = symByte(a + i);
        if (!b) b = M.cst(*(uint8_t*)(a + i), 8);
        r = r ? M.concat(b, r) : b;
    }
    if (r->w != w) r = M.extract(r, 0, w);
    return mkv(r);
}
static void store(uint64_t a, const Val& v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    chk(a, n, true);
    if (isConc(v)) {
        if (!gSym.empty()) clearSym(a, n);
        u128 x = cval(v);
        memcpy((void*)a, &x, n);
        return;
    }
    Expr* e = v.e;
    if (n * 8 != w) e = M.zext(e, n * 8);
    for (unsigned i = 0; i < n; ++i) setByte(a + i, M.extract(e, i * 8, 8));
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n)
{
    if (!n || d == s) { if (n) { chk(s, n, false); chk(d, n, true); } return; }
    chk(s, n, false); chk(d, n, true);
    if (gSym.empty() || (!maybeSym(s, n) && !maybeSym(d, n))) { memmove((void*)d, (void*)s, n); return; }
    if (n > 65536) { // sparse: only the granules known to be symbolic
        std::vector<std::pair<uint64_t, Expr*>> src;
        for (auto& [g, gr] : gSym) for (int i = 0; i < 8; ++i) { uint64_t x = g * 8 + i; if (gr.b[i] && x >= s && x < s + n) src.push_back({x, gr.b[i]}); }
        clearSym(d, n);
        memmove((void*)d, (void*)s, n);
        for (auto& [x, e] : src) setByte(d + (x - s), e);
        return;
    }
    std::vector<Expr*> t(n);
    for (uint64_t i = 0; i < n; ++i) t[i] = symByte(s + i);
    memmove((void*)d, (void*)s, n);
    for (uint64_t i = 0; i < n; ++i) setByte(d + i, t[i]);
}
static void setMem(uint64_t d, const Val& v, uint64_t n)
{
    if (!n) return;
    chk(d, n, true);
    if (isConc(v)) { clearSym(d, n); memset((void*)d, (int)cval(v), n); return; }
    Expr* b = M.extract(v.e, 0, 8);
    for (uint64_t i = 0; i < n; ++i) setByte(d + i, b);
}
static Expr* byteE(uint64_t a) { Expr* b = symByte(a); return b ? b : M.cst(*(uint8_t*)a, 8); }

static void freePtr(uint64_t p, bool sized)
{
    if (!p) return;
    (void)sized;
    if (!inArena(p)) { __libc_free((void*)p); return; }
    Block* b = findBlock(p);
    if (!b || (uint64_t)gArena + b->off != p || b->kind >= 2) { violation("memory error: invalid free in " + repoSite()); endPath(1); }
    if (b->state == 2) { violation("memory error: double free in " + repoSite()); endPath(1); }
    b->state = 2; --gLive;
    memset(gShadow + b->off, 2, b->size);
    clearSym(p, b->size);
}

// ------------------------------------------------------------------------------------------------ frames
static void takeEdge(Frame& f, int ei)
{
    Edge& e = f.f->edges[ei];
    size_t n = e.copies.size();
    if (n == 1) { auto& c = e.copies[0]; f.s[c.first] = c.second >= 0 ? f.s[c.second] : gConst[~c.second]; }
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) { int o = e.copies[i].second; t[i] = o >= 0 ? f.s[o] : gConst[~o]; }
        for (size_t i = 0; i < n; ++i) f.s[e.copies[i].first] = t[i];
    }
    f.pc = e.target;
}
static uint64_t stackAlloc(uint64_t size, uint64_t align)
{
    if (align < 16) align = 16;
    uint64_t a = (cur->sp + 16 + align - 1) & ~(align - 1);
    if (a + size + 16 > cur->spEnd) { violation("stack overflow in " + repoSite()); endPath(1); }
    cur->sp = (a + size + 7) & ~7ull;
    memset(gShadow + (a - (uint64_t)gArena), 1, size);
    if (!gSym.empty()) clearSym(a, size);
    if (gRaceOn && !gRG.empty()) raceForget(a, size);
    return a;
}
static void popFrame()
{
    Frame& f = cur->fr.back();
    if (cur->sp != f.sp) { uint64_t lo = f.sp - (uint64_t)gArena, n = cur->sp - f.sp; memset(gShadow + lo, 2, n); cur->sp = f.sp; }
    cur->slotTop = f.s - cur->slots;
    cur->fr.pop_back();
}
static void pushFrame(DFunc* d, const Val* args, size_t nargs)
{
    if (cur->slotTop + d->nslots + 8 > kSlots || cur->fr.size() > 4000) { violation("call stack overflow in " + repoSite()); endPath(1); }
    Frame f; f.f = d; f.pc = 0; f.s = cur->slots + cur->slotTop; f.sp = cur->sp;
    cur->slotTop += d->nslots;
    for (size_t i = 0; i < d->argSlot.size(); ++i) f.s[d->argSlot[i]] = i < nargs ? args[i] : C(0);
    cur->fr.push_back(f);
}

// ------------------------------------------------------------------------------------------------ exceptions
static Exc* excOf(uint64_t obj) { auto it = gExc.find(obj); return it == gExc.end() ? nullptr : it->second; }
static uint64_t typeId(uint64_t ti) { auto it = gTypeId.find(ti); if (it != gTypeId.end()) return it->second; uint64_t n = gTypeId.size() + 1; gTypeId[ti] = n; return n; }
static bool matchCatch(uint64_t cti, Exc* x, uint64_t* adj)
{
    uint64_t p = x->obj;
    if (!cti) { *adj = p; return true; }
    auto* c = (const std::type_info*)cti;
    void* t = (void*)p;
    if (x->ti->__is_pointer_p()) t = *(void**)t;
    if (c->__do_catch(x->ti, &t, 1)) { *adj = (uint64_t)t; return true; }
    return false;
}
static LPad* padOf(Frame& f, int ei, uint32_t* pc = nullptr)
{
    uint32_t p = f.f->edges[ei].target;
    while (f.f->code[p].op != OLandingPad) ++p;
    if (pc) *pc = p;
    return (LPad*)f.f->code[p].p;
}
static uint64_t selFor(LPad* lp, Exc* x, uint64_t* adj)
{
    for (auto& c : lp->cl) { if (c.filter) continue; if (matchCatch(c.ti, x, adj)) return typeId(c.ti); }
    return 0;
}
static std::string excText(Exc* x)
{
    std::string s = demangle(x->ti->name());
    void* p = (void*)x->obj;
    if (typeid(std::exception).__do_catch(x->ti, &p, 1) && !x->ti->__is_pointer_p()) { materialize(); s += std::string(": ") + ((std::exception*)p)->what(); }
    return s;
}
static void unwind(Exc* x)
{
    // search phase
    bool found = false;
    for (int i = (int)cur->fr.size() - 1; i >= 0 && !found; --i) {
        Frame& f = cur->fr[i];
        DInst& d = f.f->code[f.pc];
        if (d.op != OInvoke) continue;
        uint64_t adj;
        if (selFor(padOf(f, ((CallInfo*)d.p)->unwind), x, &adj)) found = true;
    }
    if (!found) { violation("uncaught exception " + demangle(x->ti->name()) + " thrown in " + repoSite() ); if (gReplayInterp) {} endPath(1); }
    while (true) {
        Frame& f = cur->fr.back();
        DInst& d = f.f->code[f.pc];
        if (d.op == OInvoke) {
            auto* ci = (CallInfo*)d.p;
            LPad* lp = padOf(f, ci->unwind);
            uint64_t adj = 0, sel = selFor(lp, x, &adj);
            if (sel || lp->cleanup) {
                if (sel) x->adj = adj;
                cur->lpObj = x->obj; cur->lpSel = sel;
                takeEdge(f, ci->unwind);
                return;
            }
        }
        popFrame();
    }
}
static void throwExc(Exc* x) { x->inflight++; cur->inflight++; unwind(x); }

static std::vector<std::exception_ptr> gKeep;
static Exc* nativeExc()      // called inside a catch block
{
    std::exception_ptr ep = std::current_exception();
    void* obj = *(void**)&ep;
    auto* ti = abi::__cxa_current_exception_type();
    gKeep.push_back(ep);
    Exc* x = excOf((uint64_t)obj);
    if (!x) { x = new Exc; x->obj = (uint64_t)obj; x->ti = ti; x->dtor = 0; x->native = true; gExc[x->obj] = x; }
    return x;
}

// ------------------------------------------------------------------------------------------------ native calls
static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool safeNative(const std::string& n)
{
    static const char* pre[] = {"_ZSt18_Rb_tree", "_ZSt20_Rb_tree", "_ZSt28_Rb_tree", "_ZSt29_Rb_tree", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt8ios_base",
        "_ZNSt9exception", "_ZNKSt9exception", "_ZNKSt9type_info", "_ZNSt9bad_alloc", "__dynamic_cast", "_ZNSt11logic_errorD", "_ZNSt13runtime_errorD", "pthread_self", "_ZNKSt6locale", "_ZNSt9basic_ios", "_ZNSt6locale", nullptr};
    for (int i = 0; pre[i]; ++i) if (startsWith(n, pre[i])) return true;
    return false;
}
static bool displayNative(const std::string& n)
{
    static const char* pre[] = {"_ZNSt13runtime_errorC", "_ZNSt11logic_errorC", "_ZNSt12out_of_rangeC", "_ZNSt16invalid_argumentC", "_ZNSt12length_errorC", "_ZNSt11range_errorC", "_ZNSt12domain_errorC", "_ZNSt14overflow_errorC",
        "_ZNSt12system_errorC", "_ZSt24__throw_out_of_range_fmt", "_ZSt20__throw_length_error", "puts", "printf", "fprintf", "fwrite", "perror", nullptr};
    for (int i = 0; pre[i]; ++i) if (startsWith(n, pre[i])) return true;
    if (gOstreamDisplay && (n.find("num_put") != std::string::npos || startsWith(n, "_ZNSo") || n.find("ostream") != std::string::npos)) return true;
    return false;
}
static void collectReach(uint64_t p, int depth, std::set<uint64_t>& blocks)
{
    if (!inArena(p)) return;
    Block* b = findBlock(p);
    uint64_t lo, n;
    if (b) { if (!blocks.insert(b->off).second) return; lo = (uint64_t)gArena + b->off; n = b->size; }
    else { if (p - (uint64_t)gArena < kHeapSize) return; lo = p & ~7ull; if (!blocks.insert(lo - (uint64_t)gArena).second) return; n = 0; while (n < 64 && lo + n < (uint64_t)gArena + kArenaSize && gShadow[lo + n - (uint64_t)gArena] == 1) n += 8; }
    if (depth <= 0) return;
    for (uint64_t i = 0; i + 8 <= n && i < 4096; i += 8) collectReach(*(uint64_t*)(((lo + 7) & ~7ull) + i), depth - 1, blocks);
}
// output streams only read what their arguments point to directly
static bool shallowNative(const std::string& n)
{
    static const char* pre[] = {"_ZSt16__ostream_insert", "_ZNSo", "_ZStlsI", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC", "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED", nullptr};
    for (int i = 0; pre[i]; ++i) if (startsWith(n, pre[i])) return true;
    return false;
}
static void concretizeReach(uint64_t p, int depth)
{
    std::set<uint64_t> bl;
    collectReach(p, depth, bl);
    for (uint64_t off : bl) {
        uint64_t lo = (uint64_t)gArena + off, n;
        Block* b = findBlock(lo);
        n = b && b->off == off ? b->size : 64;
        std::vector<uint64_t> at;
        if (n > 65536) { for (auto& [g, gr] : gSym) for (int i = 0; i < 8; ++i) if (gr.b[i] && g * 8 + i >= lo && g * 8 + i < lo + n) at.push_back(g * 8 + i); }
        else for (uint64_t i = 0; i < n; ++i) if (symByte(lo + i)) at.push_back(lo + i);
        for (uint64_t a : at) { Expr* e = symByte(a); if (!e) continue; u128 v = concretizeE(e); setByte(a, nullptr); *(uint8_t*)a = (uint8_t)v; }
    }
}
static ffi_type* ffiT(unsigned w, bool f)
{
    if (f && w == 80) return &ffi_type_longdouble;
    if (f) return w == 32 ? &ffi_type_float : &ffi_type_double;
    return w <= 8 ? &ffi_type_uint8 : w <= 16 ? &ffi_type_uint16 : w <= 32 ? &ffi_type_uint32 : &ffi_type_uint64;
}
// returns an exception, or nullptr with ret filled
static Exc* nativeCall(void* fn, CallInfo* ci, std::vector<Val>& args, Val* ret)
{
    if (!gReplayInterp) SH->native.hit(shortName(ci->name.empty() ? std::string("<indirect>") : ci->name).c_str());
    if (ci->ret->leaves.size() > 2) incomplete("native call returning a large aggregate: " + ci->name);
    std::vector<std::pair<uint64_t, uint8_t>> snap;
    bool sym = !gSym.empty();
    bool disp = false, safe = false;
    bool anyArg = false;
    for (auto& a : args) if (!isConc(a)) anyArg = true;
    if (sym || anyArg) {
        std::string nm = ci->name;
        if (nm.empty()) { Dl_info di; if (dladdr(fn, &di) && di.dli_sname) nm = di.dli_sname; }
        disp = displayNative(nm); safe = safeNative(nm); const bool shallow = shallowNative(nm);
        if (anyArg && !disp) for (size_t i = 0; i < args.size(); ++i) if (ci->widths[i] <= 64) args[i] = C(conc(args[i])); else args[i].e = M.cst(concretizeE(args[i].e), ci->widths[i]);
        if (sym && startsWith(nm, "_ZSt16__ostream_insertI") && args.size() == 3 && args[2].c < 65536) { if (!disp) for (uint64_t i = 0; i < args[2].c; ++i) if (Expr* e = symByte(args[1].c + i)) { u128 v = concretizeE(e); setByte(args[1].c + i, nullptr); *(uint8_t*)(args[1].c + i) = (uint8_t)v; } safe = true; }
        if (sym && !disp && !safe) for (size_t i = 0; i < args.size(); ++i) if (!ci->isF[i] && ci->widths[i] == 64) concretizeReach(args[i].c, shallow ? 0 : 1);
        materialize();
        for (auto& [g, gr] : gSym) for (int i = 0; i < 8; ++i) if (gr.b[i]) snap.push_back({g * 8 + i, *(uint8_t*)(g * 8 + i)});
    }
    size_t n = args.size();
    std::vector<ffi_type*> at(n); std::vector<void*> av(n); std::vector<u128> raw(n);
    for (size_t i = 0; i < n; ++i) {
        raw[i] = args[i].e ? M.eval(args[i].e) : args[i].c;
        if (ci->widths[i] > 64 && !(ci->widths[i] == 80 && ci->isF[i])) incomplete("native call with a wide argument: " + ci->name);
        at[i] = ffiT(ci->widths[i], ci->isF[i]); av[i] = &raw[i];
    }
    ffi_type st; ffi_type* el[3] = {nullptr, nullptr, nullptr};
    ffi_type* rt = &ffi_type_void;
    if (ci->ret->leaves.size() == 1) rt = ffiT(ci->ret->leaves[0].w, ci->retF[0]);
    else if (ci->ret->leaves.size() == 2) { st.size = 0; st.alignment = 0; st.type = FFI_TYPE_STRUCT; st.elements = el; el[0] = ffiT(ci->ret->leaves[0].w, ci->retF[0]); el[1] = ffiT(ci->ret->leaves[1].w, ci->retF[1]); rt = &st; }
    ffi_cif cif;
    ffi_status fs = ci->fixedArgs >= 0 && (int)n > ci->fixedArgs ? ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, ci->fixedArgs, n, rt, at.data()) : ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, rt, at.data());
    if (fs != FFI_OK) incomplete("ffi");
    alignas(16) uint8_t rv[64] = {0};
    Exc* ex = nullptr;
    gInterp = false;
    try { ffi_call(&cif, (void (*)())fn, rv, av.data()); }
    catch (...) { ex = nativeExc(); }
    gInterp = true;
    for (auto& [a, v] : snap) if (*(uint8_t*)a != v) { uint8_t nv = *(uint8_t*)a; setByte(a, nullptr); *(uint8_t*)a = nv; }
    if (ex) return ex;
    if (ci->ret->leaves.size() == 1 && ci->ret->leaves[0].w == 80) { u128 v = 0; memcpy(&v, rv, 10); ret[0] = Val{0, M.cst(v, 80)}; }
    else if (ci->ret->leaves.size() == 1) { uint64_t v; memcpy(&v, rv, 8); ret[0] = C(v & msk(ci->ret->leaves[0].w)); }
    else if (ci->ret->leaves.size() == 2) {
        uint64_t v0 = 0, v1 = 0; unsigned w0 = ci->ret->leaves[0].w, w1 = ci->ret->leaves[1].w;
        memcpy(&v0, rv, (w0 + 7) / 8); memcpy(&v1, rv + ci->ret->leaves[1].off, (w1 + 7) / 8);
        ret[0] = C(v0 & msk(w0)); ret[1] = C(v1 & msk(w1));
    }
    return nullptr;
}

// ------------------------------------------------------------------------------------------------ intercepted functions
static std::string cstr(uint64_t p) { std::string s; for (; s.size() < 4000; ++p) { chk(p, 1, false); char c = *(char*)p; if (!c) break; s += c; } return s; }
struct CallRes { bool pushed = false; Exc* ex = nullptr; bool switched = false; };

static Val freshVar(const std::string& name, unsigned w)
{
    u128 init = 0;
    if (gReplayInterp) { if (gReplayPos >= gReplayVals.size()) { init = 0; } else init = gReplayVals[gReplayPos]; ++gReplayPos; return w <= 64 ? C((uint64_t)(init & maskw(w))) : Val{0, M.cst(init, w)}; }
    return Val{0, M.var(name, w, init)};
}
static void doAlloc(CallRes& r, Val* ret, uint64_t n, uint64_t al, uint8_t kind, bool nothrow)
{
    void* p = n > gAllocMax ? nullptr : arenaAlloc(n, al, kind);
    if (!gReplayInterp) SH->allocs++;
    if (!p && !nothrow) { try { throw std::bad_alloc(); } catch (...) { r.ex = nativeExc(); } return; }
    ret[0] = C((uint64_t)p);
}
static int gSelfThread() { return cur->id; }
static void newThread(uint64_t fn, uint64_t arg, Val* ret);
static void destroyExc(Exc* x, CallRes& r)
{
    if (x->dtor && !x->native) {
        auto it = gFnAt.find(x->dtor);
        uint64_t d = x->dtor; x->dtor = 0;
        if (it != gFnAt.end() && !it->second->isDeclaration()) { Val a = C(x->obj); pushFrame(decode(it->second), &a, 1); r.pushed = true; }
        else { gInterp = false; ((void (*)(void*))d)((void*)x->obj); gInterp = true; }
    }
}

static CallRes intercepted(H h, CallInfo* ci, std::vector<Val>& a, Val* ret)
{
    CallRes r;
    auto U = [&](unsigned i) { return conc(a[i]); };
    switch (h) {
        case H::SymInt: ret[0] = Val{0, nullptr}; { unsigned w = U(1); std::string n = cstr(U(0)); Val v = freshVar(n, w); ret[0] = w == 64 ? v : v.e ? mkv(M.zext(v.e, 64)) : v; } break;
        case H::SymBytes: { uint64_t p = U(0), n = U(1); std::string nm = cstr(U(2)); chk(p, n, true); for (uint64_t i = 0; i < n; ++i) store(p + i, freshVar(nm + "[" + std::to_string(i) + "]", 8), 8); break; }
        case H::SymChoice: {
            unsigned n = U(1); std::string nm = cstr(U(0));
            if (n <= 1) { ret[0] = C(0); break; }
            unsigned w = 1; while ((1u << w) < n) ++w;
            Val v = freshVar(nm, w);
            if (v.e) { assume(M.cmp(K::Ule, v.e, M.cst(n - 1, w))); ret[0] = C((uint64_t)concretizeE(v.e)); } else ret[0] = v;
            break;
        }
        case H::SymConc: ret[0] = C(conc(a[0])); break;
        case H::SymAssume: assume(a[0].e ? M.extract(a[0].e, 0, 1) : M.cst(a[0].c & 1, 1)); break;
        case H::SymCheck: checkProp(a[0].e ? M.extract(a[0].e, 0, 1) : M.cst(a[0].c & 1, 1), cstr(U(1))); break;
        case H::SymFail: violation(cstr(U(0))); endPath(1);
        case H::SymReach: if (!gReplayInterp) SH->reach.hit(cstr(U(0)).c_str()); break;
        case H::SymNote: gNotes.push_back({cstr(U(0)), a[1]}); if (gReplayInterp) printf("NOTE %s %llu\n", cstr(U(0)).c_str(), (unsigned long long)(a[1].e ? (uint64_t)M.eval(a[1].e) : a[1].c)); break;
        case H::SymEnd: endPath(0);
        case H::SymIncomplete: incomplete(cstr(U(0)));
        case H::SymMode: {
            std::string k = cstr(U(0)); uint64_t v = U(1);
            if (k == "conc-max") gConcMax = v; else if (k == "ostream-display") gOstreamDisplay = v; else if (k == "limit-violation") gLimitIsViolation = v;
            else if (k == "path-insts") gPathLimit = v; else if (k == "alloc-max") gAllocMax = v; else if (k == "race") { gRace = v; gRaceOn = v && gThr.size() > 1; }
            else incomplete("unknown mode " + k);
            break;
        }
        case H::SymHeapLive: ret[0] = C(gLive); break;
        case H::SymPtrOk: { uint64_t p = U(0), n = U(1); bool ok = inArena(p) || p >= 65536; if (inArena(p)) for (uint64_t i = 0; i < n; ++i) if (gShadow[p + i - (uint64_t)gArena] != 1) ok = false; ret[0] = C(ok); break; }
        case H::SymIsSym: ret[0] = C(!isConc(a[0])); break;
        case H::SymHeapId: { uint64_t p = U(0); Block* b = inArena(p) ? findBlock(p) : nullptr; ret[0] = C(b && b->state == 1 ? b->id : 0); break; }
        case H::SymPoison: { uint64_t p = U(0), n = U(1); memset(gShadow + (p - (uint64_t)gArena), 3, n); break; }
        case H::SymUnpoison: { uint64_t p = U(0), n = U(1); memset(gShadow + (p - (uint64_t)gArena), 1, n); break; }
        case H::SymThreadNew: newThread(U(0), U(1), ret); break;
        case H::SymThreadSwitch: {
            uint64_t t = U(0);
            if (t >= gThr.size()) incomplete("bad thread id");
            if (!gReplayInterp) SH->switches++;
            r.switched = true;
            cur->lpObj = t;   // scratch; consumed by the caller
            break;
        }
        case H::SymHbRelease: hbRelease(U(0)); break;
        case H::SymHbAcquire: hbAcquire(U(0)); break;
        case H::SymThreadSelf: ret[0] = C(gSelfThread()); break;
        case H::Malloc: doAlloc(r, ret, U(0), 16, 0, true); break;
        case H::Calloc: { unsigned __int128 n = (unsigned __int128)U(0) * U(1); if (n > gAllocMax) { ret[0] = C(0); break; } doAlloc(r, ret, (uint64_t)n, 16, 0, true); if (ret[0].c) memset((void*)ret[0].c, 0, (uint64_t)n); break; }
        case H::Realloc: {
            uint64_t p = U(0), n = U(1);
            if (!p) { doAlloc(r, ret, n, 16, 0, true); break; }
            if (!inArena(p)) { ret[0] = C((uint64_t)__libc_realloc((void*)p, n)); break; }
            Block* b = findBlock(p);
            if (!b || (uint64_t)gArena + b->off != p || b->state == 2) { violation("memory error: realloc of an invalid pointer in " + repoSite()); endPath(1); }
            uint64_t old = b->size;
            doAlloc(r, ret, n, 16, 0, true);
            if (ret[0].c) { copyMem(ret[0].c, p, std::min(old, n)); freePtr(p, false); }
            break;
        }
        case H::Free: freePtr(U(0), false); break;
        case H::Delete: freePtr(U(0), true); break;
        case H::New: doAlloc(r, ret, U(0), 16, 1, false); break;
        case H::NewNothrow: doAlloc(r, ret, U(0), 16, 1, true); break;
        case H::NewAligned: doAlloc(r, ret, U(0), U(1), 1, false); break;
        case H::NewAlignedNothrow: doAlloc(r, ret, U(0), U(1), 1, true); break;
        case H::AlignedAlloc: doAlloc(r, ret, U(1), U(0), 0, true); break;
        case H::PosixMemalign: { uint64_t pp = U(0); Val t = C(0); doAlloc(r, &t, U(2), U(1), 0, true); if (t.c) { store(pp, t, 64); ret[0] = C(0); } else ret[0] = C(12); break; }
        case H::UsableSize: { uint64_t p = U(0); Block* b = inArena(p) ? findBlock(p) : nullptr; ret[0] = C(b ? b->size : p ? malloc_usable_size((void*)p) : 0); break; }
        case H::Memcpy: case H::Memmove: { uint64_t d = U(0), s = U(1), n = U(2); copyMem(d, s, n); ret[0] = C(d); break; }
        case H::Memset: { uint64_t d = U(0), n = U(2); setMem(d, a[1], n); ret[0] = C(d); break; }
        case H::Memcmp: case H::Bcmp: {
            uint64_t x = U(0), y = U(1), n = U(2);
            if (n) { chk(x, n, false); chk(y, n, false); }
            if (!anySym(x, n) && !anySym(y, n)) { int v = n ? memcmp((void*)x, (void*)y, n) : 0; ret[0] = C((uint32_t)v); break; }
            Expr* e = M.cst(0, 32);
            if (h == H::Bcmp) {
                Expr* eq = M.cst(1, 1);
                for (uint64_t i = 0; i < n; ++i) eq = M.bin(K::And, eq, M.cmp(K::Eq, byteE(x + i), byteE(y + i)));
                e = M.ite(eq, M.cst(0, 32), M.cst(1, 32));
            } else for (uint64_t i = n; i-- > 0;) {
                Expr* p = byteE(x + i); Expr* q = byteE(y + i);
                e = M.ite(M.cmp(K::Eq, p, q), e, M.ite(M.cmp(K::Ult, p, q), M.cst(0xffffffff, 32), M.cst(1, 32)));
            }
            ret[0] = mkv(e);
            break;
        }
        case H::Strlen: { uint64_t p = U(0), i = 0; for (;; ++i) { chk(p + i, 1, false); Expr* e = symByte(p + i); if (!e) { if (!*(char*)(p + i)) break; } else if (branch(M.cmp(K::Eq, e, M.cst(0, 8)))) break; } ret[0] = C(i); break; }
        case H::Strcmp: case H::Strncmp: {
            uint64_t x = U(0), y = U(1), n = h == H::Strncmp ? U(2) : ~0ull; int v = 0;
            for (uint64_t i = 0; i < n; ++i) {
                chk(x + i, 1, false); chk(y + i, 1, false);
                Expr* p = byteE(x + i); Expr* q = byteE(y + i);
                if (!branch(M.cmp(K::Eq, p, q))) { v = branch(M.cmp(K::Ult, p, q)) ? -1 : 1; break; }
                if (branch(M.cmp(K::Eq, p, M.cst(0, 8)))) break;
            }
            ret[0] = C((uint32_t)v); break;
        }
        case H::Memchr: {
            uint64_t p = U(0), n = U(2); Expr* c = M.extract(E(a[1], 32), 0, 8); uint64_t res = 0;
            for (uint64_t i = 0; i < n; ++i) { chk(p + i, 1, false); if (branch(M.cmp(K::Eq, byteE(p + i), c))) { res = p + i; break; } }
            ret[0] = C(res); break;
        }
        case H::Strchr: {
            uint64_t p = U(0); Expr* c = M.extract(E(a[1], 32), 0, 8); uint64_t res = 0;
            for (uint64_t i = 0;; ++i) { chk(p + i, 1, false); Expr* b = byteE(p + i); if (branch(M.cmp(K::Eq, b, c))) { res = p + i; break; } if (branch(M.cmp(K::Eq, b, M.cst(0, 8)))) break; }
            ret[0] = C(res); break;
        }
        case H::HashBytes: {
            uint64_t p = U(0), n = U(1), seed = U(2);
            if (n) chk(p, n, false);
            if (anySym(p, n)) { if (!gReplayInterp) SH->native.hit("(hash of symbolic bytes taken as constant)"); ret[0] = C(0); }
            else ret[0] = C(std::_Hash_bytes((void*)p, n, seed));
            break;
        }
        case H::AllocExc: { uint64_t p = (uint64_t)arenaAlloc(U(0) + 128, 16, 2); memset((void*)p, 0, 128); ret[0] = C(p + 128); auto* x = new Exc; x->obj = p + 128; x->ti = nullptr; x->dtor = 0; gExc[x->obj] = x; break; }
        case H::FreeExc: gExc.erase(U(0)); break;
        case H::InitPrimary: { Exc* x = excOf(U(0)); x->ti = (const std::type_info*)U(1); x->dtor = U(2); ret[0] = C(U(0) - 128); break; }
        case H::Throw: { Exc* x = excOf(U(0)); x->ti = (const std::type_info*)U(1); x->dtor = U(2); r.ex = x; break; }
        case H::BeginCatch: { Exc* x = excOf(U(0)); if (!x) incomplete("foreign exception caught"); if (x->inflight) { x->inflight--; cur->inflight--; } x->handlers++; cur->caught.push_back(x); ret[0] = C(x->adj); break; }
        case H::GetExcPtr: { Exc* x = excOf(U(0)); ret[0] = C(x->adj); break; }
        case H::EndCatch: {
            if (cur->caught.empty()) break;
            Exc* x = cur->caught.back(); cur->caught.pop_back();
            if (--x->handlers == 0 && x->inflight == 0 && x->refs == 0) destroyExc(x, r);
            break;
        }
        case H::Rethrow: { if (cur->caught.empty()) { violation("rethrow without exception in " + repoSite()); endPath(1); } r.ex = cur->caught.back(); break; }
        case H::CurExc: { uint64_t p = U(0); Exc* x = cur->caught.empty() ? nullptr : cur->caught.back(); if (x) x->refs++; store(p, C(x ? x->obj : 0), 64); if (!ci->ret->leaves.empty()) ret[0] = C(p); break; }
        case H::RethrowExc: { uint64_t o = conc(load(U(0), 64)); Exc* x = excOf(o); if (!x) { violation("rethrow of a null exception_ptr in " + repoSite()); endPath(1); } r.ex = x; break; }
        case H::ExcPtrAddRef: { Exc* x = excOf(conc(load(U(0), 64))); if (x) x->refs++; break; }
        case H::ExcPtrCtor: { store(U(0), C(U(1)), 64); Exc* x = excOf(U(1)); if (x) x->refs++; break; }
        case H::ExcPtrCopy: { Val v = load(U(1), 64); store(U(0), v, 64); Exc* x = excOf(conc(v)); if (x) x->refs++; break; }
        case H::ExcPtrRelease: case H::ExcPtrDtor: {
            Val v = load(U(0), 64); Exc* x = excOf(conc(v));
            if (h == H::ExcPtrRelease) store(U(0), C(0), 64);
            if (x && --x->refs == 0 && x->handlers == 0 && x->inflight == 0) destroyExc(x, r);
            break;
        }
        case H::UncaughtExceptions: ret[0] = C((uint32_t)cur->inflight); break;
        case H::UncaughtException: ret[0] = C(cur->inflight > 0); break;
        case H::CurExcType: ret[0] = C(cur->caught.empty() ? 0 : (uint64_t)cur->caught.back()->ti); break;
        case H::Terminate: violation("std::terminate called in " + repoSite()); endPath(1);
        case H::Abort: violation("abort called in " + repoSite()); endPath(1);
        case H::AssertFail: violation("assertion failed in " + repoSite()); endPath(1);
        case H::PureVirtual: violation("pure virtual call in " + repoSite()); endPath(1);
        case H::Exit: violation("process exit in " + repoSite()); endPath(1);
        case H::NoopZero: ret[0] = C(0); break;
        case H::NoopVoid: break;
        default: incomplete("unhandled intercept");
    }
    return r;
}

static Val addOvf(K k, bool sg, const Val& x, const Val& y, unsigned w, Val* ov)
{
    // computed in 2w bits so that the comparison with the truncated result decides overflow
    unsigned W2 = std::min(128u, 2 * w + 1);
    if (!x.e && !y.e && w <= 64) {
        i128 p = sg ? sextv(x.c, w) : (i128)(x.c & msk(w)), q = sg ? sextv(y.c, w) : (i128)(y.c & msk(w));
        u128 r = k == K::Add ? (u128)p + (u128)q : k == K::Sub ? (u128)p - (u128)q : (u128)p * (u128)q;
        uint64_t t = (uint64_t)r & msk(w);
        u128 back = sg ? (u128)sextv(t, w) : (u128)t;
        *ov = C(back != r);
        return C(t);
    }
    Expr* a = sg ? M.sext(E(x, w), W2) : M.zext(E(x, w), W2); Expr* b = sg ? M.sext(E(y, w), W2) : M.zext(E(y, w), W2);
    Expr* r = M.bin(k, a, b); Expr* t = M.extract(r, 0, w);
    Expr* back = sg ? M.sext(t, W2) : M.zext(t, W2);
    *ov = mkv(M.lnot(M.cmp(K::Eq, back, r)));
    return mkv(t);
}

static bool intrinsic(CallInfo* ci, std::vector<Val>& a, Val* ret, DInst& d)
{
    unsigned w = ci->widths.empty() ? 0 : ci->widths[0];
    unsigned n = ci->ret->leaves.size();
    switch (ci->intr) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(conc(a[0]), conc(a[1]), conc(a[2])); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: setMem(conc(a[0]), a[1], conc(a[2])); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret[0] = a[0]; return true;
        case Intrinsic::is_constant: ret[0] = C(0); return true;
        case Intrinsic::objectsize: ret[0] = C(a[1].c & 1 ? 0 : msk(ci->ret->leaves[0].w)); return true;
        case Intrinsic::invariant_start: ret[0] = C(0); return true;
        case Intrinsic::stacksave: ret[0] = C(cur->sp); return true;
        case Intrinsic::stackrestore: { uint64_t s = conc(a[0]); if (s < cur->sp) { memset(gShadow + (s - (uint64_t)gArena), 2, cur->sp - s); cur->sp = s; } return true; }
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation("trap in " + repoSite()); endPath(1);
        case Intrinsic::eh_typeid_for: ret[0] = C(typeId(conc(a[0]))); return true;
        case Intrinsic::threadlocal_address: {
            uint64_t p = a[0].c;
            if (cur->id == 0) { ret[0] = C(p); return true; }
            auto it = gTls.find(p);
            if (it == gTls.end()) { ret[0] = C(p); return true; }
            auto& t = it->second;
            auto& cp = t.copy[cur->id];
            if (!cp) { cp = (uint64_t)arenaAlloc(t.size, 64, 2); memcpy((void*)cp, t.init.data(), t.size); }
            ret[0] = C(cp); return true;
        }
        case Intrinsic::uadd_with_overflow: ret[0] = addOvf(K::Add, false, a[0], a[1], w, &ret[1]); return true;
        case Intrinsic::sadd_with_overflow: ret[0] = addOvf(K::Add, true, a[0], a[1], w, &ret[1]); return true;
        case Intrinsic::usub_with_overflow: ret[0] = addOvf(K::Sub, false, a[0], a[1], w, &ret[1]); return true;
        case Intrinsic::ssub_with_overflow: ret[0] = addOvf(K::Sub, true, a[0], a[1], w, &ret[1]); return true;
        case Intrinsic::umul_with_overflow: ret[0] = addOvf(K::Mul, false, a[0], a[1], w, &ret[1]); return true;
        case Intrinsic::smul_with_overflow: ret[0] = addOvf(K::Mul, true, a[0], a[1], w, &ret[1]); return true;
        default: break;
    }
    auto lanes = [&](auto f) { for (unsigned i = 0; i < n; ++i) ret[i] = f(i); return true; };
    auto A = [&](unsigned i, unsigned lane) { return E(a[i * n + lane], w); };
    switch (ci->intr) {
        case Intrinsic::umax: return lanes([&](unsigned l) { return mkv(M.ite(M.cmp(K::Ult, A(0, l), A(1, l)), A(1, l), A(0, l))); });
        case Intrinsic::umin: return lanes([&](unsigned l) { return mkv(M.ite(M.cmp(K::Ult, A(0, l), A(1, l)), A(0, l), A(1, l))); });
        case Intrinsic::smax: return lanes([&](unsigned l) { return mkv(M.ite(M.cmp(K::Slt, A(0, l), A(1, l)), A(1, l), A(0, l))); });
        case Intrinsic::smin: return lanes([&](unsigned l) { return mkv(M.ite(M.cmp(K::Slt, A(0, l), A(1, l)), A(0, l), A(1, l))); });
        case Intrinsic::abs: return lanes([&](unsigned l) { Expr* x = E(a[l], w); return mkv(M.ite(M.cmp(K::Slt, x, M.cst(0, w)), M.bin(K::Sub, M.cst(0, w), x), x)); });
        case Intrinsic::usub_sat: return lanes([&](unsigned l) { return mkv(M.ite(M.cmp(K::Ult, A(0, l), A(1, l)), M.cst(0, w), M.bin(K::Sub, A(0, l), A(1, l)))); });
        case Intrinsic::uadd_sat: return lanes([&](unsigned l) { Expr* s = M.bin(K::Add, A(0, l), A(1, l)); return mkv(M.ite(M.cmp(K::Ult, s, A(0, l)), M.cst(maskw(w), w), s)); });
        case Intrinsic::bswap: return lanes([&](unsigned l) { Expr* x = E(a[l], w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = M.extract(x, i, 8); r = r ? M.concat(r, b) : b; } return mkv(r); });
        case Intrinsic::fshl: return lanes([&](unsigned l) { uint64_t s = conc(a[2 * n + l]) % w; return s ? mkv(M.bin(K::Or, M.bin(K::Shl, A(0, l), M.cst(s, w)), M.bin(K::LShr, A(1, l), M.cst(w - s, w)))) : mkv(A(0, l)); });
        case Intrinsic::fshr: return lanes([&](unsigned l) { uint64_t s = conc(a[2 * n + l]) % w; return s ? mkv(M.bin(K::Or, M.bin(K::Shl, A(0, l), M.cst(w - s, w)), M.bin(K::LShr, A(1, l), M.cst(s, w)))) : mkv(A(1, l)); });
        case Intrinsic::ctlz: ret[0] = C(0); { Expr* r = M.cst(w, w); Expr* x = E(a[0], w); for (unsigned i = 0; i < w; ++i) r = M.ite(M.cmp(K::Eq, M.extract(x, i, 1), M.cst(1, 1)), M.cst(w - 1 - i, w), r); ret[0] = mkv(r); return true; }
        case Intrinsic::cttz: { Expr* r = M.cst(w, w); Expr* x = E(a[0], w); for (unsigned i = w; i-- > 0;) r = M.ite(M.cmp(K::Eq, M.extract(x, i, 1), M.cst(1, 1)), M.cst(i, w), r); ret[0] = mkv(r); return true; }
        case Intrinsic::ctpop: { Expr* r = M.cst(0, w); Expr* x = E(a[0], w); for (unsigned i = 0; i < w; ++i) r = M.bin(K::Add, r, M.zext(M.extract(x, i, 1), w)); ret[0] = mkv(r); return true; }
        case Intrinsic::ptrmask: ret[0] = mkv(M.bin(K::And, E(a[0], 64), E(a[1], 64))); return true;
        case Intrinsic::fabs: ret[0] = mkv(M.bin(K::And, E(a[0], w), M.cst(maskw(w - 1), w))); return true;
        case Intrinsic::load_relative: { uint64_t b = conc(a[0]), o = conc(a[1]); Val v = load(b + o, 32); ret[0] = C(b + (uint64_t)(int64_t)(int32_t)conc(v)); return true; }
        case Intrinsic::fmuladd: case Intrinsic::fma: ret[0] = mkv(M.fp(K::FAdd, w, M.fp(K::FMul, w, E(a[0], w), E(a[1], w), w), E(a[2], w), w)); return true;
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint: {
            uint64_t v = conc(a[0]);
            auto f = [&](double x) { switch (ci->intr) { case Intrinsic::ceil: return ceil(x); case Intrinsic::floor: return floor(x); case Intrinsic::trunc: return trunc(x); case Intrinsic::sqrt: return sqrt(x); case Intrinsic::rint: case Intrinsic::nearbyint: return rint(x); default: return round(x); } };
            if (w == 32) { float x; uint32_t u = v; memcpy(&x, &u, 4); x = (float)f(x); memcpy(&u, &x, 4); ret[0] = C(u); } else { double x; memcpy(&x, &v, 8); x = f(x); memcpy(&v, &x, 8); ret[0] = C(v); }
            return true;
        }
        case Intrinsic::vector_reduce_or: { Expr* r = E(a[0], w); for (size_t i = 1; i < a.size(); ++i) r = M.bin(K::Or, r, E(a[i], w)); ret[0] = mkv(r); return true; }
        case Intrinsic::vector_reduce_and: { Expr* r = E(a[0], w); for (size_t i = 1; i < a.size(); ++i) r = M.bin(K::And, r, E(a[i], w)); ret[0] = mkv(r); return true; }
        case Intrinsic::vector_reduce_add: { Expr* r = E(a[0], w); for (size_t i = 1; i < a.size(); ++i) r = M.bin(K::Add, r, E(a[i], w)); ret[0] = mkv(r); return true; }
        default: return false;
    }
    (void)d;
}

static void newThread(uint64_t fn, uint64_t arg, Val* ret)
{
    if (gThr.size() >= kMaxThreads) incomplete("too many threads");
    auto* t = new Thread;
    t->id = gThr.size();
    t->slots = (Val*)mmap(nullptr, kSlots * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->sp = (uint64_t)gArena + kHeapSize + kStackEach * t->id + 4096; t->spEnd = (uint64_t)gArena + kHeapSize + kStackEach * (t->id + 1) - 4096;
    if (cur) { t->vc = cur->vc; if (cur->id < kVC) cur->vc.c[cur->id]++; }
    if (t->id < kVC) t->vc.c[t->id]++;
    gThr.push_back(t);
    if (gRace && gThr.size() > 1) gRaceOn = true;
    if (gThr.size() > SH->nthreadsMax) SH->nthreadsMax = gThr.size();
    if (fn) {
        Thread* save = cur; cur = t;
        auto it = gFnAt.find(fn);
        if (it == gFnAt.end() || it->second->isDeclaration()) incomplete("thread function is not interpreted");
        Val a = C(arg);
        pushFrame(decode(it->second), &a, 1);
        cur = save;
    }
    if (ret) ret[0] = C(t->id);
}

static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w)
{
    switch (p) {
        case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
        default: break;
    }
    int64_t x = (int64_t)sextv(a, w), y = (int64_t)sextv(b, w);
    switch (p) { case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; case CmpInst::ICMP_SLT: return x < y; default: return x <= y; }
}
static Expr* icmpE(unsigned p, Expr* a, Expr* b)
{
    switch (p) {
        case CmpInst::ICMP_EQ: return M.cmp(K::Eq, a, b); case CmpInst::ICMP_NE: return M.lnot(M.cmp(K::Eq, a, b));
        case CmpInst::ICMP_UGT: return M.cmp(K::Ult, b, a); case CmpInst::ICMP_UGE: return M.cmp(K::Ule, b, a); case CmpInst::ICMP_ULT: return M.cmp(K::Ult, a, b); case CmpInst::ICMP_ULE: return M.cmp(K::Ule, a, b);
        case CmpInst::ICMP_SGT: return M.cmp(K::Slt, b, a); case CmpInst::ICMP_SGE: return M.cmp(K::Sle, b, a); case CmpInst::ICMP_SLT: return M.cmp(K::Slt, a, b); default: return M.cmp(K::Sle, a, b);
    }
}
// operand of a floating point operation; extended precision operands are made concrete
static Expr* EF(const Val& v, unsigned w, unsigned w2) { Expr* e = E(v, w); if ((w == 80 || w2 == 80) && e->k != K::Const) e = M.cst(concretizeE(e), w); return e; }
static Expr* fcmpE(unsigned p, Expr* a, Expr* b, unsigned w)
{
    auto lt = [&](Expr* x, Expr* y) { return M.fp(K::FLt, 1, x, y, w); };
    auto le = [&](Expr* x, Expr* y) { return M.fp(K::FLe, 1, x, y, w); };
    auto eq = [&](Expr* x, Expr* y) { return M.fp(K::FEq, 1, x, y, w); };
    auto un = [&](Expr* x, Expr* y) { return M.fp(K::FUno, 1, x, y, w); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return M.cst(0, 1); case CmpInst::FCMP_TRUE: return M.cst(1, 1);
        case CmpInst::FCMP_OEQ: return eq(a, b); case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a); case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b);
        case CmpInst::FCMP_ONE: return M.bin(K::And, M.lnot(un(a, b)), M.lnot(eq(a, b)));
        case CmpInst::FCMP_ORD: return M.lnot(un(a, b)); case CmpInst::FCMP_UNO: return un(a, b);
        case CmpInst::FCMP_UEQ: return M.bin(K::Or, un(a, b), eq(a, b)); case CmpInst::FCMP_UGT: return M.lnot(le(a, b)); case CmpInst::FCMP_UGE: return M.lnot(lt(a, b));
        case CmpInst::FCMP_ULT: return M.lnot(le(b, a)); case CmpInst::FCMP_ULE: return M.lnot(lt(b, a)); default: return M.lnot(eq(a, b));
    }
}

static void handleCall(DInst& d)
{
    auto* ci = (CallInfo*)d.p;
    Frame& f = cur->fr.back();
    auto V = [&](int o) -> Val { return o >= 0 ? f.s[o] : gConst[~o]; };
    static std::vector<Val> args; args.clear();
    for (int o : ci->args) args.push_back(V(o));
    Val ret[8] = {C(0), C(0), C(0), C(0), C(0), C(0), C(0), C(0)};
    std::vector<Val> bigRet; Val* R = ret;
    if (ci->ret->leaves.size() > 8) { bigRet.resize(ci->ret->leaves.size()); R = bigRet.data(); }
    CallRes cr;
    if (ci->intr) {
        if (ci->intr == -2) { if (ci->name != "asm:" && ci->name.find_first_not_of(" \t\n", 4) != std::string::npos && ci->name.find("pause") == std::string::npos && ci->name.find("nop") == std::string::npos) incomplete("inline " + ci->name); }
        else if (!intrinsic(ci, args, R, d)) incomplete("unsupported intrinsic " + ci->name);
    } else {
        Function* F = ci->direct;
        void* nat = nullptr;
        H h = ci->h;
        std::string nm;
        if (!F) {
            uint64_t a = conc(V(ci->callee));
            auto it = gFnAt.find(a);
            if (it != gFnAt.end()) F = it->second;
            else { if (a < 65536) memViolation(a, 1, false); nat = (void*)a; }
            if (F && F->isDeclaration()) { nm = F->getName().str(); auto ht = interceptTable().find(nm); if (ht != interceptTable().end()) h = ht->second; }
        }
        if (F && !F->isDeclaration()) {
            DFunc* D = ci->direct ? (ci->dcache ? ci->dcache : (ci->dcache = decode(F))) : decode(F);
            uint64_t mark = cur->sp;
            bool bv = false;
            for (auto b : ci->byval) if (b) bv = true;
            if (bv) {
                size_t k = 0;
                for (size_t i = 0; i < ci->argCount.size(); ++i) {
                    if (ci->byval[i]) { uint64_t src = conc(args[k]); uint64_t dst = stackAlloc(ci->byval[i], 16); copyMem(dst, src, ci->byval[i]); args[k] = C(dst); }
                    k += ci->argCount[i];
                }
            }
            pushFrame(D, args.data(), args.size());
            cur->fr.back().sp = mark;
            return;
        }
        if (h != H::None) cr = intercepted(h, ci, args, R);
        else {
            if (!nat) {
                if (!ci->nat || !ci->direct) { nat = (void*)gvAddr(F); if (!nat) nat = natSym(F->getName().str()); ci->nat = nat; } else nat = ci->nat;
                if (!nat) incomplete("external function without definition: " + F->getName().str());
            }
            if (startsWith(ci->name, "sym_")) incomplete("unknown " + ci->name);
            cr.ex = nativeCall(nat, ci, args, R);
        }
    }
    Frame& g = *(&cur->fr.back() - (cr.pushed ? 1 : 0));
    if (cr.ex) { throwExc(cr.ex); return; }
    if (d.dst >= 0) for (size_t i = 0; i < ci->ret->leaves.size(); ++i) g.s[d.dst + i] = R[i];
    if (cr.pushed) return;      // a destructor frame: its return completes this instruction (no value)
    if (d.op == OInvoke) takeEdge(g, ci->normal); else ++g.pc;
    if (cr.switched) { uint64_t t = cur->lpObj; cur = gThr[t]; if (cur->fr.empty()) incomplete("switch to a finished thread"); }
}

static void doReturn(DInst& d)
{
    Frame& f = cur->fr.back();
    Val tmp[8]; std::vector<Val> big; Val* t = tmp;
    if (d.x > 8) { big.resize(d.x); t = big.data(); }
    for (uint64_t i = 0; i < d.x; ++i) { int o = leafOp(d.a, i); t[i] = o >= 0 ? f.s[o] : gConst[~o]; }
    popFrame();
    if (cur->fr.empty()) {
        if (cur->id == 0) endPath(0);
        incomplete("thread function returned");
    }
    Frame& g = cur->fr.back();
    DInst& c = g.f->code[g.pc];
    auto* ci = (CallInfo*)c.p;
    if (c.dst >= 0 && ci->h == H::None) { size_t n = std::min<size_t>(ci->ret->leaves.size(), d.x); for (size_t i = 0; i < n; ++i) g.s[c.dst + i] = t[i]; }
    if (c.op == OInvoke) takeEdge(g, ci->normal); else ++g.pc;
}

static uint64_t gAtomicSerial = 0;
static void runLoop()
{
    for (;;) {
        if (++gInsts % 16384 == 0) checkDeadline();
        if (++gPathInsts > gPathLimit) { if (gLimitIsViolation) { violation("no progress: instruction limit reached in " + repoSite()); endPath(1); } incomplete("path instruction limit"); }
        Frame& f = cur->fr.back();
        DInst& d = f.f->code[f.pc];
#define V(o) ((o) >= 0 ? f.s[(o)] : gConst[~(o)])
        switch (d.op) {
            case OCov: SH->cov[d.x].store(1, std::memory_order_relaxed); d.op = ONop; d.k = 0; ++f.pc; break;
            case OBin: {
                Val x = V(d.a), y = V(d.b);
                K k = (K)d.k;
                if (!x.e && !y.e) {
                    uint64_t a = x.c, b = y.c, m = msk(d.w), r = 0;
                    switch (k) {
                        case K::Add: r = (a + b) & m; break; case K::Sub: r = (a - b) & m; break; case K::Mul: r = (a * b) & m; break;
                        case K::And: r = a & b; break; case K::Or: r = a | b; break; case K::Xor: r = a ^ b; break;
                        case K::Shl: r = b >= d.w ? 0 : (a << b) & m; break; case K::LShr: r = b >= d.w ? 0 : a >> b; break;
                        case K::UDiv: case K::URem: case K::SDiv: case K::SRem: if (!b) { violation("division by zero in " + repoSite()); endPath(1); }
                            // fallthrough
                        default: r = (uint64_t)foldBin(k, a, b, d.w); break;
                    }
                    f.s[d.dst] = C(r);
                } else {
                    Expr* a = E(x, d.w); Expr* b = E(y, d.w);
                    if (k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) if (b->k != K::Const || !b->cv) if (branch(M.cmp(K::Eq, b, M.cst(0, d.w)))) { violation("division by zero in " + repoSite()); endPath(1); }
                    f.s[d.dst] = mkv(M.bin(k, a, b));
                }
                ++f.pc; break;
            }
            case OICmp: {
                Val x = V(d.a), y = V(d.b);
                if (!x.e && !y.e) f.s[d.dst] = C(icmpC(d.k, x.c, y.c, d.w));
                else f.s[d.dst] = mkv(icmpE(d.k, E(x, d.w), E(y, d.w)));
                ++f.pc; break;
            }
            case OFBin: f.s[d.dst] = mkv(M.fp((K)d.k, d.w, EF(V(d.a), d.w, d.w), EF(V(d.b), d.w, d.w), d.w)); ++f.pc; break;
            case OFCmp: f.s[d.dst] = mkv(fcmpE(d.k, EF(V(d.a), d.w, d.w), EF(V(d.b), d.w, d.w), d.w)); ++f.pc; break;
            case OFNeg: f.s[d.dst] = mkv(M.bin(K::Xor, E(V(d.a), d.w), M.cst((u128)1 << (d.w - 1), d.w))); ++f.pc; break;
            case OLoad: {
                Val p = V(d.a); uint64_t a = p.e ? conc(p) : p.c;
                Frame& g = cur->fr.back();
                if (d.k) { gAtomicNow = true; g.s[d.dst] = load(a, d.w); gAtomicNow = false; hbAcquire(a); }
                else if (d.x == 1) g.s[d.dst] = load(a, d.w);
                else { auto* ti = (TypeInfo*)d.p; for (uint64_t i = 0; i < d.x; ++i) g.s[d.dst + i] = load(a + ti->leaves[i].off, ti->leaves[i].w); }
                ++g.pc; break;
            }
            case OStore: {
                Val p = V(d.b); uint64_t a = p.e ? conc(p) : p.c;
                if (d.k) { hbRelease(a); gAtomicNow = true; store(a, V(d.a), d.w); gAtomicNow = false; }
                else if (d.x == 1) store(a, V(d.a), d.w);
                else { auto* ti = (TypeInfo*)d.p; for (uint64_t i = 0; i < d.x; ++i) { int o = leafOp(d.a, i); store(a + ti->leaves[i].off, V(o), ti->leaves[i].w); } }
                ++f.pc; break;
            }
            case OGep: {
                auto* g = (GepInfo*)d.p;
                Val b = V(d.a);
                Expr* e = b.e; uint64_t c = b.c + g->off;
                if (e) { c = g->off; }
                for (auto& [o, w, sz] : g->idx) {
                    Val x = V(o);
                    if (!x.e) { c += (uint64_t)((int64_t)sextv(x.c, w) * sz); continue; }
                    Expr* t = M.bin(K::Mul, M.sext(w > 64 ? M.extract(x.e, 0, 64) : x.e, 64), M.cst((u128)(uint64_t)sz, 64));
                    e = e ? M.bin(K::Add, e, t) : t;
                }
                f.s[d.dst] = e ? mkv(M.bin(K::Add, e, M.cst(c, 64))) : C(c);
                ++f.pc; break;
            }
            case OTrunc: { Val x = V(d.a); if (!x.e) f.s[d.dst] = C(x.c & msk(d.w)); else f.s[d.dst] = mkv(M.extract(x.e, 0, d.w)); ++f.pc; break; }
            case OZExt: { Val x = V(d.a); if (!x.e && d.w <= 64) f.s[d.dst] = x; else { Expr* e = M.zext(E(x, d.x), d.w); f.s[d.dst] = d.w > 64 ? Val{0, e} : mkv(e); } ++f.pc; break; }
            case OSExt: { Val x = V(d.a); if (!x.e && d.w <= 64) f.s[d.dst] = C((uint64_t)sextv(x.c, d.x) & msk(d.w)); else { Expr* e = M.sext(E(x, d.x), d.w); f.s[d.dst] = d.w > 64 ? Val{0, e} : mkv(e); } ++f.pc; break; }
            case OCopy: f.s[d.dst] = V(d.a); ++f.pc; break;
            case OSelect: {
                Val c = V(d.a);
                if (isConc(c)) f.s[d.dst] = (cval(c) & 1) ? V(d.b) : V(d.c);
                else { Val x = V(d.b), y = V(d.c); auto it = S.known.find(c.e); if (it != S.known.end()) f.s[d.dst] = it->second ? x : y; else f.s[d.dst] = mkv(M.ite(c.e, E(x, d.w), E(y, d.w))); }
                ++f.pc; break;
            }
            case OBr: takeEdge(f, d.x); break;
            case OCondBr: { Val c = V(d.a); bool t = c.e ? branch(c.e) : (c.c & 1); takeEdge(cur->fr.back(), t ? d.b : d.c); break; }
            case OSwitch: {
                auto* si = (SwitchInfo*)d.p; Val c = V(d.a);
                int e = si->def;
                if (!c.e) { auto it = si->map.find(c.c); if (it != si->map.end()) e = it->second; }
                else for (auto& [v, t] : si->cases) if (branch(M.cmp(K::Eq, c.e, M.cst(v, si->w)))) { e = t; break; }
                takeEdge(cur->fr.back(), e); break;
            }
            case OCall: case OInvoke: handleCall(d); break;
            case ORet: doReturn(d); break;
            case OUnreachable: violation("unreachable code reached in " + repoSite()); endPath(1);
            case OResume: { uint64_t o = conc(V(d.a)); Exc* x = excOf(o); if (!x) incomplete("resume of unknown exception"); unwind(x); break; }
            case OLandingPad: f.s[d.dst] = C(cur->lpObj); f.s[d.dst + 1] = C(cur->lpSel); ++f.pc; break;
            case OAlloca: { uint64_t n = conc(V(d.a)); uint64_t a = stackAlloc(d.x * n, d.w); cur->fr.back().s[d.dst] = C(a); ++f.pc; break; }
            case OCmpXchg: {
                uint64_t p = conc(V(d.a)); gAtomicNow = true; Val o = load(p, d.w);
                hbAcquire(p); hbRelease(p);
                Expr* eq = M.cmp(K::Eq, E(o, d.w), E(V(d.b), d.w));
                if (eq->k == K::Const) { if (eq->cv) store(p, V(d.c), d.w); }
                else store(p, mkv(M.ite(eq, E(V(d.c), d.w), E(o, d.w))), d.w);
                gAtomicNow = false; f.s[d.dst] = o; f.s[d.dst + 1] = mkv(eq); ++f.pc; break;
            }
            case ORMW: {
                uint64_t p = conc(V(d.a)); gAtomicNow = true; Val o = load(p, d.w); hbAcquire(p); hbRelease(p); Expr* x = E(o, d.w); Expr* y = E(V(d.b), d.w); Expr* r;
                switch (d.k) {
                    case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = M.bin(K::Add, x, y); break; case AtomicRMWInst::Sub: r = M.bin(K::Sub, x, y); break;
                    case AtomicRMWInst::And: r = M.bin(K::And, x, y); break; case AtomicRMWInst::Or: r = M.bin(K::Or, x, y); break; case AtomicRMWInst::Xor: r = M.bin(K::Xor, x, y); break;
                    case AtomicRMWInst::Nand: r = M.bin(K::Xor, M.bin(K::And, x, y), M.cst(maskw(d.w), d.w)); break;
                    case AtomicRMWInst::Max: r = M.ite(M.cmp(K::Slt, x, y), y, x); break; case AtomicRMWInst::Min: r = M.ite(M.cmp(K::Slt, x, y), x, y); break;
                    case AtomicRMWInst::UMax: r = M.ite(M.cmp(K::Ult, x, y), y, x); break; case AtomicRMWInst::UMin: r = M.ite(M.cmp(K::Ult, x, y), x, y); break;
                    default: incomplete("atomicrmw");
                }
                store(p, mkv(r), d.w); gAtomicNow = false; f.s[d.dst] = o; ++f.pc; break;
            }
            case OFToSI: f.s[d.dst] = mkv(M.fp(K::FToSI, d.w, EF(V(d.a), d.x, d.w), nullptr, d.x)); ++f.pc; break;
            case OFToUI: f.s[d.dst] = mkv(M.fp(K::FToUI, d.w, EF(V(d.a), d.x, d.w), nullptr, d.x)); ++f.pc; break;
            case OSIToF: f.s[d.dst] = mkv(M.fp(K::SIToF, d.w, EF(V(d.a), d.x, d.w), nullptr, d.x)); ++f.pc; break;
            case OUIToF: f.s[d.dst] = mkv(M.fp(K::UIToF, d.w, EF(V(d.a), d.x, d.w), nullptr, d.x)); ++f.pc; break;
            case OFToF: f.s[d.dst] = mkv(M.fp(K::FToF, d.w, EF(V(d.a), d.x, d.w), nullptr, d.x)); ++f.pc; break;
            case OExtractElt: { uint64_t i = conc(V(d.b)); if (i >= d.x) i = 0; int o = leafOp(d.a, i); f.s[d.dst] = V(o); ++f.pc; break; }
            case OInsertElt: { uint64_t i = conc(V(d.c)); for (uint64_t k = 0; k < d.x; ++k) { int o = leafOp(d.a, k); f.s[d.dst + k] = k == i ? V(d.b) : V(o); } ++f.pc; break; }
            case ONop:
                if (d.k == 1) {
                    auto* st = (TypeInfo*)d.p; auto* dt = (TypeInfo*)d.x; Expr* e = nullptr;
                    for (size_t i = 0; i < st->leaves.size(); ++i) { int o = leafOp(d.a, i); Expr* x = E(V(o), st->leaves[i].w); e = e ? M.concat(x, e) : x; }
                    unsigned at = 0;
                    for (size_t i = 0; i < dt->leaves.size(); ++i) { f.s[d.dst + i] = mkv(M.extract(e, at, dt->leaves[i].w)); at += dt->leaves[i].w; }
                }
                ++f.pc; break;
            default: { std::string s; raw_string_ostream os(s); d.I->print(os); incomplete("unsupported instruction " + s.substr(0, 120)); }
        }
#undef V
    }
}
