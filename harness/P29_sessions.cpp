//@ property P29
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds hist: histories of up to 3 (quick) or 4 (thorough) operations by three users - join (8 combinations of 2 segment ids, both allocation algorithms or an unknown one, sizes including too small and too large ones, locking that fails; all 44 combinations for 3 operations in the thorough tier; with and without cleanup), leave, and while nobody is joined cleanup, full cleanup and both resets -, followed by everybody leaving and a fresh session; names: session names of any of 4 lengths up to 70000; regions: up to 2 (quick) or 3 (thorough) creations of a region, each of 5 sizes and 4 reference count segment sizes; threads: all interleavings with at most 1 (quick) or 2 (thorough) preemptions of two users joining and leaving, with and without a third user that stays; lastleave: the same for one user leaving while another joins
//@ assume shared memory objects are modelled (shm_open, ftruncate, mmap, a size limit beyond which ftruncate reports ENOSPC); every user runs in one process
//@ variant hist -DWHAT=0 +quick=160 +thorough=800
//@ variant full -DWHAT=0 -DFULL +thorough=850 thorough
//@ variant names -DWHAT=1 +quick=30 +thorough=60
//@ variant regions -DWHAT=2 +quick=40 +thorough=250
//@ variant threads -DWHAT=3 +quick=60 +thorough=400
//@ variant lastleave -DWHAT=4 +quick=60 +thorough=200
//@ require done joined@hist,full refused@hist,full shared@hist,full left@hist,full kept@hist,full gone@hist,full reset@hist,full
#include <fstream>
#include <harness/shm.h>
#include <fairmq/shmem/Monitor.h>
#include <cstring>
#include <map>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t; using std::string;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS =
#ifdef FULL
    3;
#else
    4;
#endif

#else
const bool DEEP = false; const unsigned OPS = 3;
#endif
const shmem::ShmId ID{"00001234"}; static const char* SEG[3] = {"fmq_00001234_m_0", "fmq_00001234_m_1", "fmq_00001234_m_2"};
struct Info { bool there = false, simple = false; size_t size = 0, used = 0; };
static Info I[2]; static bool mng = false;
static size_t freeOf(int s) { return shm::Seg(I[s].simple, s).free(); }
// the session consists of exactly the objects it should, and the monitor sees them
static void look()
{
    CHECK(rt_shm_exists("fmq_00001234_mng") == mng, mng ? "a session exists as long as it is used or kept" : "nothing is left of a session after its last user");
    int n = mng;
    for (int s = 0; s < 2; ++s) {
        n += I[s].there;
        CHECK(rt_shm_exists(SEG[s]) == I[s].there, I[s].there ? "a segment stays as long as its session" : "a segment that could not be created or whose session is over leaves no object behind");
        CHECK(shmem::Monitor::SegmentIsPresent(ID, s) == I[s].there, "the monitor tells which segments are present");
        size_t f = 0; bool ok = true; try { f = shmem::Monitor::GetFreeMemory(ID, s); } catch (const shmem::Monitor::MonitorError&) { ok = false; }
        CHECK(ok == I[s].there, "the monitor reports the free memory of existing segments only");
        if (ok) CHECK(f == freeOf(s) && f <= I[s].size - I[s].used && shm::Seg(I[s].simple, s).size() == I[s].size && shm::Seg(I[s].simple, s).sane(), "a segment keeps the size and algorithm it has been created with");
    }
    CHECK(!shmem::Monitor::SegmentIsPresent(ID, 2) && !shmem::Monitor::RegionIsPresent(ID, 0), "the monitor does not report what does not exist");
    CHECK(rt_shm_count("fmq_") == n, "a session has no other objects than its own");
}
struct User { std::unique_ptr<shmem::TransportFactory> f; MessagePtr m; int seg = 0; bool no = false; };
static User U[3]; static int joined() { int n = 0; for (auto& u : U) n += !!u.f; return n; }
static void forget() { mng = false; I[0] = I[1] = Info(); }
static void canaries() { for (int k = 0; k < 3; ++k) if (U[k].f) { CHECK(U[k].m->GetSize() == 1000, "messages survive what other users do"); for (int i = 0; i < 1000; i += 111) CHECK(((char*)U[k].m->GetData())[i] == (char)(k + i), "messages survive what other users do"); } }
static bool join(int k, int seg, const char* alg, size_t size, bool no, bool lock)
{
    auto& o = shm::options(size, false, seg); o.SetProperty<string>("shm-allocation", alg); o.SetProperty<bool>("shm-no-cleanup", no); if (lock) o.SetProperty<bool>("shm-mlock-segment-on-creation", true);
    bool ok = true; rt_mlock_fails(lock); try { U[k].f = std::make_unique<shmem::TransportFactory>("d" + std::to_string(k), &o); } catch (const std::exception&) { ok = false; } rt_mlock_fails(false);
    U[k].seg = seg; U[k].no = no; return ok;
}
static void leave(int k)
{
    std::thread([&] { U[k].m.reset(); U[k].f.reset(); }).join();
    I[U[k].seg].used -= 1000;
    if (!joined()) { if (U[k].no) REACH("kept"); else { forget(); REACH("gone"); } }
    REACH("left");
}
#if WHAT == 3 || WHAT == 4
static void user(int k, int seg, int& state)
{
    auto& o = shm::options(16384, false, seg); auto f = std::make_unique<shmem::TransportFactory>("d" + std::to_string(k), &o);
    state = 1; { auto m = f->CreateMessage(500); memset(m->GetData(), k, 500); if (WHAT == 3) CHECK(shmem::Monitor::SegmentIsPresent(ID, seg), "the segment of a user is present"); CHECK(((char*)m->GetData())[499] == (char)k, "messages survive what other users do"); }
    if (WHAT == 3) { f.reset(); state = 2; } else U[k].f = std::move(f);
}
#endif
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); rt_shm_limit(1 << 23);
#if WHAT == 0
    const char* algs[3] = {"rbtree_best_fit", "simple_seq_fit", "fit"};
    for (unsigned i = 0; i < OPS; ++i) {
        unsigned k = joined(), what = sym_choice("operation", k ? (k < 3 ? 2 : 1) : (mng ? 5 : 1));
        if (!k) what = what == 0 ? 1 : what + 1;    // nobody: join, cleanup, full cleanup, reset, reset with configuration
        if (what == 0) { unsigned who = 0; if (k > 1) who = sym_choice("who leaves", k); int j = -1; for (unsigned w = 0; w <= who; ++w) do ++j; while (!U[j].f); leave(j); }
        else if (what == 1) {
            int j = 0; while (U[j].f) ++j;
#ifdef FULL
            int seg = sym_choice("segment", 2), alg = sym_choice("algorithm", 3), kind = alg == 2 ? 0 : sym_choice("size", 5);
#else
            static const int SET[8][3] = {{0, 0, 0}, {0, 1, 1}, {1, 1, 0}, {1, 0, 0}, {0, 2, 0}, {1, 0, 2}, {0, 1, 3}, {1, 1, 4}}; unsigned set = sym_choice("settings", 8);   // segment, algorithm, size
            int seg = SET[set][0], alg = SET[set][1], kind = SET[set][2];
#endif
            bool no = sym_choice("no cleanup", 2);
            size_t size = kind == 1 ? 24000 : kind == 2 ? 10 : kind == 3 ? 1 << 24 : 16384; bool lock = kind == 4, had = I[seg].there;
            bool ok = join(j, seg, algs[alg], size, no, lock);
            bool expect = alg < 2 && kind != 2 && (had || kind < 2);
            CHECK(ok == expect, expect ? "a user can join a session with valid settings" : "a user with settings that cannot be met is refused");
            if (ok) {
                mng = true; if (had) REACH("shared"); else { I[seg].there = true; I[seg].simple = alg == 1; I[seg].size = size; }
                U[j].m = U[j].f->CreateMessage(1000); CHECK(shm::Seg(I[seg].simple, seg).inside(U[j].m->GetData(), 1000), "a user gets the segment that exists"); I[seg].used += 1000;
                for (int x = 0; x < 1000; x += 111) ((char*)U[j].m->GetData())[x] = (char)(j + x);
                REACH("joined");
            } else {
                REACH("refused");
                if (alg == 2) ; else if (!joined() && !no) forget();
                else { mng = true; if (lock) { I[seg].there = rt_shm_exists(SEG[seg]); I[seg].simple = alg == 1; I[seg].size = size; } }
            }
        } else if (what == 2 || what == 3) { auto r = what == 2 ? shmem::Monitor::Cleanup(ID, sym_choice("verbose", 2)) : shmem::Monitor::CleanupFull(ID, false); int n = 0; for (auto& e : r) n += e.second; CHECK(n == 1 + I[0].there + I[1].there, "a cleanup reports what it has removed"); forget(); }
        else {
            if (what == 4) shmem::Monitor::ResetContent(ID, false); else { vector<shmem::SegmentConfig> c; for (int s = 0; s < 2; ++s) if (I[s].there) c.push_back({uint16_t(s), I[s].size, I[s].simple ? "simple_seq_fit" : "rbtree_best_fit"}); shmem::Monitor::ResetContent(ID, c, {}, false); }
            for (int s = 0; s < 2; ++s) if (I[s].there) { I[s].used = 0; CHECK(freeOf(s) > I[s].size - 1000, "a reset segment is empty"); } REACH("reset");
        }
        look(); canaries();
    }
    for (int k = 0; k < 3; ++k) if (U[k].f) { leave(k); look(); canaries(); }
    shmem::Monitor::Cleanup(ID, false); forget(); look();
    CHECK(join(0, 0, "simple_seq_fit", 20000, false, false), "a new session can be started after the previous one is over"); mng = true; I[0].there = I[0].simple = true; I[0].size = 20000; U[0].m = U[0].f->CreateMessage(0); look(); leave(0); I[0] = Info(); look();
#elif WHAT == 1
    {
        auto other = sym_choice("another user", 2); if (other) { CHECK(join(0, 0, "rbtree_best_fit", 16384, false, false), "a user can join a session with valid settings"); mng = I[0].there = true; I[0].size = 16384; }
        const int len[4] = {0, 1, 300, 70000}; unsigned l = sym_choice("length of the session name", 4);
        auto& o = shm::options(16384, false, 0); o.SetProperty<string>("session", string(len[l], 'x')); bool ok = true;
        try { U[1].f = std::make_unique<shmem::TransportFactory>("d1", &o); } catch (const std::exception&) { ok = false; }
        CHECK(ok || (l == 3 && !other), "a user can join a session with valid settings");
        if (ok) { mng = I[0].there = true; I[0].size = 16384; look(); U[1].f.reset(); if (!other) forget(); }
        look(); if (other) { U[0].f.reset(); forget(); look(); }
    }
#elif WHAT == 2
    {
        CHECK(join(0, 0, "rbtree_best_fit", 16384, false, false), "a user can join a session with valid settings");
        for (int i = 0; i < (DEEP ? 3 : 2); ++i) {
            const size_t sizes[5] = {1000, 2000, 0, 1 << 24, ~(size_t)0 / 2}; const size_t rcs[4] = {10000, 0, 10, 1 << 24};
            unsigned s = sym_choice("size", 5), r = sym_choice("reference counts", 4); bool file = false;
            RegionConfig cfg; cfg.id = 7; cfg.rcSegmentSize = rcs[r]; cfg.lock = i == 0 && sym_choice("lock fails", 2); (void)file;
            bool ok = true; UnmanagedRegionPtr p; rt_mlock_fails(cfg.lock);
            try { p = U[0].f->CreateUnmanagedRegion(sizes[s], [](void*, size_t, void*) {}, cfg); } catch (const std::exception&) { ok = false; } rt_mlock_fails(false);
            bool expect = s < 2 && r < 2 && !cfg.lock;
            CHECK(ok == expect, expect ? "a region can be created after a failed attempt" : "a region that cannot be set up is refused");
            if (ok) { CHECK(p->GetSize() == sizes[s] && shmem::Monitor::RegionIsPresent(ID, 7), "a region has the requested size"); memset(p->GetData(), 1, sizes[s]); p.reset(); CHECK(!shmem::Monitor::RegionIsPresent(ID, 7), "a destroyed region is not present"); CHECK(rt_shm_count("fmq_") == 2, "a destroyed region leaves no objects behind"); break; }
            CHECK(rt_shm_count("fmq_") == 2 && !shmem::Monitor::RegionIsPresent(ID, 7), "a region that could not be created leaves no objects behind");
        }
        U[0].f.reset(); CHECK(rt_shm_count("fmq_") == 0, "nothing is left of a session after its last user");
    }
#elif WHAT == 3
    {
        int other = sym_choice("another user", 2), sb = sym_choice("segment of the second", 2), st[2] = {0, 0};
        if (other) { CHECK(join(2, 0, "rbtree_best_fit", 16384, false, false), "a user can join a session with valid settings"); U[2].m = U[2].f->CreateMessage(1000); for (int x = 0; x < 1000; x += 111) ((char*)U[2].m->GetData())[x] = (char)(2 + x); }
        if (!other) rt_preempt(0); else rt_preempt(DEEP ? 2 : 1);
        // without a third user only joining is concurrent
        std::thread a([&] { user(0, 0, st[0]); }), b([&] { user(1, sb, st[1]); }); a.join(); b.join(); rt_preempt(0);
        CHECK(st[0] == 2 && st[1] == 2, "both users joined and left");
        if (other) { mng = I[0].there = true; I[0].size = 16384; I[0].used = 1000; if (sb) { I[1].there = true; I[1].size = 16384; } look(); canaries(); std::thread([&] { U[2].m.reset(); U[2].f.reset(); }).join(); forget(); }
        look();
    }
#else
    {
        CHECK(join(0, 0, "rbtree_best_fit", 16384, false, false), "a user can join a session with valid settings"); int st = 0;
        rt_preempt(DEEP ? 2 : 1);
        std::thread a([&] { U[0].f.reset(); }), b([&] { user(1, 0, st); }); a.join(); b.join(); rt_preempt(0);
        CHECK(st == 1, "the second user joined");
        CHECK(rt_shm_exists("fmq_00001234_mng") && rt_shm_exists(SEG[0]), "the session of a user that joins while the last one leaves exists");
        U[1].f.reset(); forget(); look();
    }
#endif
    REACH("done"); sym_end();
}
