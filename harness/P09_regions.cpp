//@ property P09
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds histories of up to 3 (quick, shmem; with and without an initial subscription) or 4 operations - create with automatic or chosen id, custom flags and size, destroy, look up, subscribe, unsubscribe, join of a further user with a segment of its own, pause - over four regions of two users of a session (shmem) or one context (zmq); all interleavings with at most 1 (quick) or 2 (thorough) preemptions of two threads creating and destroying regions with one that looks regions up or releases messages
//@ variant shm -DWHAT=0 +quick=60 +thorough=600
//@ variant zmq -DWHAT=1 +quick=60 +thorough=400
//@ variant shmthreads -DWHAT=2 +quick=100 +thorough=400
//@ variant zmqthreads -DWHAT=3 +quick=40 +thorough=300
//@ require done event@shm,zmq destroyed@shm,zmq collision@shm refused@shm unsubscribed@shm,zmq late@shm gone@shmthreads
#include <fstream>
#include <harness/shm.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <cstring>
#include <map>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS = 4;
#else
const bool DEEP = false; const unsigned OPS = WHAT == 0 ? 3 : 4;
#endif
const int N = 4;
struct Reg { UnmanagedRegionPtr r; int id = -1; size_t size = 0; int64_t flags = 0; bool live = false, used = false; int created = 0, destroyed = 0, before = 0; void* data = nullptr; };
static Reg* R; static int nR = 0, segs[3], localOnly = 0; static bool subscribed = false, everUnsubscribed = false;
static void onEvent(const RegionInfo& i)
{
    CHECK(subscribed, "no event is reported without a subscription"); REACH("event");
    if (i.managed) { if (WHAT == 1) { CHECK(i.event == RegionEvent::local_only, "a managed zmq region is local"); ++localOnly; return; } CHECK(i.event == RegionEvent::created && i.id < 3 && i.ptr && i.size > 0, "an event describes its segment"); CHECK(++segs[i.id] == 1, "a segment is reported once"); return; }
    Reg* r = nullptr; for (int k = 0; k < nR; ++k) if (R[k].id == (int)i.id) r = &R[k];
    CHECK(r != nullptr, "an event describes a region of the session"); CHECK(i.flags == r->flags, "an event carries the flags of its region");
    if (i.event == RegionEvent::created) { CHECK(++r->created == 1 && !r->destroyed, "the creation of a region is reported once, before its destruction"); CHECK(i.size == r->size && (WHAT != 1 || i.ptr == r->data), "an event carries address and size of its region"); }
    else { CHECK(i.event == RegionEvent::destroyed && ++r->destroyed == 1 && r->created == 1, "the destruction of a region is reported once, after its creation"); CHECK(!r->live, "a region is not reported destroyed while it exists"); REACH("destroyed"); }
}
static void infos(const vector<RegionInfo>& v, int nsegs)
{
    std::map<uint64_t, int> seen; int managed = 0;
    for (auto& i : v) {
        if (i.managed) { ++managed; continue; }
        CHECK(++seen[i.id] == 1, "a region is listed once"); Reg* r = nullptr; for (int k = 0; k < nR; ++k) if (R[k].id == (int)i.id) r = &R[k];
        CHECK(r != nullptr, "a listed region is one of the session"); if (WHAT == 1) CHECK(r->live, "a destroyed region is not listed");
        CHECK((i.event == RegionEvent::created) == r->live, "the list tells which regions exist"); CHECK(i.flags == r->flags, "the list carries the flags of a region");
        if (r->live) { CHECK(i.size == r->size && i.ptr && *(char*)i.ptr == (char)r->id, "the list carries address and size of a region"); }
    }
    for (int k = 0; k < nR; ++k) if (R[k].live) CHECK(seen[R[k].id] == 1, "every existing region is listed");
    if (WHAT != 1) CHECK(managed == nsegs, "every segment is listed once");
}
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); R = new Reg[N];
#if WHAT == 0 || WHAT == 1
    {
#if WHAT == 0
        auto &o0 = shm::options(16384, false, 0), &o1 = shm::options(16384, false, 1), &o2 = shm::options(16384, false, 2); int nsegs = 2;
        shmem::TransportFactory f0("d0", &o0), f1("d1", &o1); TransportFactory *F[2] = {&f0, &f1}; std::unique_ptr<shmem::TransportFactory> f2;
#else
        zmq::TransportFactory f0("d0"); TransportFactory *F[2] = {&f0, &f0}; int nsegs = 0;
#endif
        TransportFactory& w = *F[1];    // the watching user
        if (sym_choice("subscribe first", 2)) { subscribed = true; w.SubscribeToRegionEvents(onEvent); }
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned op = sym_choice("operation", 6);
            switch (op) {
            case 0: case 1: {
                if (nR >= N) sym_end();
                unsigned u = WHAT == 0 ? sym_choice("user", 2) : 0; RegionConfig c; Reg& r = R[nR]; r.size = 4096; r.flags = 100 + nR; c.userFlags = r.flags; c.rcSegmentSize = 0;
                if (op == 1) { if (WHAT == 1) sym_end(); c.id = sym_choice("id", 2) ? 1024 : 7; }
                bool taken = false; for (int k = 0; k < nR; ++k) if (op == 1 && R[k].id == c.id.value()) taken = true;
                if (taken) {
                    bool thrown = false; try { auto x = F[u]->CreateUnmanagedRegion(8192, RegionCallback(nullptr), c); } catch (const TransportError&) { thrown = true; } CHECK(thrown, "an id of the session is not given to a second region of another size"); REACH("refused"); break;
                }
                r.r = F[u]->CreateUnmanagedRegion(r.size, (DEEP ? sym_choice("callback", 2) : u) ? RegionCallback([](void*, size_t, void*) {}) : RegionCallback(nullptr), c); ++nR;
                r.id = r.r->GetId(); r.live = true; r.data = r.r->GetData(); CHECK(r.r->GetSize() == r.size && r.data, "a region has the size asked for"); if (op == 1) CHECK(r.id == c.id.value(), "a region has the id asked for");
                for (int k = 0; k < nR - 1; ++k) { CHECK(R[k].id != r.id, "region ids are unique"); if (R[k].id == 1024 && op == 0) REACH("collision"); }
                memset(r.data, r.id, r.size); break;
            }
            case 2: { if (!nR) sym_end(); unsigned k = sym_choice("region", nR); if (!R[k].live) sym_end(); R[k].live = false; R[k].r.reset(); break; }
            case 3: subscribed = true; w.SubscribeToRegionEvents(onEvent); CHECK(w.SubscribedToRegionEvents(), "a subscription is reported"); break;
            case 4: if (sym_choice("pause or look", 2)) std::this_thread::sleep_for(std::chrono::milliseconds(60)); else infos(w.GetRegionInfo(), nsegs); break;
            case 5:
#if WHAT == 0
                if (sym_choice("join", 2)) { if (f2) sym_end(); f2 = std::make_unique<shmem::TransportFactory>("d2", &o2); ++nsegs; REACH("late"); break; }
#endif
                if (!subscribed) sym_end(); w.UnsubscribeFromRegionEvents(); subscribed = false; everUnsubscribed = true; CHECK(!w.SubscribedToRegionEvents(), "a subscription is reported"); REACH("unsubscribed"); break;
            }
            for (int k = 0; k < nR; ++k) if (R[k].live) CHECK(*((char*)R[k].r->GetData() + R[k].size - 1) == (char)R[k].id && R[k].r->GetSize() == R[k].size, "an existing region keeps its content");
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(120));
        if (subscribed) {
            for (int k = 0; k < nR; ++k) { if (R[k].live) CHECK(R[k].created == 1 && !R[k].destroyed, "the creation of an existing region is reported"); else CHECK(R[k].destroyed == R[k].created, "the destruction of a region is reported when its creation was"); if (WHAT == 1) CHECK(R[k].created == 1, "every creation is reported"); }
            for (int s = 0; s < nsegs; ++s) CHECK(segs[s] == 1, "every segment is reported"); if (WHAT == 1) CHECK(localOnly == 1, "the local region is reported");
        }
        infos(w.GetRegionInfo(), nsegs);
        for (int k = 0; k < nR; ++k) { R[k].live = false; R[k].r.reset(); }
        std::this_thread::sleep_for(std::chrono::milliseconds(120));
        if (subscribed) for (int k = 0; k < nR; ++k) CHECK(R[k].destroyed == R[k].created, "the destruction of a region is reported when its creation was");
        if (subscribed) { w.UnsubscribeFromRegionEvents(); subscribed = false; }
    }
    if (WHAT == 0) CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects");
#elif WHAT == 2
    {
        auto &o0 = shm::options(16384, false, 0), &o1 = shm::options(16384, false, 1); shmem::TransportFactory f0("d0", &o0), f1("d1", &o1); RegionConfig c; c.rcSegmentSize = 0;
        auto r = f0.CreateUnmanagedRegion(4096, RegionCallback(nullptr), c); *(char*)r->GetData() = 'x';
        auto out = f0.CreateSocket("push", "out"), in = f1.CreateSocket("pull", "in"); CHECK(in->Bind("tcp://127.0.0.1:5000") && out->Connect("tcp://127.0.0.1:5000"), "sockets bind and connect");
        auto m = f0.CreateMessage(r, r->GetData(), 10, nullptr); CHECK(out->Send(m) == 10, "sending reports the size of the transfer"); m.reset();
        unsigned what = sym_choice("meanwhile", 4); bool events = DEEP ? sym_choice("events", 2) : what == 1; if (events) f1.SubscribeToRegionEvents([](RegionInfo) {});
        rt_order(true); rt_preempt(DEEP ? 2 : 1);
        // user 1 receives the region message in one thread ...
        std::thread t([&] { auto x = f1.CreateMessage(); CHECK(in->Receive(x) == 10, "receiving reports the size of the transfer"); auto d = (char*)x->GetData(); if (what != 1) CHECK(d && *d == 'x', "a region message refers to its block"); else if (!d) REACH("gone"); if (what == 3) f1.GetRegionInfo(); });
        // ... while another one creates and destroys a region, or the owner destroys the region
        if (what == 0) { auto x = f1.CreateUnmanagedRegion(4096, DEEP ? RegionCallback([](void*, size_t, void*) {}) : RegionCallback(nullptr), c); x.reset(); } else if (what == 1) r.reset(); else if (what == 2) { auto i = f1.GetRegionInfo(); CHECK(i.size() == 3, "every region and segment is listed"); } else { auto x = f1.CreateUnmanagedRegion(4096, RegionCallback(nullptr), c); CHECK(x->GetId() != r->GetId(), "region ids are unique"); }
        t.join(); rt_order(false); rt_preempt(0); if (events) f1.UnsubscribeFromRegionEvents();
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects");
#else
    {
        zmq::TransportFactory f("d"); int created[8] = {}, destroyed[8] = {}; bool events = sym_choice("events", 2);
        if (events) f.SubscribeToRegionEvents([&](RegionInfo i) { if (i.managed) return; CHECK(i.id < 8, "region ids are unique"); if (i.event == RegionEvent::created) ++created[i.id]; else { ++destroyed[i.id]; CHECK(created[i.id] >= destroyed[i.id], "the destruction of a region is reported once, after its creation"); } });
        rt_order(true); rt_preempt(DEEP ? 3 : 2); int id[3]; UnmanagedRegionPtr a, b;
        std::thread t([&] { a = f.CreateUnmanagedRegion(64, RegionCallback(nullptr), RegionConfig()); id[0] = a->GetId(); });
        b = f.CreateUnmanagedRegion(64, RegionCallback(nullptr), RegionConfig()); id[1] = b->GetId(); if (sym_choice("destroy", 2)) b.reset(); t.join();
        CHECK(id[0] != id[1], "region ids are unique"); auto v = f.GetRegionInfo(); CHECK(v.size() == (b ? 2 : 1), "the list tells which regions exist"); bool h = b != nullptr; b.reset(); a.reset();
        rt_order(false); rt_preempt(0); std::this_thread::sleep_for(std::chrono::milliseconds(10)); if (events) for (int k : {id[0], id[1]}) CHECK(created[k] == 1 && destroyed[k] == 1, "every creation and destruction is reported once"); (void)h;
        if (events) f.UnsubscribeFromRegionEvents();
    }
#endif
    REACH("done");
}
