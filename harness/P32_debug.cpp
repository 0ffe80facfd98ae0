//@ property P32
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ flags -DFAIRMQ_DEBUG_MODE
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds two users of one session with a segment each, or both in one: histories of 4 (quick) or 5 (thorough) operations - create with one of three sizes, send, receive, copy, rebuild, destroy, reset - over two messages per user; sessions without messages, without users
//@ variant same -DSEGS=1 -DSIMPLE=0 +quick=60 +thorough=500
//@ variant segments -DSEGS=2 -DSIMPLE=0 +quick=60 +thorough=500
//@ variant mixed -DSEGS=2 -DSIMPLE=1 +quick=60 +thorough=500
//@ require listed empty nosession received reset busy
#include <fstream>
#include <harness/shm.h>
#include <fairmq/shmem/Monitor.h>
#include <cstring>
#include <deque>
#include <unistd.h>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const unsigned OPS = 5;
#else
const unsigned OPS = 4;
#endif
struct Body { size_t size; uint16_t seg; uint8_t id; uint64_t from, to; };
struct Slot { MessagePtr m; std::shared_ptr<Body> body; };
extern "C" pid_t getpid() noexcept { return 4242; }
static Slot* S; static shm::Seg* seg[2]; static shmem::TransportFactory* F[2]; static SocketPtr out[2], in[2]; static std::deque<std::shared_ptr<Body>>* Q; static uint8_t serial = 0; static vector<std::weak_ptr<Body>>* bodies;
static uint64_t now() { return std::chrono::system_clock::now().time_since_epoch().count(); }
static void made(Slot& s, int u, size_t n, uint64_t t) { s.body.reset(); s.body = std::make_shared<Body>(Body{n, (uint16_t)(SEGS > 1 ? u : 0), ++serial, t, now()}); memset(s.m->GetData(), serial, n); bodies->push_back(s.body); }
static void verify()
{
    auto all = shmem::Monitor::GetDebugInfo(shmem::ShmId{"00001234"}); size_t total = 0, live = 0; for (auto& e : all) total += e.second.size();
    for (auto& w : *bodies) if (auto b = w.lock()) {
        ++live; bool found = false;
        for (auto& e : all[b->seg]) {
            auto& sg = *seg[SEGS > 1 ? b->seg : 0]; char* p = static_cast<char*>(sg.rb ? sg.rb->get_address_from_handle(e.fOffset) : sg.ss->get_address_from_handle(e.fOffset)); CHECK(sg.inside(p, b->size), "a listed offset is inside its segment");
            if (*p == (char)b->id && e.fSize == b->size) { CHECK(!found, "a buffer is listed once"); found = true; CHECK(e.fPid == getpid(), "a buffer is listed with the process that created it"); CHECK(e.fCreationTime >= b->from && e.fCreationTime <= b->to, "a buffer is listed with the time it was created"); }
        }
        CHECK(found, "every live buffer is listed with its segment, place and size");
    }
    CHECK(total == live, "nothing but the live buffers is listed"); if (live) REACH("listed"); else REACH("empty");
}
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); rt_clock_step(0);
    S = new Slot[4]; Q = new std::deque<std::shared_ptr<Body>>[2]; bodies = new vector<std::weak_ptr<Body>>;
    if (sym_choice("no session", 2)) { CHECK(shmem::Monitor::GetDebugInfo(shmem::ShmId{"00001234"}).empty() && shmem::Monitor::GetDebugInfo(shmem::SessionId{"s"}).empty(), "a session that does not exist has no buffers"); if (sym_choice("other objects", 2)) { { boost::interprocess::managed_shared_memory x(boost::interprocess::create_only, "fmq_00001234_mng", 65536); CHECK(shmem::Monitor::GetDebugInfo(shmem::ShmId{"00001234"}).empty(), "a session without debug information lists no buffers"); } boost::interprocess::shared_memory_object::remove("fmq_00001234_mng"); } REACH("nosession"); sym_end(); }
    auto &o0 = shm::options(16384, false, 0), &o1 = shm::options(16384, SIMPLE, SEGS - 1);
    {
        shmem::TransportFactory f0("d0", &o0), f1("d1", &o1); F[0] = &f0; F[1] = &f1; seg[0] = new shm::Seg(false, 0); seg[1] = SEGS > 1 ? new shm::Seg(SIMPLE, 1) : seg[0];
        for (int u = 0; u < 2; ++u) {
            std::string a = u ? "tcp://127.0.0.1:5001" : "tcp://127.0.0.1:5000";
            out[u] = F[u]->CreateSocket("push", "out"); in[1 - u] = F[1 - u]->CreateSocket("pull", "in"); out[u]->SetSndBufSize(9); in[1 - u]->SetRcvBufSize(9); in[1 - u]->Bind(a); out[u]->Connect(a);
        }
        verify();
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned op = i == 0 ? 0 : sym_choice("operation", 7), u = i == 0 ? 0 : sym_choice("user", 2), w = op == 6 ? 0 : i == 0 ? 0 : sym_choice("message", 2); Slot &s = S[2 * u + w], &t = S[2 * u + 1 - w]; const size_t N[] = {1, 40, 300};
            uint64_t t0 = now(); rt_advance(1000);
            switch (op) {
            case 0: { if (s.m) sym_end(); size_t n = N[i ? (i + w) % 3 : sym_choice("size", 3)]; s.m = F[u]->CreateMessage(n); made(s, u, n, t0); break; }
            case 1: if (!s.m) sym_end(); CHECK(out[u]->Send(s.m, 0) >= 0, "a message is sent"); Q[u].push_back(s.body); s.m.reset(); s.body.reset(); break;
            case 2: if (Q[1 - u].empty()) sym_end(); if (!s.m) s.m = F[u]->CreateMessage(); CHECK(in[u]->Receive(s.m, 0) >= 0, "a message is received"); s.body = Q[1 - u].front(); Q[1 - u].pop_front(); REACH("received"); break;
            case 3: if (!s.m) sym_end(); if (!t.m) t.m = F[u]->CreateMessage(); t.m->Copy(*s.m); t.body = s.body; break;
            case 4: { if (!s.m) sym_end(); size_t n = N[i % 2]; s.m->Rebuild(n); made(s, u, n, t0); break; }
            case 5: if (!s.m) sym_end(); s.m.reset(); s.body.reset(); break;
            case 6: { bool held = S[2 * u].m || S[2 * u + 1].m, bad = false; try { F[u]->Reset(); } catch (MessageError&) { bad = true; } CHECK(bad == held, "resetting reports messages that still exist, and nothing else"); if (bad) REACH("busy"); else REACH("reset"); break; }
            }
            verify();
        }
        for (int i = 0; i < 4; ++i) { S[i].m.reset(); S[i].body.reset(); }
        for (int u = 0; u < 2; ++u) while (!Q[u].empty()) { MessagePtr m = F[1 - u]->CreateMessage(); CHECK(in[1 - u]->Receive(m, 0) >= 0, "a message is received"); m.reset(); Q[u].pop_front(); }
        verify(); for (int u = 0; u < 2; ++u) { bool bad = false; try { F[u]->Reset(); } catch (MessageError&) { bad = true; } CHECK(!bad, "resetting reports messages that still exist, and nothing else"); out[u].reset(); in[u].reset(); }
        if (SEGS > 1) delete seg[1]; delete seg[0];
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects");
}
