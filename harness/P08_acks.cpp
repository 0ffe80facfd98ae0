//@ property P08
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds one region with two or three blocks in use, one or several acknowledgement bunches, reference counts in the region's own or the managed segment, callback for single or several blocks; histories of up to 4 (quick) or 6 (thorough) operations - create, send one message or two parts, receive, forward back, copy, rebuild, destroy - by the owner and another user of the session
//@ variant own -DRC=1 -DWHAT=0 +quick=60 +thorough=600
//@ variant managed -DRC=0 -DWHAT=0 +quick=60 +thorough=600
//@ variant exhausted -DRC=2 -DWHAT=0 +quick=60
//@ variant bunch -DRC=0 -DWHAT=1 +quick=40
//@ variant full -DRC=0 -DWHAT=1 -DFULL +quick=60
//@ variant threads -DRC=0 -DWHAT=2 +quick=120 +thorough=200
//@ require done acked shared@own,managed remote@own,managed,exhausted refused@exhausted
#include <fstream>
#include <harness/shm.h>
#include <cstring>
#include <deque>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS = RC == 2 ? 4 : 6;
#else
const bool DEEP = false; const unsigned OPS = RC == 2 ? 3 : 4;
#endif
const int N = 4, BLOCKS = 4;   // 0,1: messages of the owner, 2,3: of the other user
struct Slot { MessagePtr m; int block = -1; };
static Slot* S; static int users[BLOCKS], acks[BLOCKS], nBlocks = 0; static char* base; static size_t sizes[BLOCKS]; static shmem::TransportFactory* F[2]; static UnmanagedRegionPtr* R; static SocketPtr* SK; static uint8_t* hints;
typedef vector<int> Transfer; static std::deque<Transfer>* Q;
static void* hintOf(int b) { return (void*)(uintptr_t)(0x1000 + 16 * b + (hints[b] & 15)); }
static void acked(void* p, size_t n, void* h)
{
    int b = -1; for (int i = 0; i < nBlocks; ++i) if (p == base + 64 * i) b = i;
    CHECK(b >= 0, "an acknowledged block is one that was used"); CHECK(n == sizes[b] && h == hintOf(b), "a block is acknowledged with its size and hint");
    CHECK(users[b] == 0, "a block is not acknowledged while a message uses it"); CHECK(++acks[b] == 1, "a block is acknowledged once"); REACH("acked");
}
static void set(Slot& s, int b) { if (s.block >= 0) --users[s.block]; s.block = b; if (b >= 0) ++users[b]; }
static void drop(Slot& s) { if (s.block >= 0) --users[s.block]; s.block = -1; s.m.reset(); }
static void check(Slot& s)
{
    if (!s.m || s.block < 0) return;
    CHECK(s.m->GetSize() == sizes[s.block], "a region message has the size of its block"); auto d = (char*)s.m->GetData();
    CHECK(d && d[0] == 'A' + s.block, "a region message refers to its block");
    CHECK(static_cast<shmem::Message*>(s.m.get())->GetRefCount() == users[s.block], "the reference count is the number of messages that share the block");
}
template<class T> static void by(int user, T t) { if (user) std::thread(t).join(); else t(); }     // the other user has threads of its own
static void create(Slot& s) { int b = nBlocks++; hints[b] = sym_u8("hint"); sizes[b] = 20 + b; base[64 * b] = 'A' + b; s.m = F[0]->CreateMessage(*R, base + 64 * b, sizes[b], hintOf(b)); set(s, b); }
#ifdef FULL
#define SLOW std::this_thread::sleep_for(std::chrono::milliseconds(20))
#else
#define SLOW
#endif
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked");
#if WHAT == 1 || WHAT == 2
    auto& o = shm::options(65536, false, 0); static const int counts[] = {1, 255, 256, 257, 513, 600}; static unsigned char seen[600];
    {
        shmem::TransportFactory f("d", &o); RegionConfig rc; rc.rcSegmentSize = 0; rc.linger = 200;
#ifdef FULL
        // the queue is full when the region goes: it has room for one or two bunches, and the callback takes a while
        rc.id = 17; delete new boost::interprocess::message_queue(boost::interprocess::create_only, "fmq_00001234_rgq_17", 1 + sym_choice("room", 2), 256 * sizeof(shmem::RegionBlock));
#endif
        UnmanagedRegionPtr r; static char* d = nullptr; static int order = 0;
        auto cb = [](void* p, size_t n, void* h) { size_t i = (char*)p - d; CHECK(i < 600 && n == 1 + i % 7 && h == (void*)(i + 1), "a block is acknowledged with its size and hint"); CHECK(++seen[i] == 1, "a block is acknowledged once"); ++order; REACH("acked"); };
        r = (WHAT == 1 || DEEP) && sym_choice("bulk", 2) ? f.CreateUnmanagedRegion(4096, [=](const vector<RegionBlock>& v) { for (auto& b : v) cb(b.ptr, b.size, b.hint); SLOW; }, rc) : f.CreateUnmanagedRegion(4096, RegionCallback(cb), rc);
        d = (char*)r->GetData(); int n = WHAT == 1 ? counts[sym_choice("blocks", 6)] : DEEP ? 3 : 2; vector<MessagePtr> m; for (int i = 0; i < n; ++i) m.push_back(f.CreateMessage(r, d + i, 1 + i % 7, (void*)(uintptr_t)(i + 1)));
#if WHAT == 1
        if (sym_choice("wait", 2)) { while (m.size() > (size_t)n / 2) m.pop_back(); std::this_thread::sleep_for(std::chrono::milliseconds(1200)); CHECK(order == n - n / 2, "a released block is acknowledged"); }
        m.clear();
#else
        rt_order(true); rt_preempt(DEEP ? 2 : 1); std::thread t([&] { m[0].reset(); }); std::thread t2([&] { m[1].reset(); if (DEEP) m[2].reset(); }); t.join(); t2.join();
#endif
        r.reset(); CHECK(order == n, "a block released before its region goes is acknowledged");
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); REACH("done");
#else
    S = new Slot[N]; Q = new std::deque<Transfer>[2]; SK = new SocketPtr[4]; R = new UnmanagedRegionPtr; hints = new uint8_t[BLOCKS];
    auto &o0 = shm::options(16384, false, 0), &o1 = shm::options(16384, false, 1);
    {
        shmem::TransportFactory f0("d0", &o0), f1("d1", &o1); F[0] = &f0; F[1] = &f1; shm::Seg* seg = new shm::Seg(false, 0);
        RegionConfig rc; rc.rcSegmentSize = RC == 2 ? 4096 : RC ? 65536 : 0; rc.linger = 1000; bool bulk = sym_choice("bulk", 2);
        if (bulk) *R = f0.CreateUnmanagedRegion(4096, [](const vector<RegionBlock>& v) { for (auto& b : v) acked(b.ptr, b.size, b.hint); }, rc); else *R = f0.CreateUnmanagedRegion(4096, acked, rc);
        base = (char*)(*R)->GetData(); size_t initial = seg->free();
        for (int u = 0; u < 2; ++u) {
            std::string a = u ? "tcp://127.0.0.1:5001" : "tcp://127.0.0.1:5000";
            SK[u] = F[u]->CreateSocket("push", "out"); SK[3 - u] = F[1 - u]->CreateSocket("pull", "in"); CHECK(SK[3 - u]->Bind(a) && SK[u]->Connect(a), "sockets bind and connect");
        }
        create(S[0]);
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned op = i == 0 ? sym_choice("first", 3) : sym_choice("operation", DEEP ? 7 : 6), u = i == 0 ? 0 : sym_choice("user", 2), w = i == 0 || op == 1 ? 0 : sym_choice("message", 2); Slot &s = S[2 * u + w], &t = S[2 * u + 1 - w]; SocketPtr &out = SK[u], &in = SK[2 + u]; auto& q = Q[1 - u];
            by(u, [&] {
                switch (op) {
                case 0: case 1: {   // send one message or two parts
                    if (!s.m || s.block < 0) sym_end();
                    if (op == 1 && (!t.m || t.block < 0)) { if (u || nBlocks >= BLOCKS) sym_end(); create(t); }
                    if (op == 0) CHECK(out->Send(s.m, 0) == (int64_t)sizes[s.block], "sending reports the size of the transfer");
                    else { Parts p; p.AddPart(std::move(s.m)); p.AddPart(std::move(t.m)); CHECK(out->Send(p.fParts, 0) == (int64_t)(sizes[s.block] + sizes[t.block]), "sending reports the size of the transfer"); s.m = std::move(p.fParts[0]); t.m = std::move(p.fParts[1]); }
                    Transfer x{s.block}; if (op) x.push_back(t.block); Q[u].push_back(x);
                    s.block = -1; s.m.reset(); if (op) { t.block = -1; t.m.reset(); } break;
                }
                case 2: if (!s.m) sym_end(); if (!t.m) t.m = F[u]->CreateMessage(); else if (t.block < 0) sym_end(); 
#if RC == 2
                    { bool thrown = false; set(t, -1); try { t.m->Copy(*s.m); } catch (const RefCountBadAlloc&) { thrown = true; } CHECK(s.block < 0 || thrown, "a copy without space for its reference count is refused"); if (thrown) { CHECK(t.m->GetSize() == 0, "a message that could not be copied to is empty"); REACH("refused"); } break; }
#endif
                    t.m->Copy(*s.m); set(t, s.block); REACH("shared"); break;
                case 3: {
                    if (q.empty()) sym_end(); Transfer x = q.front(); q.pop_front();
                    if (x.size() == 1) { if (!s.m) s.m = F[u]->CreateMessage(); if (s.block >= 0) --users[s.block]; CHECK(in->Receive(s.m, 0) == (int64_t)sizes[x[0]], "receiving reports the size of the transfer"); s.block = x[0]; }
                    else { drop(s); drop(t); Parts p; CHECK(in->Receive(p.fParts, 0) == (int64_t)(sizes[x[0]] + sizes[x[1]]) && p.Size() == 2, "all parts are received together"); s.m = std::move(p.fParts[0]); t.m = std::move(p.fParts[1]); s.block = x[0]; t.block = x[1]; }
                    if (u) REACH("remote"); break;
                }
                case 4: if (!s.m) sym_end(); drop(s); break;
                case 5: if (u || s.m || nBlocks >= BLOCKS) sym_end(); create(s); break;
                case 6: if (!s.m) sym_end(); if (s.block >= 0) --users[s.block]; s.block = -1; if (sym_choice("rebuild with size", 2)) s.m->Rebuild(10); else s.m->Rebuild(); break;
                }
                for (int k = 0; k < 2; ++k) check(S[2 * u + k]);
            });
        }
        // everything is received and released; then the region goes, which waits for outstanding acknowledgements
        bool later = sym_choice("destroy the region later", 2);
        for (int u = 0; u < 2; ++u) by(u, [&] {
            auto& q = Q[1 - u];
            while (!q.empty()) {
                Transfer x = q.front(); q.pop_front(); Slot s, t;
                if (x.size() == 1) { s.m = F[u]->CreateMessage(); CHECK(SK[2 + u]->Receive(s.m, 0) == (int64_t)sizes[x[0]], "receiving reports the size of the transfer"); s.block = x[0]; check(s); drop(s); }
                else { Parts p; CHECK(SK[2 + u]->Receive(p.fParts, 0) >= 0 && p.Size() == 2, "all parts are received together"); s.m = std::move(p.fParts[0]); s.block = x[0]; check(s); t.m = std::move(p.fParts[1]); t.block = x[1]; check(t); drop(s); drop(t); }
            }
            for (int k = 0; k < 2; ++k) drop(S[2 * u + k]);
        });
        if (later) { std::this_thread::sleep_for(std::chrono::milliseconds(1300)); for (int b = 0; b < nBlocks; ++b) CHECK(acks[b] == 1, "a released block is acknowledged"); }
        R->reset(); for (int b = 0; b < nBlocks; ++b) CHECK(acks[b] == 1, "a block released before its region goes is acknowledged");
        CHECK(seg->free() == initial, "reference counts are returned to the segment"); delete seg;
        for (int k = 0; k < 4; ++k) SK[k].reset();
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); REACH("done");
#endif
}
