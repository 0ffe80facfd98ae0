//@ property P07
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds two users of one session (with one or two segments, both allocation algorithms) exchanging messages over queues of two transfers in both directions: histories of 3 or 4 (quick) or 5 (thorough) operations - send one message or two parts, receive into a fresh, empty or used message, copy, forward, rebuild, reduce the size, destroy - over two messages per user with symbolic contents
//@ variant segments -DSEGS=2 -DSIMPLE=0 +quick=60 +thorough=700
//@ variant shared -DSEGS=1 -DSIMPLE=0 +quick=40 +thorough=500
//@ variant mixed -DSEGS=2 -DSIMPLE=1 +quick=40 +thorough=300
//@ require done freed received parts reused full@segments
#include <harness/shm.h>
#include <cstring>
#include <deque>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS = SIMPLE ? 4 : 5;
#else
const bool DEEP = false; const unsigned OPS = SIMPLE || SEGS == 1 ? 3 : 4;
#endif
struct Body { vector<uint8_t> bytes; };
struct Ref { std::shared_ptr<Body> body; size_t size = 0; };
struct Slot : Ref { MessagePtr m; };
static Slot* S; static shm::Seg* seg[2]; static int serial = 0; static bool dead[2];
static shmem::TransportFactory* F[2]; static SocketPtr out[2], in[2];
typedef std::pair<bool, vector<Ref>> Transfer; static std::deque<Transfer>* Q;   // by sending user
static vector<uint8_t> bytes(size_t n) { vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(i * 5 + serial * 37); ++serial; if (n) sym_bytes(v.data(), n < 4 ? n : 4, "content"); return v; }
static void fill(Slot& s, size_t n)
{
    s.size = n; s.body.reset(); if (!n) return;
    s.body = std::make_shared<Body>(Body{bytes(n)}); memcpy(s.m->GetData(), s.body->bytes.data(), n);
}
static void check(Slot& s)
{
    if (!s.m) return;
    CHECK(s.m->GetSize() == s.size, "a message has the size of what was sent");
    if (!s.body || !s.size) return;
    auto d = s.m->GetData(); CHECK(d != nullptr, "a message has its data");
    CHECK(!memcmp(d, s.body->bytes.data(), s.size), "a message has the content of what was sent");
    CHECK(static_cast<shmem::Message*>(s.m.get())->GetRefCount() == s.body.use_count(), "the reference count is the number of messages, held and in transfer, that share the buffer");
}
static void verify()
{
    bool live = false; for (int i = 0; i < 4; ++i) { check(S[i]); if (S[i].body) live = true; }
    for (int u = 0; u < 2; ++u) for (auto& t : Q[u]) for (auto& r : t.second) if (r.body) live = true;
    bool unused = true; for (int i = 0; i < SEGS; ++i) { if (seg[i]->free() != seg[i]->initial) unused = false; CHECK(seg[i]->sane(), "the segment stays consistent"); }
    CHECK(unused == !live, "a buffer is returned to its segment exactly when its last message, held or in transfer, is gone"); if (!live) REACH("freed");
}
static void drop(Slot& s) { s.m.reset(); s.body.reset(); s.size = 0; }
extern "C" void harness()
{
    rt_timeouts(false); rt_deadlock("deadlock: every thread is blocked");
    S = new Slot[4]; Q = new std::deque<Transfer>[2];
    auto &o0 = shm::options(16384, false, 0), &o1 = shm::options(16384, SIMPLE, SEGS - 1);
    {
        shmem::TransportFactory f0("d0", &o0), f1("d1", &o1); F[0] = &f0; F[1] = &f1; seg[0] = new shm::Seg(false, 0); seg[1] = SEGS > 1 ? new shm::Seg(SIMPLE, 1) : seg[0];
        for (int u = 0; u < 2; ++u) {
            std::string a = u ? "tcp://127.0.0.1:5001" : "tcp://127.0.0.1:5000";
            out[u] = F[u]->CreateSocket("push", "out"); in[1 - u] = F[1 - u]->CreateSocket("pull", "in"); out[u]->SetSndBufSize(1); in[1 - u]->SetRcvBufSize(1);
            CHECK(in[1 - u]->Bind(a) && out[u]->Connect(a), "sockets bind and connect");
        }
        S[0].m = f0.CreateMessage(40); fill(S[0], 40); if (DEEP ? sym_choice("second", 2) : true) { S[1].m = f0.CreateMessage(); S[1].m->Copy(*S[0].m); S[1].body = S[0].body; S[1].size = 40; }
        verify();
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned op = i == 0 ? sym_choice("first", 2) : sym_choice("operation", DEEP ? 7 : 6), u = i == 0 ? 0 : sym_choice("user", 2), w = op == 1 || op == 6 ? 0 : sym_choice("message", 2); Slot &s = S[2 * u + w], &t = S[2 * u + 1 - w];
            switch (op) {
            case 0: if (!s.m) { s.m = F[u]->CreateMessage(50); fill(s, 50); }
                /* fall through */
            case 1: {
                if (!s.m || (op == 1 && !t.m)) sym_end();
                bool full = Q[u].size() >= 2; size_t size = s.size + (op ? t.size : 0); int64_t r;
                if (op == 0) r = out[u]->Send(s.m, 0); else { Parts p; p.AddPart(std::move(s.m)); p.AddPart(std::move(t.m)); r = out[u]->Send(p.fParts, 0); s.m = std::move(p.fParts[0]); t.m = std::move(p.fParts[1]); }
                if (full) { CHECK(r == (int64_t)TransferCode::timeout, "a transfer that cannot be queued is not sent"); REACH("full"); break; }
                CHECK(r == (int64_t)size, "sending reports the size of the transfer");
                Transfer x{op == 1, {Ref{s.body, s.size}}}; if (op) x.second.push_back(Ref{t.body, t.size}); Q[u].push_back(x);
                bool reuse = DEEP || i == 1 ? sym_choice("reuse", 2) : false;
                for (Slot* p : {&s, &t}) { if (p == &t && !op) break; if (reuse) { p->body.reset(); p->m->Rebuild(30); fill(*p, 30); } else drop(*p); }
                break;
            }
            case 2: case 6: {   // receive into a fresh or the held message; parts follow the queue
                if (Q[1 - u].empty()) { MessagePtr e = F[u]->CreateMessage(); CHECK(in[u]->Receive(e, 0) == (int64_t)TransferCode::timeout && e->GetSize() == 0, "nothing is received that was not sent"); break; }
                Transfer x = Q[1 - u].front(); Q[1 - u].pop_front(); size_t size = 0; for (auto& y : x.second) size += y.size;
                if (!x.first) {
                    if (op == 6) drop(s); if (!s.m) s.m = F[u]->CreateMessage(); else REACH("reused");
                    CHECK(in[u]->Receive(s.m, 0) == (int64_t)size, "receiving reports the size of the transfer"); s.body.reset(); s.body = x.second[0].body; s.size = size; REACH("received");
                } else {
                    drop(s); drop(t); Parts p; CHECK(in[u]->Receive(p.fParts, 0) == (int64_t)size && p.Size() == 2, "all parts are received together"); s.m = std::move(p.fParts[0]); t.m = std::move(p.fParts[1]);
                    s.body = x.second[0].body; s.size = x.second[0].size; t.body = x.second[1].body; t.size = x.second[1].size; REACH("parts");
                }
                x.second.clear(); break;
            }
            case 4: if (!s.m) sym_end(); if (!t.m) t.m = F[u]->CreateMessage(); t.m->Copy(*s.m); t.body = s.body; t.size = s.size; break;
            case 5: { if (!s.m) sym_end(); size_t to = !DEEP || sym_choice("used size", 2) ? s.size / 2 : 0; CHECK(s.m->SetUsedSize(to), "the used size can be reduced"); s.size = to; if (!to) s.body.reset(); break; }
            case 3: if (!s.m) sym_end(); if (DEEP && sym_choice("rebuild", 2)) { s.body.reset(); s.m->Rebuild(20); fill(s, 20); } else drop(s); break;
            }
            verify();
        }
        // everything still queued is received and released
        for (int u = 0; u < 2; ++u) while (!Q[u].empty()) {
            Transfer x = Q[u].front(); Q[u].pop_front();
            if (x.first) { Parts p; CHECK(in[1 - u]->Receive(p.fParts, 0) >= 0 && p.Size() == 2, "all parts are received together"); for (int k = 0; k < 2; ++k) { Slot s; s.m = std::move(p.fParts[k]); s.body = x.second[k].body; s.size = x.second[k].size; x.second[k].body.reset(); check(s); } }
            else { Slot s; s.m = F[1 - u]->CreateMessage(); CHECK(in[1 - u]->Receive(s.m, 0) >= 0, "every transfer is received"); s.body = x.second[0].body; s.size = x.second[0].size; x.second[0].body.reset(); check(s); }
        }
        for (int i = 0; i < 4; ++i) drop(S[i]); verify();
        for (int u = 0; u < 2; ++u) { out[u].reset(); in[u].reset(); }
        if (SEGS > 1) delete seg[1]; delete seg[0];
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); CHECK(rt_zmq_messages() == 0, "no transfer is leaked"); REACH("done");
}
