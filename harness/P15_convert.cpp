//@ property P15
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/Channel.cxx fairmq/TransportFactory.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds histories of 3 (quick) or 4 (thorough) operations, with empty and with full queues, - create with own buffer, handed over buffer or region block of either transport, send one message or several mixed parts over a channel of either transport, receive into what is there, destroy - over two messages with symbolic contents and queues of two transfers; refused allocations
//@ variant history -DWHAT=0 +quick=200 +thorough=800
//@ variant full -DWHAT=1 +quick=40
//@ require done converted mixed@history timeout@history freed@history refused@full kept@full
#include <fstream>
#include <harness/shm.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <cstring>
#include <deque>
using namespace fair::mq; using std::vector; using std::size_t; using std::string;
#ifdef THOROUGH
const unsigned OPS = 4;
#else
const unsigned OPS = 3;
#endif
static const int64_t TO = (int64_t)TransferCode::timeout;
struct Buf { char* data; int freed; };
static vector<Buf*>* bufs; static int serial = 0, acks = 0, blocks = 0;
static void release(void* d, void* h) { Buf* b = (Buf*)h; CHECK(b->data == d && ++b->freed == 1, "a buffer handed over is released once"); memset(d, 0xEE, 100); }
struct Slot { MessagePtr m; vector<uint8_t> want; };
static vector<uint8_t> bytes(size_t n) { vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(i * 3 + serial * 41); ++serial; if (n > 2) sym_bytes(v.data(), 2, "content"); return v; }
static void same(Message& m, const vector<uint8_t>& w) { CHECK(m.GetSize() == w.size() && (w.empty() || !memcmp(m.GetData(), w.data(), w.size())), "a message keeps its content through conversion and transfer"); }
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); bufs = new vector<Buf*>; auto* S = new Slot[2];
    {
        auto& o = shm::options(16384, false, 0); o.SetProperty<string>("bad-alloc", "x"); o.DeleteProperty("bad-alloc");
        auto fs = std::make_shared<shmem::TransportFactory>("d", &o); auto fz = std::make_shared<zmq::TransportFactory>("d"); std::shared_ptr<TransportFactory> F[2] = {fz, fs}; shm::Seg seg(false, 0);
        {
        vector<Channel> out, in; std::deque<vector<vector<uint8_t>>> Q[2];
        for (int k = 0; k < 2; ++k) {
            out.emplace_back(k ? "shm" : "zmq", "push", F[k]); in.emplace_back(k ? "shmin" : "zmqin", "pull", F[k]); string a = k ? "tcp://127.0.0.1:5001" : "tcp://127.0.0.1:5000"; CHECK(out[k].Transport() == F[k].get(), "a channel belongs to its transport");
            out[k].GetSocket().SetSndBufSize(1); in[k].GetSocket().SetRcvBufSize(1); CHECK(in[k].BindEndpoint(a) && out[k].ConnectEndpoint(a), "sockets bind and connect");
        }
        size_t initial = seg.free();
#if WHAT == 0
        UnmanagedRegionPtr R[2]; RegionConfig rc; rc.rcSegmentSize = 0; rc.linger = 0;
        auto create = [&](Slot& s) {
            static const size_t sizes[] = {10, 100, 0}; static int made = 0; size_t how = sym_choice("kind of message", made++ && OPS < 4 ? 3 : 5); auto& f = *F[how % 2]; size_t n = how >= 4 ? 0 : sizes[(how / 2) % 2]; s.want = bytes(n);
            if (how == 4) { s.m = F[serial % 2]->CreateMessage(); return; }
            if (how < 2) s.m = f.CreateMessage(n); else { Buf* b = new Buf{new char[n], 0}; bufs->push_back(b); s.m = f.CreateMessage(b->data, n, release, b); if (how == 3) { /* the shared memory transport has copied it already */ memcpy(s.m->GetData(), s.want.data(), n); return; } }
            memcpy(s.m->GetData(), s.want.data(), n);
        };
        if (sym_choice("queues full", 2)) for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) { auto w = bytes(20); auto m = F[k]->CreateMessage(20); memcpy(m->GetData(), w.data(), 20); CHECK(out[k].Send(m, 0) == 20, "a message is sent when there is room"); Q[k].push_back({w}); }
        create(S[0]);
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned op = i == 0 ? sym_choice("first", 2) : sym_choice("operation", 5), w = i == 0 || op == 1 ? 0 : sym_choice("message", 2), k = op < 3 ? sym_choice("transport", 2) : 0; Slot &s = S[w], &t = S[1 - w];
            switch (op) {
            case 0: { if (!s.m) create(s); if (k != (s.m->GetType() == Transport::SHM)) REACH("converted"); auto r = out[k].Send(s.m, 0); CHECK(s.m && s.m->GetType() == F[k]->GetType(), "a message sent belongs to the transport of the channel"); if (r == TO) { CHECK(Q[k].size() >= 2, "a message is sent when there is room"); same(*s.m, s.want); REACH("timeout"); } else { CHECK(r == (int64_t)s.want.size(), "sending reports the size of the transfer"); Q[k].push_back({s.want}); s.m.reset(); } break; }
            case 1: { if (!s.m) sym_end(); if (!t.m) create(t); if (s.m->GetType() != t.m->GetType()) REACH("mixed"); Parts p; p.AddPart(std::move(s.m)); p.AddPart(std::move(t.m)); auto r = out[k].Send(p, 0); CHECK(p.Size() == 2, "sending keeps the number of parts"); s.m = std::move(p.fParts[0]); t.m = std::move(p.fParts[1]);
                if (r == TO) { CHECK(Q[k].size() >= 2, "a message is sent when there is room"); same(*s.m, s.want); same(*t.m, t.want); REACH("timeout"); } else { CHECK(r == (int64_t)(s.want.size() + t.want.size()), "sending reports the size of the transfer"); Q[k].push_back({s.want, t.want}); s.m.reset(); t.m.reset(); } break; }
            case 2: {
                if (Q[k].empty()) sym_end(); auto x = Q[k].front(); Q[k].pop_front(); if (!s.m) s.m = F[1 - k]->CreateMessage();
                if (x.size() == 1) { CHECK(in[k].Receive(s.m, 0) == (int64_t)x[0].size(), "receiving reports the size of the transfer"); s.want = x[0]; CHECK(s.m->GetType() == F[k]->GetType(), "a message received belongs to the transport of the channel"); }
                else { Parts p; if (t.m) p.AddPart(std::move(t.m)); size_t had = p.Size(); CHECK(in[k].Receive(p, 0) == (int64_t)(x[0].size() + x[1].size()) && p.Size() == had + 2, "all parts are received together"); for (unsigned j = 0; j < p.Size(); ++j) CHECK(p.fParts[j]->GetType() == F[k]->GetType(), "a message received belongs to the transport of the channel"); s.m = std::move(p.fParts[had]); t.m = std::move(p.fParts[had + 1]); s.want = x[0]; t.want = x[1]; }
                break;
            }
            case 3: if (s.m) s.m.reset(); else create(s); break;
            case 4: if (!s.m) sym_end(); if (s.m->GetSize() < 5) sym_end(); ((char*)s.m->GetData())[4] = 77; s.want[4] = 77; CHECK(s.m->SetUsedSize(s.want.size() - 3), "the used size can be reduced"); s.want.resize(s.want.size() - 3); break;
            }
            for (int j = 0; j < 2; ++j) if (S[j].m) same(*S[j].m, S[j].want);
        }
        for (int k = 0; k < 2; ++k) while (!Q[k].empty()) { auto x = Q[k].front(); Q[k].pop_front(); if (x.size() == 1) { auto m = F[k]->CreateMessage(); CHECK(in[k].Receive(m, 0) == (int64_t)x[0].size(), "receiving reports the size of the transfer"); same(*m, x[0]); } else { Parts p; CHECK(in[k].Receive(p, 0) >= 0 && p.Size() == 2, "all parts are received together"); for (int j = 0; j < 2; ++j) same(*p.fParts[j], x[j]); } }
        for (int k = 0; k < 2; ++k) S[k].m.reset();
        CHECK(seg.free() == initial, "every buffer goes back to the segment"); for (auto* b : *bufs) { CHECK(b->freed == 1, "a buffer handed over is released once"); REACH("freed"); }
#else
        // conversions that do not fit into the segment
        bool parts = sym_choice("parts", 2); size_t n = sym_choice("size", 2) ? 9000 : 40000; auto mk = [&](size_t k) { Slot s; s.want = bytes(k); if (sym_choice("handed over", 2)) { Buf* b = new Buf{new char[k], 0}; bufs->push_back(b); s.m = fz->CreateMessage(b->data, k, release, b); } else s.m = fz->CreateMessage(k); memcpy(s.m->GetData(), s.want.data(), k); return s; };
        Slot a = mk(parts ? 100 : n), b = mk(n); fs->Interrupt(); bool thrown = false; unsigned hold = sym_choice("memory in use", 2); MessagePtr h; if (hold) { h = fs->CreateMessage(8000); }
        if (!parts) { int64_t r = -9; try { r = out[1].Send(b.m, 0); REACH("converted"); } catch (const MessageBadAlloc&) { thrown = true; } CHECK(thrown == (n == 40000 || hold), "a conversion that does not fit is refused"); if (thrown) { CHECK(b.m != nullptr, "a message that cannot be converted is kept"); same(*b.m, b.want); REACH("refused"); REACH("kept"); } else CHECK(r == (int64_t)n, "sending reports the size of the transfer"); }
        else { Parts p; p.AddPart(std::move(a.m)); p.AddPart(std::move(b.m)); try { out[1].Send(p, 0); REACH("converted"); } catch (const MessageBadAlloc&) { thrown = true; } CHECK(thrown == (n == 40000 || hold), "a conversion that does not fit is refused"); CHECK(p.Size() == 2, "sending keeps the number of parts"); if (thrown) { CHECK(p.fParts[0] && p.fParts[1], "a message that cannot be converted is kept"); same(*p.fParts[0], a.want); same(*p.fParts[1], b.want); REACH("kept"); } }
        h.reset(); fs->Resume(); if (!thrown) { if (parts) { Parts p; CHECK(in[1].Receive(p, 0) >= 0 && p.Size() == 2, "all parts are received together"); same(*p.fParts[1], b.want); } else { auto m = fs->CreateMessage(); CHECK(in[1].Receive(m, 0) == (int64_t)n, "receiving reports the size of the transfer"); same(*m, b.want); } }
        a.m.reset(); b.m.reset(); CHECK(seg.free() == initial, "every buffer goes back to the segment"); for (auto* x : *bufs) CHECK(x->freed == 1, "a buffer handed over is released once");
#endif
        }
    }
    CHECK(rt_zmq_messages() == 0, "no message is left behind"); CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); REACH("done");
}
