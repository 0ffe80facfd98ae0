//@ property P12
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds histories of 4 or 5 (quick) or 6 or 7 (thorough) transfers of messages of one to three parts with symbolic contents from two senders to two receivers (push/pull, req/rep, pair, pub/sub) through queues of one or two messages, connecting before or after; all interleavings of a sending and a receiving thread with at most 1 (quick) or 2 (thorough) preemptions (zmq: 3 or 5); queue and linger values -1..2^31-1
//@ variant zmq -DWHAT=0 -DSH=0 +quick=60 +thorough=500
//@ variant shm -DWHAT=0 -DSH=1 +quick=80 +thorough=500
//@ variant zmqpub -DWHAT=1 -DSH=0 +quick=40 +thorough=300
//@ variant zmqpair -DWHAT=2 -DSH=0 +quick=40 +thorough=300
//@ variant shmpair -DWHAT=2 -DSH=1 +quick=40 +thorough=300
//@ variant zmqthreads -DWHAT=3 -DSH=0 +quick=60 +thorough=400
//@ variant shmthreads -DWHAT=3 -DSH=1 +quick=60 +thorough=400
//@ variant zmqoptions -DWHAT=4 -DSH=0 +quick=30
//@ variant shmoptions -DWHAT=4 -DSH=1 +quick=30
//@ require done parts@zmq,shm,zmqpub full@zmq,shm alternating@zmqpair,shmpair blocked@zmqthreads,shmthreads peers@zmqoptions,shmoptions rejected@zmqoptions,shmoptions
#include <fstream>
#include <harness/shm.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <cstring>
#include <deque>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t; using std::string;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS = WHAT == 0 ? (SH ? 6 : 7) : 6;
#else
const bool DEEP = false; const unsigned OPS = 5;
#endif
static const int64_t TO = (int64_t)TransferCode::timeout;
struct Msg { vector<vector<uint8_t>> parts; int sender; int got = 0; };
static vector<Msg>* sentp; 
static Parts make(TransportFactory& f, Msg& m, unsigned n)
{
    Parts p; int ser = sentp->size();
    for (unsigned i = 0; i < n; ++i) { size_t k = i == 1 ? 0 : 5 + 40 * (ser % 2) + i; vector<uint8_t> v(k); for (size_t b = 0; b < k; ++b) v[b] = (uint8_t)(ser * 16 + i + b); if (k) { sym_bytes(v.data() + 1, 2, "content"); v[0] = (uint8_t)ser; } auto x = f.CreateMessage(k); if (k) memcpy(x->GetData(), v.data(), k); p.AddPart(std::move(x)); m.parts.push_back(v); }
    return p;
}
static size_t total(const Msg& m) { size_t n = 0; for (auto& v : m.parts) n += v.size(); return n; }
static void same(Msg& m, Parts& p) { CHECK(p.Size() == m.parts.size(), "a message arrives with all its parts and nothing else"); for (unsigned i = 0; i < p.Size(); ++i) CHECK(p.fParts[i]->GetSize() == m.parts[i].size() && (m.parts[i].empty() || !memcmp(p.fParts[i]->GetData(), m.parts[i].data(), m.parts[i].size())), "a part arrives with its content"); }
static int64_t send(Socket& s, Parts& p, bool single, int t) { return single ? s.Send(p.fParts[0], t) : s.Send(p.fParts, t); }
static int64_t receive(TransportFactory& f, Socket& s, Parts& p, bool single, int t) { if (!single) return s.Receive(p.fParts, t); auto x = f.CreateMessage(); auto rc = s.Receive(x, t); if (rc >= 0) p.AddPart(std::move(x)); return rc; }
static Msg& which(Parts& p) { CHECK(p.Size() && p.fParts[0]->GetSize() > 0, "a message arrives with all its parts and nothing else"); unsigned k = *(uint8_t*)p.fParts[0]->GetData(); CHECK(k < sentp->size(), "a message that arrives has been sent"); return (*sentp)[k]; }
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); sentp = new vector<Msg>; auto& sent = *sentp;
    {
#if SH
    auto& o = shm::options(16384, false, 0); auto& o1 = shm::options(16384, false, 1); shmem::TransportFactory f("d", &o), f1("e", &o1); shm::Seg seg(false, 0); size_t initial = seg.initial;
#else
    zmq::TransportFactory f("d"), f1("e");
#endif
    const string A[2] = {"tcp://127.0.0.1:5000", "tcp://127.0.0.1:5001"};
#if WHAT == 0
    unsigned ns = 1 + sym_choice("senders", 2), nr = 1 + sym_choice("receivers", 2); if (ns == 2 && nr == 2) sym_end(); bool singles = sym_choice("single messages", 2); int q = 1; bool senderBinds = sym_choice("sender binds", 2);
    SocketPtr S[2], R[2]; for (unsigned i = 0; i < ns; ++i) { S[i] = f.CreateSocket("push", "s" + std::to_string(i)); S[i]->SetSndBufSize(q); } for (unsigned i = 0; i < nr; ++i) { R[i] = f1.CreateSocket("pull", "r" + std::to_string(i)); R[i]->SetRcvBufSize(q); }
    if (senderBinds) for (unsigned i = 0; i < ns; ++i) CHECK(S[i]->Bind(A[i]), "sockets bind and connect"); else for (unsigned i = 0; i < nr; ++i) CHECK(R[i]->Bind(A[i]), "sockets bind and connect");
    if (senderBinds) for (unsigned i = 0; i < nr; ++i) for (unsigned k = 0; k < ns; ++k) CHECK(R[i]->Connect(A[k]), "sockets bind and connect"); else for (unsigned k = 0; k < ns; ++k) for (unsigned i = 0; i < nr; ++i) CHECK(S[k]->Connect(A[i]), "sockets bind and connect");
    const unsigned ops = DEEP || ns * nr == 1 ? OPS : OPS - 1; int last[2][2] = {{-1, -1}, {-1, -1}}; int inFlight[2] = {0, 0};
    auto got = [&](unsigned r, Parts& p, int64_t rc) { Msg& m = which(p); int k = &m - &sent[0]; CHECK(rc == (int64_t)total(m), "receiving reports the size of the transfer"); same(m, p); CHECK(++m.got == 1, "a message arrives once"); CHECK(k > last[r][m.sender], "messages of a sender arrive in the order they were sent"); last[r][m.sender] = k; --inFlight[m.sender]; };
    for (unsigned i = 0; i < ops; ++i) {
        unsigned op = i == 0 ? 0 : sym_choice("operation", 2);
        if (op == 0) {
            unsigned s = ns > 1 ? sym_choice("sender", 2) : 0, n = singles ? 1 : SH && !DEEP ? 2 + sym_choice("parts", 2) : 1 + sym_choice("parts", 3); if (n > 1) REACH("parts"); Msg m; m.sender = s; Parts p = make(f, m, n); auto rc = send(*S[s], p, singles, 0);
            if (rc == TO) { REACH("full"); CHECK(inFlight[s] >= 1, "a message is taken when there is room"); same(m, p); } else { CHECK(rc == (int64_t)total(m), "sending reports the size of the transfer"); sent.push_back(m); ++inFlight[s]; }
        } else {
            unsigned r = nr > 1 ? sym_choice("receiver", 2) : 0; Parts p; auto rc = receive(f1, *R[r], p, singles, 0);
            if (rc == TO) { CHECK(p.Size() == 0, "a transfer that timed out delivers nothing"); if (nr == 1) CHECK(inFlight[0] + inFlight[1] == 0, "a message that was sent is received"); } else got(r, p, rc);
        }
    }
    for (unsigned r = 0; r < nr; ++r) while (true) { Parts p; auto rc = receive(f1, *R[r], p, singles, 0); if (rc == TO) break; got(r, p, rc); }
    for (auto& m : sent) CHECK(m.got == 1, "every message that was sent arrives");
#elif WHAT == 1
    auto P = f.CreateSocket("pub", "p"); SocketPtr R[2]; CHECK(P->Bind(A[0]), "sockets bind and connect"); bool late = sym_choice("late subscriber", 2); unsigned next[2] = {0, 0}; vector<vector<int>> got(2); unsigned from = 0;
    for (int i = 0; i < 2; ++i) R[i] = f1.CreateSocket("sub", "r" + std::to_string(i)); CHECK(R[0]->Connect(A[0]), "sockets bind and connect"); if (!late) CHECK(R[1]->Connect(A[0]), "sockets bind and connect");
    for (unsigned i = 0; i < OPS; ++i) {
        unsigned op = sym_choice("operation", late ? 3 : 2);
        if (op == 0) { unsigned n = 1 + sym_choice("parts", 3); if (n > 1) REACH("parts"); Msg m; m.sender = 0; Parts p = make(f, m, n); CHECK(send(*P, p, false, 0) == (int64_t)total(m), "sending reports the size of the transfer"); sent.push_back(m); }
        else if (op == 1) { unsigned r = sym_choice("receiver", 2); Parts p; auto rc = receive(f1, *R[r], p, false, 0); if (rc == TO) CHECK(next[r] == sent.size() || (r && late), "a message that was sent is received"); else { Msg& m = which(p); CHECK(&m - &sent[0] == next[r]++, "a subscriber gets every message in order"); same(m, p); } }
        else { late = false; CHECK(R[1]->Connect(A[0]), "sockets bind and connect"); next[1] = sent.size(); }
    }
    for (unsigned r = 0; r < 2; ++r) { while (true) { Parts p; auto rc = receive(f1, *R[r], p, false, 0); if (rc == TO) break; Msg& m = which(p); CHECK(&m - &sent[0] == next[r]++, "a subscriber gets every message in order"); same(m, p); } if (r == 0 || !late) CHECK(next[r] == sent.size(), "a subscriber gets every message in order"); }
#elif WHAT == 2
    bool req = sym_choice("request reply", 2); auto X = f.CreateSocket(req ? "req" : "pair", "x"), Y = f1.CreateSocket(req ? "rep" : "pair", "y"); Socket* K[2] = {X.get(), Y.get()}; TransportFactory* F[2] = {&f, &f1};
    if (sym_choice("first binds", 2)) CHECK(X->Bind(A[0]) && Y->Connect(A[0]), "sockets bind and connect"); else CHECK(Y->Bind(A[0]) && X->Connect(A[0]), "sockets bind and connect");
    std::deque<int> q[2]; int turn = 0; bool singles = sym_choice("single messages", 2);
    for (unsigned i = 0; i < OPS; ++i) {
        unsigned k = sym_choice("socket", 2), op = sym_choice("operation", 2);
        if (op == 0) { Msg m; m.sender = k; Parts p = make(*F[k], m, singles ? 1 : 2); auto rc = send(*K[k], p, singles, 0); bool may = !req || (k == 0 ? turn == 0 : turn == 2); if (!may) { CHECK(rc == (int64_t)TransferCode::error, "a request and its reply alternate"); same(m, p); REACH("alternating"); } else { CHECK(rc == (int64_t)total(m), "sending reports the size of the transfer"); q[k].push_back(sent.size()); sent.push_back(m); ++turn; } }
        else { Parts p; auto rc = receive(*F[k], *K[k], p, singles, 0); bool may = !req || (k == 0 ? turn == 1 || turn == 2 || turn == 3 : turn != 2); if (!may) CHECK(rc == (int64_t)TransferCode::error, "a request and its reply alternate"); else if (q[1 - k].empty()) CHECK(rc == TO, "a message arrives once"); else { Msg& m = sent[q[1 - k].front()]; q[1 - k].pop_front(); CHECK(rc == (int64_t)total(m), "receiving reports the size of the transfer"); same(m, p); turn = k == 0 ? 0 : 2; if (req) REACH("alternating"); } }
    }
    for (unsigned k = 0; k < 2; ++k) if (!req) while (!q[1 - k].empty()) { Parts p; CHECK(receive(*F[k], *K[k], p, singles, 0) >= 0, "a message that was sent is received"); same(sent[q[1 - k].front()], p); q[1 - k].pop_front(); }
#elif WHAT == 3
    bool singles = sym_choice("single messages", 2); unsigned n = 3; auto X = f.CreateSocket("push", "x"), Y = f1.CreateSocket("pull", "y"); X->SetSndBufSize(1); Y->SetRcvBufSize(1); vector<Parts> out; for (unsigned i = 0; i < n; ++i) { Msg m; m.sender = 0; out.push_back(make(f, m, singles ? 1 : 2)); sent.push_back(m); }
    CHECK(Y->Bind(A[0]), "sockets bind and connect"); bool slow = false; rt_order(true); rt_preempt(SH ? (DEEP ? 2 : 1) : (DEEP ? 5 : 3));
    std::thread t([&] { CHECK(X->Connect(A[0]), "sockets bind and connect"); for (unsigned i = 0; i < n; ++i) CHECK(send(*X, out[i], singles, -1) == (int64_t)total(sent[i]), "sending reports the size of the transfer"); slow = true; });
    for (unsigned i = 0; i < n; ++i) { if (i == 1 && !slow) REACH("blocked"); Parts p; CHECK(receive(f1, *Y, p, singles, -1) == (int64_t)total(sent[i]), "receiving reports the size of the transfer"); same(sent[i], p); }
    t.join(); rt_order(false); rt_preempt(0); CHECK(X->GetMessagesTx() == n && Y->GetMessagesRx() == n && X->GetBytesTx() == Y->GetBytesRx(), "the counters of a socket are the sums of what was sent");
#else
    static const char* types[] = {"push", "pull", "pair", "req", "rep", "dealer", "router", "pub", "sub"}; auto X = f.CreateSocket(types[sym_choice("type", SH ? 7 : 9)], "x"); 
    unsigned opt = sym_choice("option", 7);
    if (opt < 5) {
        static const int values[] = {-1, 0, 1, 5000, 2147483647, -2}; int v = values[sym_choice("value", 6)]; bool ok = v >= 0 || (v == -1 && opt != 1 && opt != 2), thrown = false; int before[5] = {X->GetLinger(), X->GetSndBufSize(), X->GetRcvBufSize(), X->GetSndKernelSize(), X->GetRcvKernelSize()};
        try { switch (opt) { case 0: X->SetLinger(v); break; case 1: X->SetSndBufSize(v); break; case 2: X->SetRcvBufSize(v); break; case 3: X->SetSndKernelSize(v); break; default: X->SetRcvKernelSize(v); } } catch (const SocketError&) { thrown = true; REACH("rejected"); }
        CHECK(thrown == !ok, "an option value the transport does not support is refused"); int after[5] = {X->GetLinger(), X->GetSndBufSize(), X->GetRcvBufSize(), X->GetSndKernelSize(), X->GetRcvKernelSize()};
        for (unsigned k = 0; k < 5; ++k) CHECK(after[k] == (k == opt && ok ? v : before[k]), "an option has the value set last"); if (v == 0 && opt == 1) { int x = -1; size_t n = sizeof(x); X->GetOption("snd-hwm", &x, &n); CHECK(x == 0, "an option has the value set last"); x = 17; X->SetOption("snd-hwm", &x, sizeof(x)); CHECK(X->GetSndBufSize() == 17, "an option has the value set last"); }
    } else if (opt == 5) {   // connected peers
        auto Y = f.CreateSocket("pull", "y"); auto a = f1.CreateSocket("push", "a"), b = f1.CreateSocket("push", "b"); int n = 0; bool ca = false, cb = false; Socket* K[2] = {a.get(), b.get()}; bool C[2] = {false, false}; CHECK(Y->Bind(A[0]), "sockets bind and connect");
        for (unsigned i = 0; i < 4; ++i) { unsigned w = sym_choice("peer", 2); if (K[w] == nullptr) sym_end(); if (!C[w]) { CHECK(K[w]->Connect(A[0]), "sockets bind and connect"); C[w] = true; ++n; } else { (w ? b : a).reset(); K[w] = nullptr; --n; } if (sym_choice("look", 2)) CHECK(Y->GetNumberOfConnectedPeers() == (unsigned long)n, "the number of connected peers is reported"); for (int k = 0; k < 2; ++k) if (K[k]) CHECK(K[k]->GetNumberOfConnectedPeers() == (C[k] ? 1 : 0), "the number of connected peers is reported"); REACH("peers"); }
        (void)ca; (void)cb;
    } else { auto Y = f.CreateSocket("pair", "y"); CHECK(X->Bind(A[0]), "sockets bind and connect"); CHECK(!Y->Bind(A[0]), "an address is bound once"); CHECK(!Y->Connect("nonsense") && !Y->Bind("nonsense"), "an invalid address is refused"); CHECK(Y->Bind(A[1]), "sockets bind and connect"); CHECK(X->GetId() == string("d.x.") + X->GetId().substr(4), "a socket is named after its device, channel and type"); X->Close(); CHECK(Y->Bind(A[0]), "the address of a closed socket is free"); REACH("rejected"); }
#endif
#if SH && WHAT != 4
    sent.clear(); (void)initial;
#endif
    }
    CHECK(rt_zmq_sockets() == 0, "closing the factories closes their sockets"); CHECK(rt_zmq_messages() == 0, "no message is left behind"); if (SH) CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects");
    REACH("done");
}
