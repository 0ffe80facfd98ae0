//@ property P11
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds one or two transfers (single message, parts) of each socket pattern over a queue of one or two messages; timeouts none, 0, 50, 100, 250 (thorough: also 1000) ms; the peer or an interruption comes at one of several moments before, within or after the timeout, or never; at most one EINTR per transfer; messages of up to 3 GiB (zmq)
//@ assume a wait that EINTR ends early counts as a whole polling interval of 100 ms, as in the code: with EINTR a transfer may give up that much before its timeout
//@ variant zmq -DWHAT=0 -DSH=0 +quick=60 +thorough=400
//@ variant shm -DWHAT=0 -DSH=1 +quick=60 +thorough=400
//@ variant zmqcodes -DWHAT=1 -DSH=0 +quick=40
//@ variant shmcodes -DWHAT=1 -DSH=1 +quick=60
//@ require done timeout@zmq,shm interrupted@zmq,shm late@zmq,shm resumed@zmq,shm refused@zmqcodes,shmcodes huge@zmqcodes
#include <fstream>
#include <harness/shm.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <cstring>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t; using std::string;
#ifdef THOROUGH
const bool DEEP = true;
#else
const bool DEEP = false;
#endif
static const int64_t MS = 1000000;
static const int64_t TO = (int64_t)TransferCode::timeout, INTR = (int64_t)TransferCode::interrupted, ERR = (int64_t)TransferCode::error;
struct Counts { unsigned long bt = 0, br = 0, mt = 0, mr = 0; };
static void counters(Socket& s, const Counts& c) { CHECK(s.GetBytesTx() == c.bt && s.GetMessagesTx() == c.mt, "the counters of a socket are the sums of what was sent"); CHECK(s.GetBytesRx() == c.br && s.GetMessagesRx() == c.mr, "the counters of a socket are the sums of what was received"); }
static int serial = 0;
static MessagePtr make(TransportFactory& f, size_t n) { auto m = f.CreateMessage(n); char* d = (char*)m->GetData(); for (size_t i = 0; i < n; ++i) d[i] = (char)(serial * 37 + i); ++serial; return m; }
static bool same(Message& m, int ser, size_t n) { if (m.GetSize() != n) return false; char* d = (char*)m.GetData(); for (size_t i = 0; i < n; ++i) if (d[i] != (char)(ser * 37 + i)) return false; return true; }
extern "C" void harness()
{
    sym_mode("limit-violation", 1); rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked");
#if SH
    auto& o = shm::options(16384, false, 0); shmem::TransportFactory f("d", &o);
#else
    zmq::TransportFactory f("d");
#endif
#if WHAT == 0
    // one transfer that cannot be done at once
    enum { SEND, RECEIVE }; unsigned dir = sym_choice("direction", 2), form = sym_choice("form", 3);   // a single message, one part, two parts
    enum { NEVER, PEER, INTERRUPT, BEFORE, RESUMED, LATE_CONNECT }; unsigned event = sym_choice("event", dir == SEND ? 6 : 5);
    static const int timeouts[] = {-1, 0, 100, 250, 50, 1000}, moments[] = {30, 120, 260, 450}; int T = timeouts[sym_choice("timeout", DEEP ? 6 : 5)]; int D = event == PEER || event == INTERRUPT || event == LATE_CONNECT ? moments[sym_choice("moment", DEEP ? 4 : 3)] : 0;
    if (T < 0 && (event == NEVER || event == RESUMED)) sym_end();
    if (SH && form == 1) sym_end();    // a receiver of a single message gets parts of one differently from zmq
    bool pair = sym_choice("pattern", 2); auto s = f.CreateSocket(pair ? "pair" : "push", "out"), r = f.CreateSocket(pair ? "pair" : "pull", "in"); Counts cs, cr;
    s->SetSndBufSize(1); r->SetRcvBufSize(1); string a = "tcp://127.0.0.1:5000"; CHECK(s->GetSndBufSize() == 1 && r->GetRcvBufSize() == 1, "a queue size that is set is reported");
    bool connected = event != LATE_CONNECT; CHECK(r->Bind(a), "sockets bind and connect"); if (connected) CHECK(s->Connect(a), "sockets bind and connect");
    auto sizes = [](unsigned fm, size_t& n0, size_t& n1) { n0 = 10; n1 = fm == 2 ? 300 : 0; };
    auto send = [&](unsigned fm, Parts& p, int t) { return fm == 0 ? s->Send(p.fParts[0], t) : s->Send(p.fParts, t); };
    int queued = 0, first = serial;
    if (dir == SEND && connected) while (true) { Parts p; p.AddPart(make(f, 10)); auto rc = s->Send(p.fParts[0], 0); if (rc == TO) { CHECK(same(*p.fParts[0], serial - 1, 10), "a message that was not sent keeps its content"); --serial; break; } CHECK(rc == 10, "sending reports the size of the transfer"); ++queued; cs.bt += 10; ++cs.mt; counters(*s, cs); CHECK(queued < 5, "a queue that is full takes no more messages"); }
    if (event == BEFORE || event == RESUMED) f.Interrupt();
    if (event == RESUMED) f.Resume();
    size_t n0, n1; sizes(form, n0, n1); int mine = serial; Parts p; if (dir == SEND || event == PEER) { p.AddPart(make(f, n0)); if (form == 2) p.AddPart(make(f, n1)); }
    bool intr = sym_choice("EINTR", 2); rt_zmq_eintr(intr ? 1 : 0);
    int64_t t0 = rt_now(); std::thread th;
    if (D) th = std::thread([&] {
        std::this_thread::sleep_for(std::chrono::milliseconds(D));
        if (event == INTERRUPT) f.Interrupt();
        else if (event == LATE_CONNECT) s->Connect(a);
        else if (dir == SEND) { auto x = f.CreateMessage(); auto rc = r->Receive(x, 0); CHECK(rc == 10 && same(*x, first, 10), "messages are received in the order they were sent"); ++first; --queued; cr.br += 10; ++cr.mr; }
        else { auto rc = send(form, p, 0); CHECK(rc == (int64_t)(n0 + n1), "sending reports the size of the transfer"); cs.bt += n0 + n1; ++cs.mt; }
    });
    int64_t rc; Parts q; auto x = f.CreateMessage();
    if (dir == SEND) rc = send(form, p, T); else rc = form == 0 ? r->Receive(x, T) : r->Receive(q.fParts, T);
    int64_t dt = (rt_now() - t0) / MS; rt_zmq_eintr(0);
    // what may have happened
    bool waits = event == PEER || event == LATE_CONNECT, interrupt = event == INTERRUPT; int slack = intr ? 100 : 0;
    CHECK(rc == (int64_t)(n0 + n1) || rc == TO || rc == INTR, "a transfer is done, interrupted or timed out");
    if (rc == TO) {
        REACH("timeout"); CHECK(T >= 0, "a transfer without timeout does not time out"); CHECK(event != BEFORE || T == 0 , "an interrupted transfer reports the interruption");
        CHECK(T == 0 ? dt == 0 : dt + slack >= T && dt <= T + 99, "a transfer times out when its timeout is over"); if (D) CHECK(T <= D + slack, "a transfer does not time out once it can be done or is interrupted");
    } else if (rc == INTR) {
        REACH("interrupted"); CHECK(interrupt || event == BEFORE, "a transfer is interrupted only on request"); CHECK(dt >= D && dt <= D + 100, "an interruption ends a transfer within the polling interval");
    } else {
        if (D) REACH("late"); CHECK(waits && dt >= D && dt <= D + 1, "a transfer is done as soon as it can be"); CHECK(T != 0, "a transfer that may not wait does not");
    }
    if (event == BEFORE) CHECK(dt <= 100 , "an interruption ends a transfer within the polling interval");
    if (dir == SEND) {
        if (rc >= 0) { cs.bt += n0 + n1; ++cs.mt; } else for (unsigned i = 0; i < p.Size(); ++i) CHECK(same(*p.fParts[i], mine + i, i ? n1 : n0), "a message that was not sent keeps its content");
    } else if (rc >= 0) {
        cr.br += n0 + n1; ++cr.mr; if (form == 0) CHECK(same(*x, mine, n0), "a message arrives with its content"); else { CHECK(q.Size() == form, "all parts are received together"); for (unsigned i = 0; i < q.Size(); ++i) CHECK(same(*q.fParts[i], mine + i, i ? n1 : n0), "a message arrives with its content"); }
    }
    if (th.joinable()) th.join(); bool sent = dir == SEND ? rc >= 0 : event == PEER;
    counters(*s, cs); counters(*r, cr);
    // afterwards everything works as before, and what was not sent has left no trace
    if (event == INTERRUPT || event == BEFORE) { if (sym_choice("resume", 2)) { f.Resume(); REACH("resumed"); } }
    for (; queued > 0; --queued, ++first) { auto y = f.CreateMessage(); CHECK(r->Receive(y, 0) == 10 && same(*y, first, 10), "messages are received in the order they were sent"); cr.br += 10; ++cr.mr; }
    if (dir == SEND && !sent) { if (!connected && event == LATE_CONNECT && T == 0) {} CHECK(send(form, p, 0) == (int64_t)(n0 + n1), "a message that was not sent can be sent later"); sent = true; cs.bt += n0 + n1; ++cs.mt; }
    if (sent && !(dir == RECEIVE && rc >= 0)) {
        Parts z; if (form == 0) { auto y = f.CreateMessage(); CHECK(r->Receive(y, 0) == (int64_t)n0, "what was sent arrives"); z.AddPart(std::move(y)); } else CHECK(r->Receive(z.fParts, 0) == (int64_t)(n0 + n1) && z.Size() == form, "all parts are received together");
        for (unsigned i = 0; i < z.Size(); ++i) CHECK(same(*z.fParts[i], mine + i, i ? n1 : n0), "a message arrives with its content"); cr.br += n0 + n1; ++cr.mr;
    }
    auto y = f.CreateMessage(); auto last = r->Receive(y, 0); CHECK(last == TO || last == INTR, "what was sent arrives once"); counters(*s, cs); counters(*r, cr);
#else
    static const char* types[] = {"push", "pull", "pub", "sub", "pair", "req", "rep", "dealer"}; unsigned t = sym_choice("type", 8); bool canSend = t != 1 && t != 3, canReceive = t != 0 && t != 2; Counts c;
    unsigned op = sym_choice("operation", 4); static const int timeouts[] = {0, -1, 100}; int T = timeouts[sym_choice("timeout", 3)];
    if (SH && (t == 2 || t == 3)) { bool thrown = false; try { f.CreateSocket(types[t], "x"); } catch (const SocketError&) { thrown = true; } CHECK(thrown, "a socket type the transport does not support is refused"); sym_end(); }
    if (op < 2) {   // transfers a socket cannot do are refused, whatever the timeout
        auto s = f.CreateSocket(types[t], "x"); CHECK(s->Bind("tcp://127.0.0.1:5000"), "sockets bind and connect"); int64_t rc; int mine = serial; bool parts = sym_choice("parts", 2);
        if (op == 0) { bool wrong = !canSend || t == 6; if (!wrong) sym_end(); Parts p; p.AddPart(make(f, 10)); if (parts) p.AddPart(make(f, 20)); rc = parts ? s->Send(p.fParts, T) : s->Send(p.fParts[0], T); CHECK(same(*p.fParts[0], mine, 10) && (!parts || same(*p.fParts[1], mine + 1, 20)), "a message that was not sent keeps its content"); }
        else { bool wrong = !canReceive || t == 5; if (!wrong) sym_end(); auto x = f.CreateMessage(); Parts p; rc = parts ? s->Receive(p.fParts, T) : s->Receive(x, T); CHECK(p.Size() == 0 && x->GetSize() == 0, "a refused receive delivers nothing"); }
        CHECK(rc == ERR, "a transfer the socket cannot do is an error"); counters(*s, c); REACH("refused");
    } else if (op == 2) {   // sizes
        if (t) sym_end(); auto s = f.CreateSocket("push", "x"), r = f.CreateSocket("pull", "y"); CHECK(s->Bind("tcp://127.0.0.1:5000") && r->Connect("tcp://127.0.0.1:5000"), "sockets bind and connect"); Counts cr; Parts p; int64_t total = 0; vector<size_t> ns; unsigned n = 1 + sym_choice("parts", 3);
        for (unsigned i = 0; i < n; ++i) { static const size_t sz[] = {10, 0, 100, 3000000000ull}; size_t k = sz[sym_choice("size", SH ? 3 : 4)]; if (k > 1000) { REACH("huge"); p.AddPart(f.CreateMessage((void*)make, k, [](void*, void*) {}, nullptr)); } else p.AddPart(make(f, k)); total += k; ns.push_back(k); }
        bool single = n == 1 && sym_choice("single", 2); auto rc = single ? s->Send(p.fParts[0], T) : s->Send(p.fParts, T); CHECK(rc == total, "sending reports the size of the transfer"); c.bt += total; ++c.mt; counters(*s, c);
        if (n == 1 && (single || !SH) && sym_choice("receive single", 2)) { auto x = f.CreateMessage(); CHECK(r->Receive(x, T) == total && x->GetSize() == ns[0], "receiving reports the size of the transfer"); }
        else if (!(SH && single)) { Parts q; q.AddPart(make(f, 7)); CHECK(r->Receive(q.fParts, T) == total, "receiving reports the size of the transfer"); CHECK(q.Size() == 1 + n && q.fParts[0]->GetSize() == 7, "received parts are appended"); for (unsigned i = 0; i < n; ++i) CHECK(q.fParts[1 + i]->GetSize() == ns[i], "all parts are received together"); }
        else sym_end();
        cr.br += total; ++cr.mr; counters(*r, cr); counters(*s, c);
    } else {    // no parts at all
        if (SH || !canSend) sym_end(); auto s = f.CreateSocket(types[t], "x"); Parts p; CHECK(s->Send(p.fParts, T) == ERR, "sending no message at all is an error"); counters(*s, c); REACH("refused");
    }
#endif
    REACH("done");
}
