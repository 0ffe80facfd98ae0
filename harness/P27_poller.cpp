//@ property P27
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/Channel.cxx fairmq/TransportFactory.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds pollers over one to four subchannels of up to three channels (types pull, push, pair, rep, sub), built from channels, channel pointers or names with repetitions and unknown names; histories of 3 (quick) or 4 (thorough) operations - send to or receive from a channel, fill or empty a queue, poll with timeout 0, 100, -1 and an event before, within, after it or never, with one EINTR
//@ variant zmq -DSH=0 +quick=90 +thorough=400
//@ variant shm -DSH=1 +quick=150 +thorough=400
//@ variant zmqbad -DSH=0 -DBAD +quick=30
//@ variant shmbad -DSH=1 -DBAD +quick=30
//@ require done woken@zmq,shm expired@zmq,shm input@zmq,shm output@zmq,shm nothing@zmq,shm unknown@zmqbad,shmbad invalid@zmqbad twice@zmqbad,shmbad
#include <fstream>
#include <harness/shm.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Poller.h>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t; using std::string;
#ifdef THOROUGH
const unsigned OPS = 4; const bool DEEP = true;
#else
const unsigned OPS = 3; const bool DEEP = false;
#endif
static const int64_t MS = 1000000, TO = (int64_t)TransferCode::timeout;
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked");
#if SH
    auto& o = shm::options(16384, false, 0); auto f = std::make_shared<shmem::TransportFactory>("d", &o);
#else
    auto f = std::make_shared<zmq::TransportFactory>("d");
#endif
    std::unordered_map<string, vector<Channel>> M; vector<string> names; unsigned n = 0; static const char* N[] = {"in", "out", "both"};
    auto addr = [](int i) { return "tcp://127.0.0.1:500" + std::to_string(i); }; auto f1 = f; vector<SocketPtr> peer; vector<Channel*> all; vector<int> in, cap, sent; vector<string> of;   // per subchannel: messages waiting, room for messages
    auto add = [&](const char* name, unsigned k, const char* type, const char* ptype) { auto& v = M[name]; v.reserve(3); v.emplace_back(string(name) + std::to_string(k), type, f); Channel& c = v.back(); c.GetSocket().SetSndBufSize(1); string a = addr(n++); auto p = f1->CreateSocket(ptype, "p" + std::to_string(n)); p->SetRcvBufSize(1); CHECK(p->Bind(a) && c.ConnectEndpoint(a), "sockets bind and connect"); peer.push_back(std::move(p)); };
    auto send = [&](Socket& s) { auto m = f->CreateMessage(4); return s.Send(m, 0) >= 0; }; auto recv = [&](Socket& s) { auto m = f->CreateMessage(); return s.Receive(m, 0) >= 0; };
#ifdef BAD
    add("in", 0, "pull", "push"); add("in", 1, "pull", "push"); add("out", 0, "push", "pull"); unsigned what = sym_choice("what", 5); bool thrown = false; PollerPtr p;
    switch (what) {
    case 0: try { p = f->CreatePoller(M, {"in", "nope"}); } catch (const PollerError&) { thrown = true; } CHECK(thrown, "a poller of an unknown channel is refused"); REACH("unknown"); break;
    case 1: p = f->CreatePoller(M, {"in"}); try { (void)p->CheckInput("out", 0); } catch (const PollerError&) { thrown = true; } CHECK(thrown, "a question about a channel that is not polled is refused"); thrown = false; try { (void)p->CheckOutput("nope", 0); } catch (const PollerError&) { thrown = true; } CHECK(thrown, "a question about a channel that is not polled is refused"); REACH("unknown"); break;
    case 2: case 3: {   // a channel that is listed twice
        vector<string> l = what == 2 ? vector<string>{"in", "out", "in"} : vector<string>{"in", "in"}; p = f->CreatePoller(M, l); CHECK(send(*peer[1]), "sockets send"); p->Poll(0); CHECK(!p->CheckInput("in", 0) && p->CheckInput("in", 1), "a poll tells the channels with messages"); if (what == 2) CHECK(p->CheckOutput("out", 0), "a poll tells the channels with room"); REACH("twice"); break; }
    case 4: p = f->CreatePoller(M, {}); p->Poll(0); { int64_t t = rt_now(); p->Poll(100); CHECK(rt_now() - t == 100 * MS, "a poll ends with its timeout when nothing is ready"); } if (SH) REACH("invalid"); else REACH("invalid"); break;
    }
    p.reset();
#else
    unsigned set = sym_choice("channels", 4);
    if (set == 0) { add("in", 0, "pull", "push"); add("in", 1, "pull", "push"); names = {"in"}; }
    else if (set == 1) { add("in", 0, "pull", "push"); add("in", 1, "pull", "push"); add("out", 0, "push", "pull"); names = {"out", "in"}; }
    else if (set == 2) { add("out", 0, "push", "pull"); add("both", 0, "pair", "pair"); add("in", 0, SH ? "pull" : "sub", SH ? "push" : "pub"); add("out", 1, "push", "pull"); names = {"both", "in", "out"}; }
    else { add("in", 0, "rep", "req"); add("out", 0, "push", "pull"); names = {"in"}; }
    vector<std::pair<string, int>> id; vector<Socket*> peers; { std::unordered_map<string, int> at; vector<string> order = set == 0 ? vector<string>{"in", "in"} : set == 1 ? vector<string>{"in", "in", "out"} : set == 2 ? vector<string>{"out", "both", "in", "out"} : vector<string>{"in", "out"}; std::unordered_map<string, vector<Socket*>> ps; for (unsigned i = 0; i < order.size(); ++i) ps[order[i]].push_back(peer[i].get()); for (auto& nm : names) for (unsigned i = 0; i < M[nm].size(); ++i) { id.emplace_back(nm, i); all.push_back(&M[nm][i]); peers.push_back(ps[nm][i]); } }
    unsigned form = sym_choice("form", 3); PollerPtr p;
    if (form == 0) p = f->CreatePoller(M, names); else if (form == 1) p = f->CreatePoller(all); else { if (names.size() != 1) sym_end(); p = f->CreatePoller(M[names[0]]); }
    for (unsigned i = 0; i < all.size(); ++i) { string t = all[i]->GetType(); in.push_back(0); cap.push_back(t == "push" || t == "pair" ? 2 : 0); CHECK(!p->CheckInput(i) && !p->CheckOutput(i), "nothing is reported before the first poll"); }
    auto can = [&](unsigned i) { return in[i] > 0; }; auto room = [&](unsigned i) { return cap[i] > 0; };
    auto act = [&](unsigned i, unsigned what) {
        string t = all[i]->GetType();
        if (what == 0) { if (t == "push") return false; if (t == "rep" && in[i]) return false; if (in[i] >= 1) return false; CHECK(send(*peers[i]), "sockets send"); ++in[i]; }
        else if (what == 1) { if (t == "push" || t == "rep" || !in[i]) return false; CHECK(recv(all[i]->GetSocket()), "sockets receive"); --in[i]; }
        else if (what == 2) { if (t != "push" && t != "pair") return false; if (cap[i] != 2) return false; while (cap[i] > 0) { CHECK(send(all[i]->GetSocket()), "sockets send"); --cap[i]; } }
        else { if (t != "push" && t != "pair") return false; if (cap[i] != 0) return false; CHECK(recv(*peers[i]), "sockets receive"); ++cap[i]; }
        return true;
    };
    bool full = sym_choice("full at the start", 2); if (full) { bool any = false; for (unsigned i = 0; i < all.size(); ++i) any |= act(i, 2); if (!any) sym_end(); }
    for (unsigned op = 0; op < OPS; ++op) {
        if (op + 1 < OPS && ((!DEEP && op == 1) || !sym_choice("poll", 2))) { if (!act(sym_choice("subchannel", all.size()), sym_choice("action", 4))) sym_end(); continue; }
        static const int timeouts[] = {0, 100, -1}, moments[] = {0, 40, 150}; int T = timeouts[sym_choice("timeout", 3)], D = moments[sym_choice("moment", 3)]; bool ready = false; for (unsigned i = 0; i < all.size(); ++i) ready |= can(i) || room(i); if (T < 0 && !D && !ready) sym_end(); if (D && ready) sym_end();
        bool intr = sym_choice("EINTR", 2); if (intr && (ready || T == 0)) sym_end(); rt_zmq_eintr(intr); std::thread t; unsigned who = 0, what = 0; if (D) { who = sym_choice("subchannel", all.size()); string ty = all[who]->GetType(); what = ty == "push" ? 3 : 0; }
        vector<int> in0 = in, cap0 = cap; int64_t t0 = rt_now(); if (D) t = std::thread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(D)); CHECK(act(who, what), "the event takes place"); });
        p->Poll(T); int64_t dt = (rt_now() - t0) / MS; rt_zmq_eintr(0); bool woken = D && dt >= D;
        for (unsigned i = 0; i < all.size(); ++i) {
            bool r = woken ? can(i) : in0[i] > 0, w = woken ? room(i) : cap0[i] > 0; if (woken && D == T && i == who) continue;
            CHECK(p->CheckInput(i) == r, "a poll tells the channels with messages"); CHECK(p->CheckOutput(i) == w, "a poll tells the channels with room"); if (form == 0) { CHECK(p->CheckInput(id[i].first, id[i].second) == r, "a poll tells the channels with messages"); CHECK(p->CheckOutput(id[i].first, id[i].second) == w, "a poll tells the channels with room"); }
            if (r) REACH("input"); if (w) REACH("output");
        }
        if (ready) CHECK(dt == 0, "a poll ends at once when something is ready"); else if (T == 0) { CHECK(dt == 0, "a poll without waiting ends at once"); REACH("nothing"); } else if (D && (T < 0 || D < T)) { CHECK(dt >= D && dt <= D + 1, "a poll ends when something gets ready"); REACH("woken"); } else { CHECK(dt == T, "a poll ends with its timeout when nothing is ready"); REACH("expired"); }
        if (t.joinable()) t.join();
    }
    p.reset();
#endif
    M.clear(); peer.clear(); f.reset(); f1.reset(); CHECK(rt_zmq_sockets() == 0, "closing the factories closes their sockets"); REACH("done");
}
