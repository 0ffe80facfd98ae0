//@ property P34
//@ sources fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds one or two input channels with one or two sub-channels, message or multipart callbacks, one or two transports, up to 2 (quick) or 3 (thorough) queued transfers per sub-channel, the callback that returns false, throws or requests a transition at any position; a controlling thread with 2 (quick) or 3 (thorough) preemptions
//@ variant history -DWHAT=0 +quick=150 +thorough=900
//@ variant sched -DWHAT=1 +quick=120 +thorough=900
//@ require all@history endfalse@history thrown@history multi@history single@history parts@history stopped@sched false2@sched
#include <harness/device.h>
#include <thread>
using namespace fair::mq; using std::string; using std::vector;
#ifdef THOROUGH
const int Q = 3, SQ = 2, PRE = 3;
#else
const int Q = 2, SQ = 1, PRE = 2;
#endif
struct Rec { int chan, index, id; }; static vector<Rec> got; static int inCallback = 0, maxIn = 0; static bool ended = false, threw = false, stopReq = false, runOver = false; static int endAt = -1, throwAt = -1, stopAt = -1; static int kind[2];
static int idOf(int c, int i, int n) { return 100 * c + 10 * i + n; }
struct Dev : Device
{
    using Device::Device; int runs = 0;
    bool note(int c, int id, int index)
    {
        CHECK(inCallback == 0, "data callbacks never run at the same time"); CHECK(!ended, "no data callback is called after one has returned false"); CHECK(!threw, "no data callback is called after one has failed"); CHECK(!runOver, "data callbacks are called in the running state");
        ++inCallback; rt_checkpoint(); int n = (int)got.size(); got.push_back({c, index, id});
        if (n == throwAt) { threw = true; --inCallback; throw std::runtime_error("callback"); }
        if (n == stopAt) { stopReq = true; bool r = ChangeState(Transition::Stop); CHECK(r || NewStatePending(), "a running device can be stopped"); }
        --inCallback; if (n == endAt) { ended = true; return false; } return true;
    }
    bool msg(int c, MessagePtr& m, int index) { CHECK(m && m->GetSize() == 4, "the callback gets the message that was received"); int id; memcpy(&id, m->GetData(), 4); if (id % 2) MessagePtr taken(std::move(m)); return note(c, id, index); }
    bool parts(int c, Parts& p, int index) { CHECK(p.Size() == 2 && p[0].GetSize() == 4 && p[1].GetSize() == 1, "the callback gets all parts of the message that was received"); int id; memcpy(&id, p[0].GetData(), 4); return note(c, id, index); }
    bool member(MessagePtr& m, int i) { return msg(0, m, i); }
    bool memberParts(Parts& p, int i) { return parts(0, p, i); }
    void PostRun() override { runOver = true; ++runs; } void PreRun() override { runOver = false; }
    void Run() override { sym_fail("Run is called although data callbacks are registered"); } bool ConditionalRun() override { sym_fail("ConditionalRun is called although data callbacks are registered"); return false; }
};
static int nsub[2], nq[2][2];
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); o.SetProperty<string>("id", "d"); o.SetProperty<string>("session", "s"); rt_timeouts(false);
    static const char* names[] = {"in", "other"}; int nc = 1 + (int)sym_choice("channels", 2); bool two = nc == 2 && sym_choice("transports", 2);
    if (WHAT == 1) sym_assume(nc == 2 && two);
    for (int c = 0; c < nc; ++c) {
        nsub[c] = WHAT == 1 ? 1 : 1 + (int)sym_choice("sub-channels", c == 0 && !two ? 2 : 1); kind[c] = sym_choice("multipart", 2); if (WHAT == 1) sym_assume(kind[c] == c);
        for (int i = 0; i < nsub[c]; ++i) { Channel ch("pull", "bind", "tcp://*:" + std::to_string(5 + 2 * c + i)); ch.UpdateRateLogging(0); if (c == 1 && two) ch.UpdateTransport("shmem"); o.AddChannel(names[c], ch); nq[c][i] = (int)sym_choice("queued", Q + 1); if (WHAT == 1) sym_assume(nq[c][i] == SQ); }
    }
    int total = 0; for (int c = 0; c < nc; ++c) for (int i = 0; i < nsub[c]; ++i) total += nq[c][i];
    mock::onBind() = [&](mock::Sock* s, const string& a) { int p = atoi(a.c_str() + 8) - 5, c = p / 2, i = p % 2; for (int n = 0; n < nq[c][i]; ++n) { vector<MessagePtr> v; int id = idOf(c, i, n); auto m = s->f->CreateMessage(4); memcpy(m->GetData(), &id, 4); v.push_back(std::move(m)); if (kind[c]) v.push_back(s->f->CreateMessage(1)); s->in.q.push_back(std::move(v)); } };
#if WHAT == 0
    unsigned end = sym_choice("end", 4); int pos = (int)sym_choice("at", 4); sym_assume(end == 0 ? pos == 0 : pos < total); if (end == 1) endAt = pos; if (end == 2) throwAt = pos; if (end == 3) stopAt = pos;
#else
    unsigned end = sym_choice("end", 2); if (end) endAt = (int)sym_choice("at", 2 * SQ);
#endif
    Dev* dp = new Dev(o); Dev& d = *dp;
    bool mem = WHAT == 0 && nc == 1 && sym_choice("member function", 2);
    if (kind[0]) { if (mem) d.OnData("in", &Dev::memberParts); else d.OnData("in", [&d](Parts& p, int i) { return d.parts(0, p, i); }); } else if (mem) d.OnData("in", &Dev::member); else d.OnData("in", [&d](MessagePtr& m, int i) { return d.msg(0, m, i); });
    if (nc == 2) { if (kind[1]) d.OnData("other", [&d](Parts& p, int i) { return d.parts(1, p, i); }); else d.OnData("other", [&d](MessagePtr& m, int i) { return d.msg(1, m, i); }); }
    if (nc == 1 && nsub[0] == 1) REACH("single"); if (two) REACH("multi"); if (kind[0]) REACH("parts");
    static bool exiting = false; static State before = State::Undefined; bool err = false; static size_t leftover[2][2];
    d.SubscribeToStateChange("ctrl", [&](State s) {
        auto go = [&](Transition t) { CHECK(d.ChangeState(t), "a legal transition is accepted"); };
        switch (s) {
        case State::Idle: go(exiting ? Transition::End : Transition::InitDevice); break; case State::InitializingDevice: go(Transition::CompleteInit); break; case State::Initialized: go(Transition::Bind); break; case State::Bound: go(Transition::Connect); break;
        case State::DeviceReady: go(exiting ? Transition::ResetDevice : Transition::InitTask); break;
        case State::Ready: if (!exiting && before != State::Running) go(Transition::Run); else { exiting = true; for (int c = 0; c < nc; ++c) for (int i = 0; i < nsub[c]; ++i) leftover[c][i] = ((mock::Sock*)&d.GetChannel(names[c], i).GetSocket())->in.q.size(); go(Transition::ResetTask); } break;
        default: break;
        }
        before = s;
    });
    rt_deadlock("running ends once a transition is requested or a callback returned false");
#if WHAT == 0
    // when nothing is left to do the device is stopped
    mock::onIdle() = [&] { bool r = d.ChangeState(Transition::Stop); return r; };
    if (two) mock::onIdle() = nullptr;
    std::thread stopper; if (two) stopper = std::thread([&] { d.WaitForState(State::Running); while ((int)got.size() < total && !ended && !threw && !stopReq) std::this_thread::sleep_for(std::chrono::seconds(3)); if (d.GetCurrentState() == State::Running) (void)d.ChangeState(Transition::Stop); });
#else
    std::thread stopper([&] { d.WaitForState(State::Running); rt_preempt(PRE); rt_checkpoint(); if (d.GetCurrentState() == State::Running && d.ChangeState(Transition::Stop)) stopReq = true; });
#endif
    try { d.RunStateMachine(); } catch (std::exception&) { err = true; }
    if (stopper.joinable()) stopper.join();
    int next[2][2] = {}; for (auto& r : got) { CHECK(r.id / 100 == r.chan && r.id / 10 % 10 == r.index, "a transfer is given to the callback of its channel with the index of its sub-channel"); CHECK(r.id % 10 == next[r.chan][r.index]++, "transfers of a sub-channel are handled once and in order"); }
    if (threw) { CHECK(err && d.GetCurrentState() == State::Error, "an exception from a data callback puts the device into the error state"); REACH("thrown"); return; }
    CHECK(!err && d.GetCurrentState() == State::Exiting && d.runs == 1, "running ends in the ready state once a transition is requested or a callback returned false");
    for (int c = 0; c < nc; ++c) for (int i = 0; i < nsub[c]; ++i) CHECK(leftover[c][i] + next[c][i] == (size_t)nq[c][i], "no transfer is taken without being handed to the callback");
#if WHAT == 0
    if (end == 0) { CHECK((int)got.size() == total, "every waiting transfer is handled"); REACH("all"); }
    if (end == 1) { CHECK((int)got.size() == pos + 1, "running ends when a callback returns false"); REACH("endfalse"); }
#else
    if (ended) REACH("false2"); if (stopReq) REACH("stopped"); if (!stopReq && !ended) CHECK(false, "running goes on until stopped");
#endif
}
