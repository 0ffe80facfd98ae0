//@ property P33
//@ sources fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds every sequence of 13 (quick) or 19 (thorough) legal controller decisions over all waiting states, then the shortest way to the end; one exception or error request at any hook; two channels; a controlling thread with 3 (quick) or 4 (thorough) preemptions
//@ variant life -DWHAT=0 +quick=100 +thorough=800
//@ variant fault -DWHAT=1
//@ variant control -DWHAT=2 +quick=120 +thorough=900
//@ require ended@life again@life hooks@life failed@fault errreq@fault stopped@control selfstop@control interrupted@control
#include <harness/device.h>
#include <thread>
using namespace fair::mq; using std::string; using model::next;
#ifdef THOROUGH
const int DEC = 19, PRE = 4;
#else
const int DEC = 13, PRE = 3;
#endif
static int failAt = -1, errAt = -1, hookNo, inits; static string hooks; static bool failed, errReq;
struct Boom {};
struct Dev : Device
{
    using Device::Device; int loops = 0, loop = 0; unsigned selfStop = 0;
    void hook(char c)
    {
        hooks += c; int n = hookNo++;
        for (auto& f : fTransports) CHECK(WHAT == 2 || !((mock::Factory*)f.second.get())->interrupted || NewStatePending(), "the transports of the device are usable while a state is handled and no transition is pending");
        if (n == errAt) { errReq = true; CHECK(ChangeState(Transition::ErrorFound), "an error request is accepted"); for (auto& f : fTransports) CHECK(((mock::Factory*)f.second.get())->interrupted, "a requested transition interrupts the transports"); }
        if (n == failAt) { failed = true; throw std::runtime_error("hook"); }
    }
    void channels(bool have) { CHECK(GetChannels().size() == (have ? 2u : 0u), "channels exist from initialization to reset"); if (!have) return; CHECK(GetNumSubChannels("data") == 2 && GetNumSubChannels("ctl") == 1, "a channel has the configured number of sub-channels"); }
    void Init() override { hook('i'); channels(false); ++inits; }
    void Bind() override { hook('b'); channels(true); for (int i = 0; i < 2; ++i) { auto* s = (mock::Sock*)&GetChannel("data", i).GetSocket(); CHECK(s->bound.size() == 1 && s->bound[0] == "tcp://*:" + std::to_string(5 + i), "binding channels are bound once to their address before Bind is called"); } CHECK(GetChannel("data", 1).GetTransportType() == Transport::SHM && GetChannel("data", 0).GetTransportType() == Transport::ZMQ, "a channel uses its transport, else the default one"); }
    void Connect() override { hook('c'); auto* s = (mock::Sock*)&GetChannel("ctl").GetSocket(); CHECK(s->connected.size() == 1 && s->connected[0] == "tcp://127.0.0.1:9", "connecting channels are connected once before Connect is called"); bool t = false; try { GetChannel("ctl", 1); } catch (std::out_of_range&) { t = true; } CHECK(t, "an unknown sub-channel is refused"); }
    void InitTask() override { hook('t'); channels(true); } void PreRun() override { hook('<'); loop = 0; } bool ConditionalRun() override { hook('o'); return ++loop < loops; }
    void Run() override { hook('r'); if (selfStop == 1) { bool r = ChangeState(Transition::Stop); CHECK(r || NewStatePending(), "a running device can be stopped"); } else if (selfStop == 2) { MessagePtr m(NewMessageFor("ctl", 0)); int64_t r = Receive(m, "ctl"); CHECK(r == (int64_t)TransferCode::interrupted, "a requested transition interrupts a waiting transfer"); REACH("interrupted"); } } void PostRun() override { hook('>'); CHECK(NewStatePending(), "PostRun is called once running has ended"); }
    void ResetTask() override { hook('u'); channels(true); }
    void Reset() override { hook('d'); CHECK(GetChannels().size() == 2, "channels exist until Reset was called"); }
};
static void configure(ProgOptions& o)
{
    Channel a("push", "bind", "tcp://*:5"), b("pull", "bind", "tcp://*:6"), c("sub", "connect", "tcp://localhost:9"); for (auto* x : {&a, &b, &c}) x->UpdateRateLogging(0); b.UpdateTransport("shmem");
    o.AddChannel("data", a); o.AddChannel("data", b); o.AddChannel("ctl", c); o.SetProperty<string>("id", "dev1"); o.SetProperty<string>("session", "s");
}
static const char* hooksOf(State s) { switch (s) { case State::InitializingDevice: return "i"; case State::Binding: return "b"; case State::Connecting: return "c"; case State::InitializingTask: return "t"; case State::ResettingTask: return "u"; case State::ResettingDevice: return "d"; default: return ""; } }
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); configure(o); string expected, states; Dev* dp = new Dev(o); Dev& d = *dp; d.loops = 1 + (WHAT != 2 && sym_choice("loops", 2)); static int decisions = 0; static bool resume = true;
    string runHooks = string("<") + string(d.loops, 'o') + "r>";
#if WHAT < 2
    static State last = State::Idle; bool first = true;
    d.selfStop = sym_choice("stop in run", 2);
    d.SubscribeToStateChange("ctrl", [&](State s) {
        if (!first) CHECK(s == State::Error || model::joined(last, s), "a device follows the state machine");
        first = false; last = s;
        for (auto& f : env::factories()) if (s != State::Error && f->resets == 0) CHECK(!f->interrupted, "the transports are resumed before a state is handled");
        if (s != State::Error) { expected += hooksOf(s); if (s == State::Running) expected += runHooks; }
        if (s == State::InitializingDevice) { if (inits) REACH("again"); CHECK(d.ChangeState(Transition::CompleteInit), "initialization can be completed"); return; }
        Transition opts[4]; int n = 0;
        for (int t = 0; t < model::NT; ++t) { auto tr = static_cast<Transition>(t); if (tr != Transition::Auto && tr != Transition::ErrorFound && next(s, tr) != State::Undefined) opts[n++] = tr; }
        if (n == 0 || s == State::Running) return;
        Transition t;
        if (WHAT == 1) { static const Transition way[] = {Transition::InitDevice, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run, Transition::ResetTask, Transition::ResetDevice, Transition::End}; t = way[decisions++]; }
        else if (decisions++ < DEC) t = opts[n == 1 ? 0 : sym_choice("decision", n)];
        else t = s == State::Idle ? Transition::End : s == State::Ready ? Transition::ResetTask : Transition::ResetDevice;
        std::vector<int> before; for (auto& f : env::factories()) before.push_back(f->interrupts);
        CHECK(d.ChangeState(t), "a legal transition is accepted");
    });
#if WHAT == 1
    unsigned kind = sym_choice("kind", 3); int at = (int)sym_choice("hook", 10); if (kind == 0 || kind == 2) failAt = at; if (kind) errAt = at; // an exception, an error request, an error request followed by an exception
#endif
    bool err = false; try { d.RunStateMachine(); } catch (std::exception&) { err = true; }
#if WHAT == 0
    CHECK(!err && d.GetCurrentState() == State::Exiting, "a device driven legally ends in the exiting state"); CHECK(hooks == expected, "every state calls its hooks once and in order"); REACH("ended"); if (hooks.size() > 6) REACH("hooks");
    for (auto& f : env::factories()) { CHECK(f.use_count() == 1, "a reset device has released its transports"); CHECK(f->resets == 1, "a transport is reset when the device is reset"); for (auto* s : f->sockets) CHECK(s == nullptr, "a reset device has released its sockets"); }
    CHECK(d.GetChannels().empty(), "a reset device has no channels"); CHECK((int)env::factories().size() == 2 * inits, "one transport of each needed kind is created per initialization"); CHECK(inits == 0 || d.GetId() == "dev1", "the device id is taken from the configuration");
#else
    if (failed || errReq) { CHECK(err && d.GetCurrentState() == State::Error, "a failing hook or an error request ends in the error state, reported by an exception"); if (failed) REACH("failed"); if (errReq) REACH("errreq"); CHECK(failed == false || (int)hooks.size() == failAt + 1, "no hook is called after one has failed"); CHECK(last == State::Error, "subscribers are told of the error state"); size_t upto = failed ? hooks.size() : errAt + 1; CHECK(expected.compare(0, upto, hooks, 0, upto) == 0 && hooks.find_first_not_of("or>", upto) == string::npos, "hooks are called in order, and only those of the state in which an error was requested afterwards"); }
    else CHECK(!err && hooks == expected, "every state calls its hooks once and in order");
    CHECK(!d.ChangeState(Transition::End), "the error and the exiting state are final");
#endif
    delete dp; for (auto& f : env::factories()) CHECK(f.use_count() == 1, "a destroyed device has released its transports");
#else
    // a controlling thread; Run ends by itself or is stopped, at any time
    sym_mode("limit-violation", 1); d.selfStop = sym_choice("run waits", 2) * 2; static bool stopOk = false, stopRejected = false;
    mock::onIdle() = [&] { ((mock::Factory*)d.GetChannel("ctl").Transport())->waitInterrupt(); return true; }; rt_deadlock("a transition requested at any time interrupts a waiting transfer");
    std::thread ctl([&] {
        auto go = [&](Transition t) { rt_checkpoint(); CHECK(d.ChangeState(t), "a legal transition is accepted"); };
        go(Transition::InitDevice); d.WaitForState(State::InitializingDevice); go(Transition::CompleteInit); d.WaitForState(State::Initialized); go(Transition::Bind); d.WaitForState(State::Bound); go(Transition::Connect); d.WaitForState(State::DeviceReady);
        go(Transition::InitTask); d.WaitForState(State::Ready); rt_preempt(PRE); go(Transition::Run); rt_checkpoint(); if (d.GetCurrentState() != State::Running) d.WaitForState(State::Running);
        if (d.ChangeState(Transition::Stop)) stopOk = true; else stopRejected = true; // Run may have ended meanwhile
        d.WaitForState(State::Ready); rt_preempt(0); go(Transition::ResetTask); d.WaitForState(State::DeviceReady); go(Transition::ResetDevice); d.WaitForState(State::Idle); go(Transition::End);
    });
    bool err = false; try { d.RunStateMachine(); } catch (std::exception&) { err = true; }
    CHECK(!err && d.GetCurrentState() == State::Exiting, "a stop request at the moment when running ends by itself does no harm"); ctl.join(); if (stopOk) REACH("stopped"); if (stopRejected) REACH("selfstop");
    string h = hooks; for (int i = 0; i < d.loops; ++i) if (stopOk && h.find('o') == string::npos) h.insert(h.find('r'), "o"); // a stopped device need not call ConditionalRun
    CHECK(h == "ibct" + runHooks + "ud", "every state calls its hooks once and in order");
#endif
}
