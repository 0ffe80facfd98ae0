//@ property P26
//@ sources fairmq/plugins/control/Control.cxx fairmq/PluginServices.cxx fairmq/Plugin.cxx fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds modes: all control modes with a signal (or none) at any of the first 16 events (state changes and hooks) of a device in which at most one hook takes time, one fails or running ends by itself; keys: all sequences of 3 (quick) or 4 (thorough) of the 9 control keys, then a signal or the quit key; sched: the shutdown by a signal at any event with 1 preemption before the reset of the device (quick) or at any time (thorough)
//@ assume signals are delivered at the events; stdin is a script
//@ variant modes -DWHAT=0
//@ variant keys -DWHAT=1 +quick=60 +thorough=500
//@ variant sched -DWHAT=2 +quick=150 +thorough=850
//@ require done signal@modes,sched error@modes self@modes stolen@modes quit@keys
#include <harness/device.h>
#include <fairmq/plugins/control/Control.h>
#include <csignal>
#include <iostream>
#include <poll.h>
#include <thread>
using namespace fair::mq; using std::string;
#ifdef THOROUGH
const bool DEEP = true;
#else
const bool DEEP = false;
#endif
const int64_t MS = 1000000;
static string script; static size_t scriptPos = 0;
extern "C" int poll(pollfd*, nfds_t, int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); return scriptPos < script.size(); }
extern "C" std::istream* readKey(std::istream* i, char* c) asm("_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_");
extern "C" std::istream* readKey(std::istream* i, char* c) { *c = scriptPos < script.size() ? script[scriptPos++] : '?'; return i; }
static int runs = 0, events = 0, signalAt = -1, slowAt = -1, failAt = -1, hookNo = 0; static bool slowNext = false, signalled = false, failed = false, selfStop = false; static string hooks, states;
static void event() { if (events++ == signalAt) { signalled = true; rt_raise(SIGTERM); if (slowNext) slowAt = hookNo; if (WHAT == 2) { rt_timeouts(true); rt_preempt(1); } } }
struct Dev : Device
{
    using Device::Device;
    void hook(char c) { hooks += c; event(); int n = hookNo++; if (n == slowAt) std::this_thread::sleep_for(std::chrono::milliseconds(250)); if (n == failAt) { failed = true; throw std::runtime_error("hook"); } }
    void Init() override { hook('i'); } void Bind() override { hook('b'); } void Connect() override { hook('c'); } void InitTask() override { hook('t'); }
    void Run() override { hook('r'); while (!selfStop && !NewStatePending()) { WaitFor(std::chrono::milliseconds(1000)); if (++runs > 3 && signalAt >= 0 && !signalled && WHAT != 1) { signalled = true; rt_raise(SIGTERM); } } }
    void ResetTask() override { hook('u'); } void Reset() override { hook('d'); }
};
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit); rt_order(false); rt_timeouts(false); rt_clock_step(0);
    ProgOptions& o = *new ProgOptions(); Channel a("push", "bind", "tcp://*:5"); a.UpdateRateLogging(0); o.AddChannel("data", a); o.SetProperty<string>("id", "dev1"); o.SetProperty<string>("session", "s"); o.SetProperty<bool>("color", false);
    const char* modes[7] = {"static", "dynamic", "gui", "none", "interactive", "external", "whatever"}; unsigned mode = WHAT == 1 ? 1 : sym_choice("mode", WHAT == 2 ? (DEEP ? 3 : 2) : 7); bool catching = WHAT || mode == 3 || sym_choice("catch signals", 2);
    o.SetProperty<string>("control", modes[mode]); o.SetProperty<int>("catch-signals", catching); bool isStatic = mode == 0 || mode == 6;
    bool ended = false; std::thread watchdog([&] { for (int i = 0; i < 60; ++i) std::this_thread::sleep_for(std::chrono::seconds(1)); CHECK(ended, signalled ? "a signal ends the device orderly, whenever it comes" : "the controller drives the device to its end"); }); watchdog.detach();
#if WHAT == 0
    unsigned kind = sym_choice("what", 4); if (kind == 1) slowAt = sym_choice("slow hook", 7); if (kind == 2) failAt = sym_choice("failing hook", 7); if (kind == 3) selfStop = true;
    if (catching) signalAt = (int)sym_choice("signal at", 17) - 1;
    sym_assume(signalAt >= 0 || (isStatic && selfStop) || (kind == 2 && failAt < 5));    // else nothing ends it
#elif WHAT == 1
    static const char K[] = "ibxjrstdc"; const unsigned n = DEEP ? 4 : 3; bool quit = sym_choice("quit", 2); for (unsigned i = 0; i < n; ++i) script += K[sym_choice("key", 9)]; if (quit) script += 'q'; else signalAt = 1000;
#else
    signalAt = sym_choice("signal at", 16); slowNext = sym_choice("slow hook after the signal", 2); selfStop = mode == 0 && sym_choice("ends itself", 2);
#endif
    Dev* d = new Dev(o); PluginServices* ps = new PluginServices(o, *d); State last = State::Idle; bool first = true;
    d->SubscribeToStateChange("obs", [&](State s) { CHECK(first || s == State::Error || model::joined(last, s), "a device follows the state machine"); first = false; last = s; states += char('a' + (int)s); event(); if (WHAT == 2 && !DEEP && (s == State::ResettingTask || s == State::ResettingDevice)) { rt_preempt(0); rt_timeouts(false); } });
    plugins::Control* c = new plugins::Control("control", {1, 0, 0}, "m", "h", ps);
    auto ctl = ps->GetDeviceController(); CHECK(mode == 3 ? !ctl : ctl && *ctl == "control", "the control plugin takes control unless it is disabled");
    std::thread other([&] {      // another plugin is in control
        if (mode != 3) return; int n = 0; auto until = [&](State s) { while (d->GetCurrentState() != s && d->GetCurrentState() != State::Error && d->GetCurrentState() != State::Exiting && !signalled) std::this_thread::sleep_for(std::chrono::milliseconds(10)); };
        try { ps->TakeDeviceControl("other"); const Transition w[6] = {Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run}; const State r[6] = {State::InitializingDevice, State::Initialized, State::Bound, State::DeviceReady, State::Ready, State::Running}; for (n = 0; n < 6; ++n) { ps->ChangeDeviceState("other", w[n]); until(r[n]); } } catch (PluginServices::DeviceControlError&) { REACH("stolen"); }
        if (signalled) { std::this_thread::sleep_for(std::chrono::milliseconds(300)); bool refused = false; try { ps->ChangeDeviceState("other", Transition::InitDevice); } catch (PluginServices::DeviceControlError&) { refused = true; } if (refused) REACH("stolen"); }
    });
#if WHAT == 1
    std::thread sig([&] { if (script.back() == 'q') return; while (scriptPos < script.size()) std::this_thread::sleep_for(std::chrono::milliseconds(50)); std::this_thread::sleep_for(std::chrono::milliseconds(50)); signalled = true; rt_raise(SIGINT); });
#endif
    bool err = false; try { d->RunStateMachine(); } catch (std::exception&) { err = true; }
    rt_preempt(0); rt_timeouts(false);
    CHECK(err == failed && d->GetCurrentState() == (failed ? State::Error : State::Exiting), "a device whose hooks do not fail ends in the exiting state");
    if (!failed) { ps->WaitForReleaseDeviceControl(); int up = 0, ut = 0; for (char x : hooks) { up += x == 'i'; up -= x == 'd'; ut += x == 't'; ut -= x == 'u'; } CHECK(up == 0 && ut == 0, "what has been initialized is reset before the end"); if (signalled) REACH("signal"); if (isStatic && !signalled) { CHECK(hooks == "ibctrud", "a statically controlled device goes through all its states once"); REACH("self"); } } else REACH("error");
#if WHAT == 1
    if (!signalled) REACH("quit"); sig.join();
#endif
    if (!signalled && catching) { auto t = rt_now(); delete c; CHECK(rt_now() - t <= 200 * MS, "the plugin can be destroyed once the device has ended"); } else delete c;
    other.join(); ended = true; CHECK(!ps->GetDeviceController() || failed || mode == 3, "control is released at the end"); delete ps; delete d;
    REACH("done"); sym_end();
}
