//@ property P40
//@ sources fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ flags -DVP_LOG
//@ bounds three sub-channels of two channels with a rate logging period of 0 to 3 s (quick) or 0 to 4 s (thorough) each, two times in running of 1.75 to 7.25 s, ended by a transition or by the device; a symbolic increment of 8 bits of messages and bytes in one second; a stop request with up to 2 (quick) or 3 (thorough) preemptions
//@ variant rates -DWHAT=0 +quick=60 +thorough=400
//@ variant values -DWHAT=1 +quick=60 +thorough=400
//@ variant stop -DWHAT=2 +quick=60 +thorough=300
//@ require done line@rates,values silent@rates
#include <harness/device.h>
#include <thread>
#include <cmath>
using namespace fair::mq; using std::string;
#ifdef THOROUGH
const int PERIODS = 5, PRE = 3;
#else
const int PERIODS = 4, PRE = 2;
#endif
static mock::Sock* sock[3]; static const char* NAME[] = {"ctl[0]", "data[0]", "data[1]"};
static int period[3], lines[3], early[3]; static int64_t lastTime[3], started; static double last[3][4]; static bool running = false, stopping = false; static string junk;
static double counter(int s, int i) { return i == 0 ? sock[s]->messagesRx : i == 1 ? sock[s]->bytesRx / 1e6 : i == 2 ? sock[s]->messagesTx : sock[s]->bytesTx / 1e6; }
static double sec(int64_t ns) { return ns / 1e9; }
void vpLog(const VpLine& l)
{
    size_t in = l.text.find("in:"); if (in == string::npos || l.text.find("out:") == string::npos) return;
    int s = -1; for (int i = 0; i < 3; ++i) if (l.text.find(NAME[i]) < in) s = i;
    CHECK(s >= 0 && period[s] > 0, "rates are logged for the sub-channels that ask for it, under their name"); CHECK(running, "rates are logged in the running state only");
    double v[4]; if (l.nums == 4) for (int i = 0; i < 4; ++i) v[i] = l.num[i]; else CHECK(sscanf(l.text.c_str() + in, "in: %lf (%lf MB) out: %lf (%lf MB)", &v[0], &v[1], &v[2], &v[3]) == 4, "a line has the rates of both directions");
    double el = sec(rt_now() - lastTime[s]), total = sec(rt_now() - started);
    if (!stopping) { ++lines[s]; CHECK(std::fabs(total - lines[s] * period[s]) < 0.05, "a line is logged once per period"); } else CHECK(++early[s] == 1, "at most one line is logged when running ends");
    for (int i = 0; i < 4; ++i) { double d = counter(s, i) - last[s][i], got = v[i] * el; CHECK(got <= d * 1.01 + 1e-9 && got >= d * 0.99 - 1e-9, "the rates are those of the time since the previous line"); last[s][i] = counter(s, i); }
    lastTime[s] = rt_now(); REACH("line");
}
struct Dev : Device
{
    using Device::Device; int quarters = 0; int run = 0; bool self = false;
    void PreRun() override
    {
        running = true; stopping = false; started = rt_now(); sock[0] = (mock::Sock*)&GetChannel("ctl").GetSocket(); sock[1] = (mock::Sock*)&GetChannel("data", 0).GetSocket(); sock[2] = (mock::Sock*)&GetChannel("data", 1).GetSocket();
        for (int s = 0; s < 3; ++s) { lines[s] = early[s] = 0; lastTime[s] = started; for (int i = 0; i < 4; ++i) last[s][i] = counter(s, i); }
    }
    void Run() override
    {
        ++run;
#if WHAT == 2
        while (!NewStatePending()) WaitFor(std::chrono::milliseconds(1500));
#else
        for (int q = 0; q < quarters; ++q) {
            std::this_thread::sleep_for(std::chrono::milliseconds(250));
            if (q % 4 == 1) for (int s = 0; s < 3; ++s) {
#if WHAT == 1
                unsigned a = s == 1 && q == 1 && run == 1 ? sym_u8("increment") : 1, b = a;
#else
                unsigned a = 1 + (q * 7 + s * 3 + run) % 5 * 40, b = 3 + (q * 5 + s) % 7 * 1001;
#endif
                sock[s]->messagesRx += a; sock[s]->bytesRx += 1000 * b; sock[s]->messagesTx += 2 * a + s; sock[s]->bytesTx += 3000000000ul * b;
            }
        }
        for (int s = 0; s < 3; ++s) { CHECK(lines[s] == (period[s] ? quarters / 4 / period[s] : 0), "a line is logged once per period"); if (!lines[s]) REACH("silent"); }
        stopping = true; if (self) return; ChangeState(Transition::Stop);
#endif
    }
};
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); rt_timeouts(false); rt_order(false);
#if WHAT == 0
    for (int s = 0; s < 3; ++s) period[s] = sym_choice("period", s == 0 ? 2 : PERIODS); static const int Q[] = {29, 7, 13, 18}; int q0 = sym_choice("time", 4); bool self = sym_choice("ends itself", 2);
#else
    period[0] = 0; period[1] = WHAT == 2 ? 1 : 1 + sym_choice("period", 3); period[2] = 0; static const int Q[] = {14, 14, 14, 14}; int q0 = 0; bool self = false;
#endif
    Channel a("push", "bind", "tcp://*:5"), b("pull", "bind", "tcp://*:6"), c("sub", "connect", "tcp://localhost:9"); c.UpdateRateLogging(period[0]); a.UpdateRateLogging(period[1]); b.UpdateRateLogging(period[2]);
    o.AddChannel("data", a); o.AddChannel("data", b); o.AddChannel("ctl", c); o.SetProperty<string>("id", "dev1"); o.SetProperty<string>("session", "s");
    Dev* dp = new Dev(o); Dev& d = *dp; d.self = self;
#if WHAT == 2
    rt_deadlock("ending the running state ends rate logging");
    std::thread ctl([&] {
        auto go = [&](Transition t) { rt_checkpoint(); CHECK(d.ChangeState(t), "a legal transition is accepted"); };
        go(Transition::InitDevice); d.WaitForState(State::InitializingDevice); go(Transition::CompleteInit); d.WaitForState(State::Initialized); go(Transition::Bind); d.WaitForState(State::Bound); go(Transition::Connect); d.WaitForState(State::DeviceReady);
        go(Transition::InitTask); d.WaitForState(State::Ready); go(Transition::Run); d.WaitForState(State::Running); std::this_thread::sleep_for(std::chrono::milliseconds(sym_choice("after", 3) * 1000)); rt_order(true); rt_preempt(PRE); stopping = true; go(Transition::Stop);
        int64_t t = rt_now(); d.WaitForState(State::Ready); rt_preempt(0); CHECK(rt_now() - t < 900000000, "ending the running state does not wait for the rate logging period"); running = false; go(Transition::ResetTask); d.WaitForState(State::DeviceReady); go(Transition::ResetDevice); d.WaitForState(State::Idle); go(Transition::End);
    });
    d.RunStateMachine(); ctl.join();
#else
    static int runs = 0;
    d.SubscribeToStateChange("ctrl", [&](State s) {
        if (s == State::Ready) running = false;
        switch (s) {
        case State::Idle: d.ChangeState(runs ? Transition::End : Transition::InitDevice); break;
        case State::InitializingDevice: d.ChangeState(Transition::CompleteInit); break; case State::Initialized: d.ChangeState(Transition::Bind); break; case State::Bound: d.ChangeState(Transition::Connect); break;
        case State::DeviceReady: d.ChangeState(runs ? Transition::ResetDevice : Transition::InitTask); break;
        case State::Ready: if (runs < 2) { d.quarters = Q[(q0 + runs) % 4]; ++runs; d.ChangeState(Transition::Run); } else d.ChangeState(Transition::ResetTask); break;
        default: break;
        }
    });
    d.RunStateMachine(); CHECK(d.run == 2, "a device runs as often as it is told to");
#endif
    delete dp; REACH("done");
}
