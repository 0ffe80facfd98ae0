//@ property P18
//@ sources fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds one channel with one (forms) or two (pairs) endpoints of every protocol, host form, modifier and method, any of them refused by the socket; automatic ports with up to 3 (quick) or 6 (thorough) refused ports over ranges of 1, 2 and 1000 ports; connecting with an address that becomes known after up to 8 retry periods, or never
//@ variant forms -DWHAT=0
//@ variant pairs -DWHAT=1 +quick=60
//@ variant autobind -DWHAT=2
//@ variant retry -DWHAT=3
//@ variant iface -DWHAT=4
//@ require ok@forms,pairs bindfail@forms,pairs modified@forms,pairs unresolved@forms late@retry timeout@retry ports@autobind giveup@autobind iface@iface anyif@iface
#include <harness/device.h>
#include <thread>
using namespace fair::mq; using std::string; using std::vector;
static string refused; static int refuseFirst = 0; static vector<string> tried;
inline std::function<void()>& onAttempt() { static std::function<void()> f; return f; }
static bool accept(const string& a) { if (onAttempt()) onAttempt()(); tried.push_back(a); if (refuseFirst > 0) { --refuseFirst; return false; } return a != refused; }
#ifdef THOROUGH
const bool THOROUGH_TIER = true;
#else
const bool THOROUGH_TIER = false;
#endif
struct Dev : Device
{
    using Device::Device; bool bindCalled = false, connectCalled = false;
    void Init() override {}
    void Bind() override { bindCalled = true; }
    void Connect() override { connectCalled = true; }
};
struct End { string text, actual, back; bool bind, resolves, valid; };
static End endpoint(const char* tag, bool chanBind, bool all = true)
{
    static const char* mods[] = {"", "@", "+", ">"}; static const char* addr[] = {"tcp://*:5", "tcp://localhost:6", "tcp://1.2.3.4:7", "tcp://node9:8", "tcp://badhost:1", "ipc://x", "inproc://y"};
    string t(tag); unsigned m = sym_choice((t + " modifier").c_str(), 4), a = all ? sym_choice((t + " address").c_str(), 7) : 2 * sym_choice((t + " address").c_str(), 3) + 1;
    End e; string ad = addr[a]; e.text = string(mods[m]) + ad; e.bind = m == 0 ? chanBind : m == 1; e.resolves = true; e.valid = true; e.actual = ad;
    if (a == 0 && !e.bind) e.actual = "tcp://*:5"; if (a == 1) e.actual = "tcp://127.0.0.1:6"; if (a == 3) e.actual = "tcp://10.0.0.5:8"; if (a == 4) e.resolves = false;
    e.back = (m == 0 ? string() : m == 1 ? string("@") : string("+")) + e.actual; return e;
}
static ProgOptions& o = *new ProgOptions();
static Dev* start(Channel& c)
{
    o.AddChannel("data", c); if (!o.Count("id")) o.SetProperty<string>("id", "d"); o.SetProperty<string>("session", "s");
    Dev* d = new Dev(o);
    d->SubscribeToStateChange("ctrl", [d](State s) {
        switch (s) {
        case State::Idle: CHECK(d->ChangeState(d->bindCalled ? Transition::End : Transition::InitDevice), "a legal transition is accepted"); break;
        case State::InitializingDevice: CHECK(d->ChangeState(Transition::CompleteInit), "a legal transition is accepted"); break;
        case State::Initialized: CHECK(d->ChangeState(Transition::Bind), "a legal transition is accepted"); break;
        case State::Bound: CHECK(d->ChangeState(Transition::Connect), "a legal transition is accepted"); break;
        case State::DeviceReady: break;
        default: break;
        }
    });
    d->SubscribeToStateChange("end", [d](State s) { if (s == State::DeviceReady) CHECK(d->ChangeState(Transition::ResetDevice), "a legal transition is accepted"); });
    return d;
}
struct Obs { vector<string> bound, connected; string prop, addr; } obs;
static void observe(Dev* d) // sockets are released by the reset: look before
{
    d->SubscribeToStateChange("0obs", [d](State s) { if (s == State::DeviceReady) { auto& c = d->GetChannel("data"); auto* k = (mock::Sock*)&c.GetSocket(); obs.bound = k->bound; obs.connected = k->connected; obs.prop = o.GetProperty<string>("chans.data.0.address"); obs.addr = c.GetAddress(); } });
}
extern "C" void harness()
{
    env::onResolve() = [](const string& h) { if (h == "badhost" && onAttempt()) onAttempt()(); };
    mock::onCreate() = [](mock::Sock* s) { s->bindOk = accept; s->connectOk = accept; };
    bool err = false;
#if WHAT < 2
    bool cb = sym_choice("method", 2) == 0; int n = WHAT + 1; vector<End> es; string address;
    for (int i = 0; i < n; ++i) { es.push_back(endpoint(i ? "second" : "first", cb, i + 1 == n || THOROUGH_TIER)); if (i) address += ","; address += es[i].text; }
    int refuse = (int)sym_choice("refused", n + 1) - 1; if (refuse >= 0) refused = es[refuse].actual;
    Channel c(cb ? "push" : "pull", cb ? "bind" : "connect", address); c.UpdateRateLogging(0); c.UpdateAutoBind(false); o.SetProperty<int>("init-timeout", 0);
    Dev* d = start(c); observe(d); try { d->RunStateMachine(); } catch (std::exception&) { err = true; }
    bool ok = true; vector<string> b, k; for (auto& e : es) { if (!e.resolves || e.actual == refused) { ok = false; if (!e.resolves) REACH("unresolved"); break; } (e.bind ? b : k).push_back(e.actual); }
    if (!ok) { CHECK(err && d->GetCurrentState() == State::Error, "a channel that cannot be attached puts the device into the error state"); CHECK(cb ? !d->bindCalled : !d->connectCalled, "no hook is called for channels that could not be attached"); REACH("bindfail"); delete d; return; }
    CHECK(!err, "resolvable and accepted endpoints are attached"); REACH("ok");
    CHECK(obs.bound == b && obs.connected == k, "each endpoint is bound or connected once, in order, by its own method and with its resolved host");
    string back; bool mod = false; for (auto& e : es) { if (!back.empty()) back += ","; back += e.back; mod |= e.back != e.text; } if (mod) REACH("modified");
    CHECK(obs.prop == back && obs.addr == back, "the attached address is written back to the channel and to the configuration");
    delete d;
#elif WHAT == 2
    static const int mins[] = {22000, 30000, 100}, maxs[] = {22000, 30001, 1099}; unsigned r = sym_choice("range", 3); bool ab = sym_choice("autoBind", 2); unsigned proto = sym_choice("protocol", 3); static const char* ad[] = {"tcp://*:5", "ipc://x", "@tcp://1.2.3.4:5"};
#ifdef THOROUGH
    refuseFirst = sym_choice("refused ports", 8);
#else
    refuseFirst = sym_choice("refused ports", 5);
#endif
    if (refuseFirst == 4) refuseFirst = 100000; int k = refuseFirst;
    Channel c("push", "bind", ad[proto]); c.UpdateRateLogging(0); c.UpdateAutoBind(ab); c.UpdatePortRangeMin(mins[r]); c.UpdatePortRangeMax(maxs[r]);
    Dev* d = start(c); observe(d); try { d->RunStateMachine(); } catch (std::exception&) { err = true; }
    bool automatic = ab && proto != 1;
    CHECK(tried[0] == (proto == 2 ? "tcp://1.2.3.4:5" : ad[proto]), "the configured address is tried first");
    string head = proto == 2 ? "tcp://1.2.3.4:" : "tcp://*:";
    for (size_t i = 1; i < tried.size(); ++i) { CHECK(tried[i].compare(0, head.size(), head) == 0, "only the port is changed"); int p = atoi(tried[i].c_str() + head.size()); CHECK(p >= mins[r] && p <= maxs[r], "automatic ports lie in the configured range"); }
    if (k == 0 || (automatic && k < 1000)) { CHECK(!err && obs.bound.size() == 1 && (int)tried.size() == k + 1 && obs.bound[0] == tried.back(), "ports are tried until one is accepted"); if (k) REACH("ports"); CHECK(obs.prop == (proto == 2 ? "@" : "") + tried.back() && obs.addr == obs.prop, "the address that was bound is written back to the channel and to the configuration"); }
    else { CHECK(err && d->GetCurrentState() == State::Error && !d->bindCalled, "a channel that cannot be bound puts the device into the error state"); CHECK(automatic ? tried.size() > 1 : tried.size() == 1, "without automatic binding only the configured address is tried"); REACH("giveup"); }
    delete d;
#elif WHAT == 3
    // the address of a connecting channel may be configured late
    static const int touts[] = {0, 1, 3, 2147483647}; unsigned ti = sym_choice("init-timeout", 4); unsigned kind = sym_choice("kind", 3); // unspecified, unresolvable, refused
    if (kind == 0 || ti == 3) sym_assume(ti != 3 || kind != 0); int after = (int)sym_choice("known after", 9); bool stop = sym_choice("transition meanwhile", 2); // 8: never
    static const char* first[] = {"unspecified", "tcp://badhost:1", "tcp://localhost:1"}; refused = "tcp://127.0.0.1:1"; static const int delays[] = {0, 30, 60, 110, 490, 900, 1500, 2800, 1 << 30}; if (ti == 3) sym_assume(after < 8); int delay = delays[after];
    Channel c("pull", "connect", first[kind]); c.UpdateRateLogging(0); o.SetProperty<int>("init-timeout", touts[ti]);
    Dev* d = start(c); observe(d); static uint64_t t0 = 0; uint64_t t1 = 0; static bool done = false;
    d->SubscribeToStateChange("0time", [](State s) { if (s == State::Connecting) t0 = rt_now(); });
    onAttempt() = [&, d] { if (done || rt_now() - t0 < uint64_t(delay) * 1000000) return; done = true; if (stop) { CHECK(d->ChangeState(Transition::ErrorFound), "an error request is accepted"); } else o.SetProperty<string>("chans.data.0.address", "tcp://node9:8"); };
    try { d->RunStateMachine(); } catch (std::exception&) { err = true; } t1 = rt_now();
    uint64_t ms = (t1 - t0) / 1000000, lim = uint64_t(touts[ti]) * 1000, dl = kind == 0 || after == 8 ? lim + 1000 : delay; 
    if (stop && done) { CHECK(err && ms <= dl + 100, "a requested transition ends the attempts to connect"); }
    else if (err) { CHECK(ms + 60 >= lim && ms <= lim + 200, "connecting is given up after the initialization timeout, not before"); CHECK(d->GetCurrentState() == State::Error && !d->connectCalled, "a channel that cannot be connected puts the device into the error state"); REACH("timeout"); }
    if (!stop && dl + 120 < lim) { CHECK(!err && obs.connected.size() == 1 && obs.connected[0] == "tcp://10.0.0.5:8" && obs.prop == "tcp://10.0.0.5:8", "an address that is configured within the initialization timeout is used"); REACH("late"); }
    delete d;
#else
    static const char* nets[] = {"default", "eth7", "lo"}; unsigned ni = sym_choice("interface", 3); env::routeFails() = sym_choice("no default route", 2); unsigned af = sym_choice("address", 3), nchan = 1 + sym_choice("channels", 2); static const char* ad[] = {"unspecified", "", "tcp://*:9"};
    o.SetProperty<string>("network-interface", nets[ni]); Channel c("push", "bind", ad[af]); c.UpdateRateLogging(0); if (nchan == 2) { Channel c2("pub", "bind", "unspecified"); c2.UpdateRateLogging(0); o.AddChannel("extra", c2); }
    Dev* d = start(c); observe(d); try { d->RunStateMachine(); } catch (std::exception&) { err = true; }
    string want = af == 2 ? "tcp://*:9" : ni == 0 ? (env::routeFails() ? "tcp://*:1" : "tcp://10.1.1.7:1") : ni == 1 ? "tcp://10.1.1.7:1" : "tcp://127.0.0.1:1"; if (want == "tcp://*:1") REACH("anyif"); else if (af != 2) REACH("iface");
    CHECK(!err && obs.bound.size() == 1 && obs.bound[0] == want, "a channel without an address is bound to the configured interface");
    CHECK(tried.size() == nchan, "each channel is bound once");
    delete d;
#endif
}
