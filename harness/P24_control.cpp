//@ property P24
//@ sources fairmq/PluginServices.cxx fairmq/Plugin.cxx fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds every history of 4 (quick) or 5 (thorough) operations by three plugins; a releasing, a taking and two waiting threads with 2 (quick) or 3 (thorough) preemptions
//@ variant history -DWHAT=0
//@ variant sched -DWHAT=1
//@ variant services -DWHAT=2
//@ require refused@history stolen@history implicit@history released@sched retaken@sched forwarded@services
#include <harness/device.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <thread>
using namespace fair::mq; using std::string;
#ifdef THOROUGH
const int N = 5, PRE = 3;
#else
const int N = 4, PRE = 2;
#endif
struct Plug : Plugin { Plug(const char* n, PluginServices* s) : Plugin(n, {1, 0, 0}, "m", "h", s) {} };
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); o.SetProperty<string>("id", "d"); Device& d = *new Device(o); PluginServices& ps = *new PluginServices(o, d);
#if WHAT == 0
    static const char* names[] = {"a", "b", "c"}; Plug* pl[3]; for (int i = 0; i < 3; ++i) pl[i] = new Plug(names[i], &ps);
    int owner = -1; bool pending = false, error = false; int news = 0; d.SubscribeToNewTransition("n", [&](Transition) { ++news; });
    bool direct = sym_choice("direct", 2); unsigned used = 1;
    for (int i = 0; i < N; ++i) {
        unsigned op = sym_choice("op", 6), who = i ? sym_choice("who", used < 3 ? used + 1 : 3) : 0; if (who == used) ++used; string me = names[who]; bool threw = false; int before = news; bool r = false;
        try {
            switch (op) {
            case 0: direct ? ps.TakeDeviceControl(me) : pl[who]->TakeDeviceControl(); break;
            case 1: direct ? ps.StealDeviceControl(me) : pl[who]->StealDeviceControl(); break;
            case 2: direct ? ps.ReleaseDeviceControl(me) : pl[who]->ReleaseDeviceControl(); break;
            default: { Transition t = op == 3 ? Transition::InitDevice : op == 4 ? Transition::Stop : Transition::ErrorFound; r = direct ? ps.ChangeDeviceState(me, t) : pl[who]->ChangeDeviceState(t); }
            }
        } catch (PluginServices::DeviceControlError&) { threw = true; }
        bool foreign = owner >= 0 && owner != (int)who;
        if (op == 0) { CHECK(threw == foreign, "control can be taken exactly when nobody else has it"); if (!foreign) owner = who; }
        if (op == 1) { CHECK(!threw, "control can always be stolen"); if (foreign) REACH("stolen"); owner = who; }
        if (op == 2) { CHECK(!threw, "giving up control does not fail"); if (!foreign) owner = -1; }
        if (op > 2) {
            CHECK(threw == foreign, "only the plugin in control can change the state"); bool want = !foreign && (op == 5 ? true : op == 3 ? !pending && !error : false);
            CHECK(r == want, "a permitted request has the result of the device"); int told = r && !(op == 5 && error) ? 1 : 0; CHECK(news - before == told || (r && op == 5 && error && news - before == 1), "a refused request does not reach the device"); if (foreign) REACH("refused"); else { if (owner < 0) REACH("implicit"); owner = who; } if (r) { pending = true; if (op == 5) error = true; }
        }
        auto c = ps.GetDeviceController(); CHECK((c ? *c : "") == (owner < 0 ? "" : names[owner]), "the reported controller is the plugin in control");
    }
#elif WHAT == 1
    Plug& a = *new Plug("a", &ps); static bool released = false, retaken = false; a.TakeDeviceControl(); rt_deadlock("a thread that waits for the release of control is woken by it"); bool take = sym_choice("b takes control", 2); rt_preempt(PRE);
    std::thread w1([&] { ps.WaitForReleaseDeviceControl(); CHECK(released, "waiting ends once control was released"); }), w2([&] { ps.WaitForReleaseDeviceControl(); CHECK(released, "waiting ends once control was released"); });
    std::thread t([&] { if (!take) return; rt_checkpoint(); try { ps.TakeDeviceControl("b"); retaken = true; CHECK(released, "control can be taken exactly when nobody else has it"); ps.ReleaseDeviceControl("b"); } catch (PluginServices::DeviceControlError&) {} });
    rt_checkpoint(); released = true; a.ReleaseDeviceControl(); w1.join(); w2.join(); t.join(); CHECK(!ps.GetDeviceController(), "nobody is in control after the release"); REACH("released"); if (retaken) REACH("retaken");
#else
    // the plugin's interface is the one of the device and its configuration
    Plug& p = *new Plug("a", &ps); static const int vals[] = {0, -5, 2147483647}; int v = vals[sym_choice("v", 3)], w = vals[sym_choice("w", 3)]; string got; int n = 0, ns = 0; State last = State::Undefined;
    p.SubscribeToPropertyChange<int>([&](const string& k, int x) { got = k; CHECK(x == v || x == w, "notifications have the value written"); ++n; }); p.SubscribeToPropertyChangeAsString([&](const string& k, string) { ++ns; });
    CHECK(!p.PropertyExists("k"), "an unknown property does not exist"); p.SetProperty<int>("k", v); CHECK(n == 1 && got == "k" && ns == 1, "a written property is announced once"); CHECK(p.PropertyExists("k") && p.GetProperty<int>("k") == v && o.GetProperty<int>("k") == v, "a property reads back as written");
    CHECK(p.UpdateProperty<int>("k", w) && p.GetProperty<int>("k", 3) == w && n == 2, "an existing property can be updated"); CHECK(!p.UpdateProperty<int>("q", w) && n == 2, "an unknown property cannot be updated"); Properties pr{{"k", Property(v)}, {"q", Property(w)}}; CHECK(!p.UpdateProperties(pr), "several properties are updated together or not at all"); CHECK(p.GetProperty<int>("k") == w, "several properties are updated together or not at all");
    p.SetProperties(pr); CHECK(p.GetProperty<int>("k") == v && p.GetProperty<int>("q") == w, "several properties can be set"); CHECK(p.GetProperties("k|q").size() == 2 && p.GetPropertiesStartingWith("k").size() == 1, "properties are found by expression and prefix"); int m = n; p.UnsubscribeFromPropertyChange<int>(); p.UnsubscribeFromPropertyChangeAsString(); m = n; int ms = ns; p.SetProperty<int>("k", w); CHECK(n == m && ns == ms, "nothing is announced after unsubscribing");
    p.DeleteProperty("k"); bool t = false; try { p.GetProperty<int>("k"); } catch (PropertyNotFoundError&) { t = true; } CHECK(t && p.GetProperty<int>("k", v) == v, "a deleted property is gone"); bool sa = false; p.SetProperty<string>("s", "text"); CHECK(p.GetPropertyAsString("s") == "text" && p.GetPropertyAsString("z", "no") == "no", "properties read as text");
    unsigned st = sym_choice("state", 15), tr = sym_choice("transition", 12); CHECK(p.ToDeviceState(p.ToStr(State(st))) == State(st) && p.ToStr(State(st)) == GetStateName(State(st)), "states and their names correspond"); CHECK(p.ToDeviceStateTransition(p.ToStr(Transition(tr))) == Transition(tr), "transitions and their names correspond"); CHECK(p.GetCurrentDeviceState() == d.GetCurrentState(), "the current state is that of the device");
    int c = 0; p.SubscribeToDeviceStateChange([&](State s) { last = s; ++c; }); ps.SubscribeToDeviceStateChange("x", [&](State s) { if (s == State::Idle) CHECK(p.ChangeDeviceState(Transition::End), "the plugin in control can change the state"); }); bool un = sym_choice("unsubscribe", 2); if (un) p.UnsubscribeFromDeviceStateChange(); d.RunStateMachine(); CHECK(un ? c == 0 : c == 2 && last == State::Exiting, "subscribed plugins are told of every state"); REACH("forwarded");
#endif
}
