//@ property P35
//@ sources fairmq/DeviceRunner.cxx fairmq/PluginManager.cxx fairmq/plugins/control/Control.cxx fairmq/plugins/config/Config.cxx fairmq/SuboptParser.cxx fairmq/JSONParser.cxx fairmq/PluginServices.cxx fairmq/Plugin.cxx fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex boost_filesystem zmq dl
//@ bounds flow: every general option, any hook of the runner or of the device failing, with or without a device, both ways to run; args: every sequence of 3 (quick) or 4 (thorough) of 13 forms of arguments, given by the caller or by a hook; conf: every way to give the channel configuration and its key, valid or not; change: every setting of the log at any event of the run
//@ assume the device is controlled statically
//@ variant flow -DWHAT=0
//@ variant args -DWHAT=1 +quick=150 +thorough=800
//@ variant conf -DWHAT=2
//@ variant change -DWHAT=3
//@ require ran@flow,conf,change shown@flow hookfailed@flow devicefailed@flow nodevice@flow parsed@args refused@args rest@args channels@conf nochannels@conf changed@change
#include <harness/device.h>
#include <fairmq/DeviceRunner.h>
#include <iostream>
#include <thread>
#include <unistd.h>
using namespace fair::mq; using std::string; using std::vector;
#ifdef THOROUGH
const int N = 4;
#else
const int N = 3;
#endif
static string order, devHooks, printed, logs; static int failHook = -1, failDev = -1, devNo = 0, changeAt = -1, events = 0; static bool ended = false; static DeviceRunner* theRunner = nullptr; static std::function<void(Device&)> onInit;
static void change()
{
    if (events++ != changeAt) return;
    ProgOptions& c = theRunner->fConfig; logs.clear(); unsigned k = sym_choice("setting", 5); string want;
    switch (k) {
        case 0: c.SetProperty<string>("severity", "error"); want = "severity=error;"; break;
        case 1: c.SetProperty<string>("file-severity", "trace"); want = "file-severity=trace;"; break;
        case 2: c.SetProperty<string>("verbosity", "high"); want = "verbosity=high;"; break;
        case 3: c.SetProperty<bool>("color", false); want = "color=0;"; break;
        default: c.SetProperty<string>("log-to-file", "/dev/null"); want = "log-to-file=/dev/null@debug;"; break;
    }
    CHECK(logs == want, "a changed setting of the log takes effect at once"); REACH("changed");
}
struct Dev : Device
{
    void hook(char c) { devHooks += c; change(); if (devNo++ == failDev) throw std::runtime_error("hook"); }
    void Init() override { if (onInit) onInit(*this); hook('i'); } void Bind() override { hook('b'); } void Connect() override { hook('c'); } void InitTask() override { hook('t'); }
    void Run() override { hook('r'); } void ResetTask() override { hook('u'); } void Reset() override { hook('d'); }
    void RegisterChannelEndpoints() override { printed += "registered;"; RegisterChannelEndpoint("data", 1, 2); }
};
static void watch() { std::thread([] { for (int i = 0; i < 60; ++i) std::this_thread::sleep_for(std::chrono::seconds(1)); CHECK(ended, "the runner returns"); }).detach(); }
// the runner with its four hooks
struct Runner
{
    vector<string> store; vector<char*> argv; DeviceRunner* r = nullptr; std::function<void(DeviceRunner&)> modify; bool withDevice = true;
    explicit Runner(vector<string> args) : store(std::move(args)) { store.insert(store.begin(), "device"); for (auto& s : store) argv.push_back(&s[0]); argv.push_back(nullptr); r = theRunner = new DeviceRunner((int)store.size(), argv.data(), false); }
    int operator()(bool handled, bool& thrown)
    {
        auto at = [this](char c, int n) { order += c; if (n == failHook) throw std::runtime_error("hook"); };
        r->AddHook<hooks::InstantiateDevice>([=, this](DeviceRunner& x) { CHECK(&x == r && !x.fDevice, "a hook gets its runner"); at('I', 3); CHECK(x.fConfig.GetProperty<string>("custom") != "", "the configuration is complete when the device is created"); if (withDevice) x.fDevice = std::make_unique<Dev>(); });
        r->AddHook<hooks::ModifyRawCmdLineArgs>([=, this](DeviceRunner& x) { CHECK(&x == r, "a hook gets its runner"); at('M', 2); if (modify) modify(x); });
        r->AddHook<hooks::SetCustomCmdLineOptions>([=, this](DeviceRunner& x) { at('C', 1); boost::program_options::options_description o("Custom"); o.add_options()("custom", boost::program_options::value<string>()->default_value("none"), "a custom option")("number,n", boost::program_options::value<int>(), "a number"); x.fConfig.AddToCmdLineOptions(o); });
        r->AddHook<hooks::LoadPlugins>([=, this](DeviceRunner&) { at('L', 0); });
        thrown = false; int rc = -1; watch(); try { rc = handled ? r->RunWithExceptionHandlers() : r->Run(); } catch (std::exception&) { thrown = true; } return rc;
    }
    ~Runner() { ended = true; delete r; }
};
extern "C" void harness()
{
    rt_order(false); rt_timeouts(false); rt_clock_step(0); setenv("FAIRMQ_SEVERITY", "", 1); unsetenv("FAIRMQ_SEVERITY"); fair::Logger::rec = &logs; bool thrown = false;
#if WHAT == 0
    std::cout.setstate(std::ios::failbit);
    static const char* G[] = {"", "--help", "-h", "--print-options", "--version", "-v", "--print-channels"};
    unsigned g = sym_choice("general option", 7), f = sym_choice("fault", 4); bool handled = sym_choice("handled", 2); if (f == 1) failHook = sym_choice("hook", 4); if (f == 2) failDev = sym_choice("device hook", 7);
    vector<string> a{"--control", "static", "--id", "d1"}; if (g) a.insert(a.begin() + (sym_choice("first", 2) ? 0 : 4), G[g]);
    Runner run(a); if (f == 3) run.withDevice = false; int rc = run(handled, thrown);
    bool early = g >= 1 && g <= 3, late = g >= 4, hookFails = f == 1 && !(failHook == 3 && early), none = f == 3 && !early, devFails = f == 2 && !g;
    CHECK(order == (hookFails ? string("LCMI").substr(0, failHook + 1) : early ? "LCM" : "LCMI"), "the hooks run once, in the documented order, until one fails");
    if (hookFails || devFails) { CHECK(handled ? !thrown && rc == 1 : thrown, "an exception gets out of Run and becomes exit code 1 with the handlers"); if (hookFails) REACH("hookfailed"); else REACH("devicefailed"); }
    else CHECK(!thrown && rc == (none ? 1 : 0), "the exit code is 0 except without a device");
    if (none) REACH("nodevice"); bool ran = !early && !late && !hookFails && !none;
    CHECK(devHooks == (ran ? (devFails ? string("ibctrud").substr(0, failDev + 1) : "ibctrud") : ""), "the device lives one life, or none when only information is wanted");
    if (!early && !hookFails && !none) { Device& d = *run.r->fDevice; CHECK(printed == "registered;", "channel endpoints are registered once"); CHECK(d.GetCurrentState() == (late ? State::Idle : devFails ? State::Error : State::Exiting), "the device has ended"); if (ran && !devFails) { CHECK(d.GetId() == "d1", "the device has the configured id"); REACH("ran"); } }
    if (early || late) REACH("shown");
#elif WHAT == 1
    static const char* A[] = {"--id=a", "--id b", "--session s1", "--io-threads=3", "--custom=x y", "--bogus=1", "--bogus 2", "stray", "-n5", "-n 6", "--io-threads x", "--rate 2.5", "--color 0"};
    vector<string> given; std::map<string, string> want{{"id", ""}, {"session", "default"}, {"io-threads", "1"}, {"custom", "none"}, {"rate", "0"}, {"color", "true"}, {"control", "static"}, {"transport", "zeromq"}, {"shm-segment-size", "2147483648"}}; bool bad = false, rest = false;
    std::map<string, int> seen; unsigned added = sym_choice("by the hook", N + 1); vector<string> later;
    for (int i = 0; i < N; ++i) {
        unsigned k = sym_choice("argument", 13); string t = A[k]; auto& to = i + (int)added >= N ? later : given; auto cut = t.find(' '); if (k == 4 || cut == string::npos) to.push_back(t); else { to.push_back(t.substr(0, cut)); to.push_back(t.substr(cut + 1)); }
        auto put = [&](const char* key, const char* v) { bad |= seen[key]++ > 0; want[key] = v; };
        switch (k) { case 0: put("id", "a"); break; case 1: put("id", "b"); break; case 2: put("session", "s1"); break; case 3: put("io-threads", "3"); break; case 4: put("custom", "x y"); break; case 5: case 6: case 7: rest = true; break; case 8: put("number", "5"); break; case 9: put("number", "6"); break; case 10: put("io-threads", "x"); bad = true; break; case 11: put("rate", "2.5"); break; case 12: put("color", "0"); want["color"] = "false"; break; }
    }
    given.insert(given.begin(), {"--control", "static"});
    Runner run(given); run.withDevice = false; run.modify = [&](DeviceRunner& x) { for (auto& s : later) x.fRawCmdLineArgs.push_back(s); };
    int rc = run(sym_choice("handled", 2), thrown); CHECK(thrown || rc == 1, "without a device the runner fails"); if (thrown) rc = 1;
    CHECK(order == (bad ? "LCM" : "LCMI"), "a device is created exactly when the arguments can be understood");
    if (bad) REACH("refused"); else { ProgOptions& c = run.r->fConfig; for (auto& w : want) { CHECK(c.Count(w.first) == 1, "every option has a value"); CHECK(c.GetPropertyAsString(w.first) == w.second, "an option has the value given for it or its default"); } CHECK(c.Count("number") == (int)(seen["number"] > 0) && c.Count("mq-config") == 0 && c.Count("bogus") == 0, "an option without default has no value unless given"); REACH("parsed"); if (rest) REACH("rest"); }
#elif WHAT == 2
    unsigned how = sym_choice("configuration", 6), idk = sym_choice("key", 4); string nm = "/tmp/vp35." + std::to_string(getpid()) + ".json"; vector<string> a{"--control", "static"};
    // none, text, document, both, malformed document, text without a name
    { FILE* f = fopen(nm.c_str(), "w"); fputs(how == 4 ? "{" : "{\"fairMQOptions\":{\"devices\":[{\"id\":\"dev\",\"channels\":[{\"name\":\"doc\",\"sockets\":[{\"type\":\"pub\",\"method\":\"bind\",\"address\":\"tcp://*:7\"}]}]}]}}", f); fclose(f); }
    if (idk & 1) { a.push_back("--id"); a.push_back(idk == 1 ? "dev" : "other"); } if (idk & 2) { a.push_back("--config-key"); a.push_back("dev"); } // no id, own id, key only, other id and own key
    if (how == 1 || how == 3) { a.push_back("--channel-config"); a.push_back("name=data,type=push,method=bind,address=tcp://*:5"); a.push_back("name=ctrl,type=sub,method=bind,address=tcp://*:6"); } if (how == 5) { a.push_back("--channel-config"); a.push_back("type=push"); } if (how >= 2 && how <= 4) { a.push_back("--mq-config"); a.push_back(nm); }
    string chans; onInit = [&](Device& d) { for (auto& c : theRunner->fConfig.GetChannelInfo()) chans += c.first + std::to_string(c.second) + ","; };
    Runner run(a); int rc = run(true, thrown); unlink(nm.c_str()); CHECK(rc == 0, "a device runs without or with channels"); CHECK(devHooks == "ibctrud", "the device lives one life"); REACH("ran");
    bool doc = how == 2 || how == 3, text = how == 1; bool key = idk != 0; std::map<string, string> want; if (key && doc) want = {{"doc", "pub"}}; else if (key && text) want = {{"data", "push"}, {"ctrl", "sub"}};
    ProgOptions& c = run.r->fConfig; auto info = c.GetChannelInfo(); CHECK(info.size() == want.size(), "the configured channels and no others reach the device"); for (auto& w : want) { CHECK(info.count(w.first) && info[w.first] == 1, "a configured channel reaches the device"); CHECK(c.GetProperty<string>("chans." + w.first + ".0.type") == w.second, "a configured channel has its type"); }
    size_t n = 0; for (auto& w : want) n += chans.find(w.first + "1,") != string::npos; CHECK(n == want.size() , "the channels are configured before the device is initialized"); if (want.empty()) REACH("nochannels"); else REACH("channels");
#else
    changeAt = sym_choice("change at", 7); Runner run({"--control", "static", "--id", "d", "--severity", "warn", "--verbosity=low"}); int rc = run(false, thrown); CHECK(rc == 0 && !thrown, "the device runs"); REACH("ran");
    logs.clear(); run.r->fConfig.SetProperty<string>("severity", "fatal"); run.r->fConfig.SetProperty<bool>("color", true); CHECK(logs.empty(), "after the run the settings of the log are not followed any more");
#endif
    ended = true;
}
