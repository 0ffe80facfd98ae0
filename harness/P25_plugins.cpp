//@ property P25
//@ sources fairmq/PluginManager.cxx fairmq/PluginServices.cxx fairmq/Plugin.cxx fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex boost_filesystem zmq dl
//@ bounds up to 3 (quick) or 4 (thorough) search path arguments or calls of every form; all plugin files of two directories in any search order; up to 3 (quick) or 4 (thorough) plugins of any kind, failing to be created or not
//@ variant paths -DWHAT=0
//@ variant calls -DWHAT=1
//@ variant find -DWHAT=2
//@ variant load -DWHAT=3
//@ require refused@paths,calls accepted@paths,calls found@find missing@find created@load failed@load unloadable@load
#include <harness/device.h>
#include <fairmq/PluginManager.h>
#include <fairmq/plugins/Builtin.h>
using namespace fair::mq; using std::string; using std::vector; namespace fs = std::filesystem;
#ifdef THOROUGH
const int N = 4;
#else
const int N = 3;
#endif
static const string FIX = string(__FILE__).substr(0, string(__FILE__).rfind('/')) + "/fixtures/";
static string made; static int failing = -1, nMade = 0;
static void create(char c, PluginServices* s) { CHECK(s != nullptr, "plugins are created with the plugin services"); if (nMade++ == failing) throw std::runtime_error("plugin"); made += c; }
namespace fair::mq::plugins {   // the built-in plugins, replaced by ones that only record their creation
Control::Control(const string& n, Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s) { create(n[3], s); }
Control::~Control() {}
Config::Config(const string& n, Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s) { create(n[3], s); }
Config::~Config() {}
auto ControlPluginProgramOptions() -> Plugin::ProgOptions { boost::program_options::options_description d("control"); d.add_options()("ctl", "x"); return d; }
auto ConfigPluginProgramOptions() -> Plugin::ProgOptions { return boost::none; }
}
extern "C" void harness()
{
    static const string dirs[] = {FIX + "p1", FIX + "p2", FIX + "none", FIX + "file", ""}; vector<fs::path> want, pre, app;
#if WHAT == 0
    vector<string> args{"prog"}; bool bad = false; int n = (int)sym_choice("paths", N + 1); vector<fs::path> base;
    if (n) args.push_back("-S"); for (int i = 0; i < n; ++i) { unsigned d = sym_choice("dir", n == 3 && i ? 2 : 5), k = sym_choice("kind", 3); string pf = k == 0 ? "" : k == 1 ? "<" : ">"; if (k == 0 && d == 4) sym_assume(false); if (sym_choice("repeated option", 2) && i) args.push_back("-S"); args.push_back(pf + dirs[d]); if (d > 2) bad = true; (k == 0 ? base : k == 1 ? pre : app).push_back(dirs[d]); }
    bool threw = false; try { PluginManager m(args); for (auto it = pre.rbegin(); it != pre.rend(); ++it) want.push_back(*it); for (auto& b : base) want.push_back(b); for (auto& a : app) want.push_back(a);
        if (pre.size() < 2) CHECK(m.SearchPaths() == want, "search paths are the prepended, the given and the appended ones"); else { CHECK(m.SearchPaths().size() == want.size(), "search paths are the prepended, the given and the appended ones"); for (size_t i = pre.size(); i < want.size(); ++i) CHECK(m.SearchPaths()[i] == want[i], "search paths are the prepended, the given and the appended ones"); } REACH("accepted"); } catch (PluginManager::BadSearchPath&) { threw = true; REACH("refused"); }
    CHECK(threw == bad, "a search path is refused exactly when it is empty or not a directory");
#elif WHAT == 1
    PluginManager m; for (int i = 0; i < N; ++i) { unsigned op = sym_choice("op", 3), d = sym_choice("dir", 5), e = op == 0 ? sym_choice("second", 6) : 5; bool bad = d > 2 || e == 3 || e == 4, threw = false; vector<fs::path> set{dirs[d]}; if (e < 5) set.push_back(dirs[e]);
        try { if (op == 0) m.SetSearchPaths(set); else if (op == 1) m.AppendSearchPath(dirs[d]); else m.PrependSearchPath(dirs[d]); } catch (PluginManager::BadSearchPath&) { threw = true; REACH("refused"); }
        CHECK(threw == bad, "a search path is refused exactly when it is empty or not a directory"); if (!bad) { REACH("accepted"); if (op == 0) want = set; else want.insert(op == 1 ? want.end() : want.begin(), dirs[d]); } CHECK(m.SearchPaths() == want, "search paths are set, appended and prepended, and unchanged by a refused call"); }
#elif WHAT == 2
    PluginManager m; int n = (int)sym_choice("paths", 4); for (int i = 0; i < n; ++i) m.AppendSearchPath(dirs[sym_choice("dir", 3)]); static const char* names[] = {"a", "b", "c", "d", "../p1/libx", ""}; unsigned k = sym_choice("name", 6); string name = names[k], file; 
    for (auto& p : m.SearchPaths()) { if (!file.empty()) break; for (string pf : {"libfairmq-plugin-", "libFairMQPlugin_"}) { bool there = (p == dirs[0] && ((k == 0 && pf[3] == 'f') || k == 2)) || (p == dirs[1] && ((k == 0 && pf[3] == 'f') || (k == 1 && pf[3] == 'F'))); if (there && file.empty()) file = p.string() + "/" + pf + name + ".so"; } }
    bool threw = false; try { auto f = m.SearchPluginFile(name); CHECK(!file.empty() && f == file, "the first matching file in search order is found"); REACH("found"); } catch (PluginManager::PluginNotFound&) { threw = true; REACH("missing"); } CHECK(threw == file.empty(), "a plugin without a file is not found");
#else
    ProgOptions& o = *new ProgOptions(); o.SetProperty<string>("id", "d"); Device& d = *new Device(o); PluginManager& m = *new PluginManager; m.SetSearchPaths({dirs[0], dirs[1]}); m.EmplacePluginServices(o, d); static const char* names[] = {"s:control", "s:config", "a", "d:nix", "p:nix", "s:nix"}; string order; bool ctl = false;
    for (int i = 0; i < N; ++i) { unsigned k = sym_choice("plugin", 6); bool threw = false; try { m.LoadPlugin(names[k]); } catch (PluginManager::PluginLoadError&) { threw = true; REACH("unloadable"); } CHECK(threw == (k > 1), "what is not a plugin is refused"); if (k == 0) ctl = true; if (k < 2 && order.find(names[k][5]) == string::npos) order += names[k][5]; }
    failing = (int)sym_choice("failing", 3) - 1; bool threw = false; try { m.InstantiatePlugins(); } catch (PluginManager::PluginInstantiationError&) { threw = true; }
    if (failing >= 0 && failing < (int)order.size()) { CHECK(threw && made == order.substr(0, failing), "a plugin that cannot be created is reported, and no later one is created"); REACH("failed"); return; }
    CHECK(!threw && made == order, "plugins are created once each, in the order in which they were loaded"); REACH("created"); m.InstantiatePlugins(); CHECK(made == order, "plugins are created once"); string seen; m.ForEachPlugin([&](Plugin& p) { seen += p.GetName()[3]; }); CHECK(seen == order, "every plugin is visited once, in the order in which they were loaded"); int no = 0; m.ForEachPluginProgOptions([&](boost::program_options::options_description) { ++no; }); CHECK(no == (int)ctl, "the program options of every loaded plugin are offered once");
#endif
}
