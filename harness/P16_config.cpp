//@ property P16
//@ sources fairmq/SuboptParser.cxx fairmq/JSONParser.cxx fairmq/Channel.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/TransportFactory.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds command line: 1 channel with 3 (quick) or 4 (thorough) options from 24 forms, or 2 channels with 2 options, three ways of naming; every text of up to 4 (quick) or 5 (thorough) characters from 9; documents: 2 devices, 2 channels, 0 to 3 sockets, every setting at either level, in both or in none, numSockets from 0 to 3
//@ variant cmdline -DWHAT=0 +quick=150 +thorough=900
//@ variant text -DWHAT=1
//@ variant tree -DWHAT=2
//@ variant file -DWHAT=3
//@ variant two -DWHAT=4
//@ require parsed@cmdline,two sockets@cmdline many@cmdline noname@cmdline,text novalue@cmdline tree@tree inherited@tree overridden@tree other@tree file@file accepted@text
#include <fairmq/SuboptParser.h>
#include <fairmq/JSONParser.h>
#include <fairmq/Channel.h>
#include <boost/property_tree/ptree.hpp>
#include <rt/rt.h>
#include <map>
#include <unistd.h>
using namespace fair::mq; using std::string; using boost::property_tree::ptree;
#ifdef THOROUGH
const int NOPT = 4, NCH = 5;
#else
const int NOPT = 3, NCH = 4;
#endif
static const char* KEY[] = {"type", "method", "address", "transport", "sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "sndTimeoutMs", "rcvTimeoutMs", "linger", "rateLogging", "portRangeMin", "portRangeMax", "autoBind"};
static const char* DEF[] = {"unspecified", "unspecified", "unspecified", "default", "1000", "1000", "0", "0", "-1", "-1", "500", "1", "22000", "23000", "1"};
using Set = std::map<string, string>; // settings of a socket as text
static Set defaults() { Set s; for (int i = 0; i < 15; ++i) s[KEY[i]] = DEF[i]; return s; }
static string text(const Property& p) { if (p.type() == typeid(string)) return "s" + boost::any_cast<string>(p); if (p.type() == typeid(int)) return "i" + std::to_string(boost::any_cast<int>(p)); if (p.type() == typeid(bool)) return boost::any_cast<bool>(p) ? "b1" : "b0"; return "?"; }
static string typed(int k, const string& v) { return (k < 4 ? "s" : k < 14 ? "i" : "b") + v; }
static std::map<string, string> expected; // all properties
static void expect(const string& channel, int index, const Set& s) { for (int k = 0; k < 15; ++k) expected.emplace("chans." + channel + "." + std::to_string(index) + "." + KEY[k], typed(k, s.at(KEY[k]))); }
static void compare(const Properties& p)
{
    CHECK(p.size() == expected.size(), "exactly the settings of the configured sockets become properties");
    for (auto& e : expected) { auto i = p.find(e.first); CHECK(i != p.end(), "every setting of every configured socket becomes a property"); CHECK(text(i->second) == e.second, "a property has the configured value (its own, else the common one of the channel, else the default) and type"); }
}
static string value(int k, int which) { if (k == 14) return which ? "0" : "1"; if (k < 4) return string(which ? "v" : "w") + KEY[k]; if (which == 2) return "-7"; return std::to_string((which ? 100 : 200) + k); }
struct Ch { string name; bool named = false; Set common = defaults(); std::vector<string> addresses; int numSockets = 0; string text; };
static void apply(Ch& c) // what the options mean
{
    if (c.numSockets > 0) for (int i = 0; i < c.numSockets; ++i) expect(c.name, i, c.common);
    else if (c.addresses.empty()) expect(c.name, 0, c.common);
    else for (size_t i = 0; i < c.addresses.size(); ++i) { Set s = c.common; s["address"] = c.addresses[i]; expect(c.name, (int)i, s); }
}
static Ch channel(int nopt, const char* nm, bool small)
{
    Ch c; unsigned how = small ? 0 : sym_choice("naming", 4); string first = nm; bool many = false;
    if (how == 0) { c.text = first + ":"; c.name = first; c.named = true; } else if (how == 1) { c.text = "name=" + first; c.name = first; c.named = true; } else if (how == 2) c.text = "";
    for (int i = 0; i < nopt; ++i) {
        unsigned k = small ? (unsigned[]){0, 2, 5, 16}[sym_choice("option", 4)] : i == 2 && NOPT == 3 ? (unsigned[]){1, 2, 16, 22}[sym_choice("option", 4)] : sym_choice("option", 24); string t;
        if (k == 2) { string a = "tcp://h:" + std::to_string(i); t = "address=" + a; c.addresses.push_back(a); }
        else if (k < 15) { string v = value((int)k, i % 3); t = string(KEY[k]) + "=" + v; c.common[KEY[k]] = v; }
        else if (k == 15) { t = "address=ipc://@x"; c.addresses.push_back("ipc://@x"); }
        else if (k == 16) { t = "numSockets=2"; c.numSockets = 2; many = true; }
        else if (k == 17) { t = "numSockets=0"; c.numSockets = 0; }
        else if (k == 18) t = "bogus=1";
        else if (k == 19) t = "";
        else if (k == 20) { t = "rateLogging"; REACH("novalue"); }
        else if (k == 21) { t = "address"; REACH("novalue"); }
        else if (k == 22) { t = "name"; REACH("novalue"); }
        else { t = "name=zz"; c.name = "zz"; c.named = true; }
        if (how == 0 && i == 0) c.text += t; else c.text += (c.text.empty() && i == 0 ? "" : ",") + t;
    }
    if (how == 3) { c.text += (c.text.empty() && nopt == 0 ? "" : ",") + string("name=") + first; c.name = first; c.named = true; }
    return c;
}
extern "C" void harness()
{
    sym_mode("ostream-display", 1);
#if WHAT == 0
    Ch c = channel(NOPT, "data", false); Properties p; bool refused = false;
    try { p = SuboptParser({c.text}, "dev"); } catch (std::exception&) { refused = true; }
    CHECK(refused == !c.named, "a channel configuration is refused exactly when it has no name"); if (refused) { REACH("noname"); return; }
    apply(c); compare(p); REACH("parsed"); if (c.addresses.size() > 1) REACH("sockets"); if (c.numSockets) REACH("many");
    CHECK(SuboptParser({}, "dev").empty(), "no configuration, no properties"); bool id = false; try { SuboptParser({c.text}, ""); } catch (ParserError&) { id = true; } CHECK(id, "an empty device id is refused");
#elif WHAT == 4
    Ch a = channel(2, "data", true), b = channel(2, sym_choice("same", 2) ? "data" : "ctrl", true); Properties p = SuboptParser({a.text, b.text}, "dev");
    apply(a); apply(b); compare(p); REACH("parsed"); // of two channels with one name the first one counts
#elif WHAT == 1
    static const char* T[] = {":", "=", ",", " ", "a", "name", "address", "type", "numSockets=1"}; int n = (int)sym_choice("length", NCH + 1); string s; for (int i = 0; i < n; ++i) s += T[sym_choice("part", 9)];
    try { Properties p = SuboptParser({s}, "dev"); REACH("accepted"); for (auto& e : p) CHECK(e.first.compare(0, 6, "chans.") == 0, "channel properties only"); } catch (std::exception&) { REACH("noname"); } // any text is parsed or refused with an exception
#elif WHAT == 2
    ptree devs; unsigned nd = 1 + sym_choice("devices", 2); bool wanted = false;
    for (unsigned d = 0; d < nd; ++d) {
        ptree dev, chans; unsigned idk = sym_choice("identification", 4); // own id, other id, other id with own key, own id with other key
        dev.put("id", idk == 1 || idk == 2 ? "other" : "dev"); if (idk == 2) dev.put("key", "dev"); else if (idk == 3) dev.put("key", "else"); bool mine = idk == 0 || idk == 2; if (!mine) REACH("other"); wanted |= mine;
        unsigned nc = d ? 1 : 1 + sym_choice("channels", 2);
        for (unsigned ci = 0; ci < nc; ++ci) {
            ptree ch, socks; Ch c; c.name = ci ? "second" : d ? "third" : "data"; ch.put("name", c.name); bool big = ci == 0 && d == 0;
            unsigned k = !big ? 4 : nd == 1 && nc == 1 ? sym_choice("setting", 15) : (unsigned[]){1, 8, 14}[sym_choice("setting", 3)], where = big ? sym_choice("where", 4) : 1; if (where & 1) { string v = value((int)k, 0); ch.put(KEY[k], v); c.common[KEY[k]] = v; }
            if (big) { c.numSockets = (int)sym_choice("numSockets", 4); if (c.numSockets) ch.put("numSockets", c.numSockets); }
            unsigned ns = big ? sym_choice("sockets", 4) : 0; unsigned own = ns ? sym_choice("own", ns) : 0;
            for (unsigned i = 0; i < ns; ++i) { ptree so; Set s = c.common; if ((where & 2) && i == own) { string v = value((int)k, 1); so.put(KEY[k], v); s[KEY[k]] = v; if (where == 3) REACH("overridden"); } else if (where & 1) REACH("inherited"); so.put("address", "tcp://x:" + std::to_string(i)); s["address"] = "tcp://x:" + std::to_string(i); socks.push_back({"", so}); if (mine && !c.numSockets) expect(c.name, (int)i, s); }
            if (ns) ch.add_child("sockets", socks); chans.push_back({"", ch});
            if (mine && c.numSockets) for (int i = 0; i < c.numSockets; ++i) expect(c.name, i, c.common); else if (mine && !ns) expect(c.name, 0, c.common);
        }
        dev.add_child("channels", chans); devs.push_back({"", dev});
    }
    ptree pt; pt.add_child("fairMQOptions.devices", devs); compare(PtreeParser(pt, "dev")); REACH("tree");
#else
    unsigned k = sym_choice("setting", 15), own = sym_choice("level", 2); string nm = "/tmp/vp16." + std::to_string(getpid()) + ".json"; string kv = string(",\"") + KEY[k] + "\":\"" + value((int)k, 2 * (k != 14)) + "\"";
    { FILE* f = fopen(nm.c_str(), "w"); string t = string("{\"fairMQOptions\":{\"devices\":[{\"id\":\"dev\",\"channels\":[{\"name\":\"data\"") + (own ? "" : kv) + ",\"sockets\":[{\"x\":\"y\"" + (own ? kv : "") + "}]}]}]}}"; fwrite(t.data(), 1, t.size(), f); fclose(f); }
    Properties p; bool bad = false; try { p = JSONParser(nm, "dev"); } catch (std::exception&) { bad = true; } CHECK(!bad, "a well formed document is parsed");
    Set s = defaults(); s[KEY[k]] = value((int)k, 2 * (k != 14)); expect("data", 0, s); compare(p); REACH("file");
    { FILE* f = fopen(nm.c_str(), "w"); fputs(k < 8 ? "{" : "[1,2]", f); fclose(f); } bad = false; try { JSONParser(nm, "dev"); } catch (std::exception&) { bad = true; } CHECK(bad, "a malformed document is refused");
    unlink(nm.c_str());
#endif
}
