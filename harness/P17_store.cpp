//@ property P17
//@ sources fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/Channel.cxx fairmq/TransportFactory.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds every history of 3 (quick) or 4 (thorough) operations (set, update, set many, update many, delete, subscribe, unsubscribe) over 3 keys with int and string values, all reads compared after every operation; 2 threads with 3 (quick) or 5 (thorough) preemptions
//@ variant history -DWHAT=0 +quick=120 +thorough=900
//@ variant threads -DWHAT=1 +quick=60 +thorough=600
//@ variant nested -DWHAT=2
//@ require stored@history updated@history missing@history deleted@history notified@history refused@history conc@threads nested@nested
#include <fairmq/ProgOptions.h>
#include <rt/rt.h>
#include <thread>
using namespace fair::mq; using std::string;
#ifdef THOROUGH
const int NOPS = 4, PRE = 5;
#else
const int NOPS = 3, PRE = 3;
#endif
static const char* KEYS[] = {"chans.x.0.a", "chans.x.0.ab", "other"};
struct Val { int type = -1; int i = 0; string s; }; // -1 absent, 0 int, 1 string
static string text(const Val& v) { return v.type == 0 ? std::to_string(v.i) : v.s; }
struct Note { int kind; string key, val; };
static Note notes[64]; static int nNotes = 0;
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); const ProgOptions& co = o; size_t base = o.GetPropertyKeys().size();
    auto nInt = [](string k, int v) { notes[nNotes++] = Note{0, k, std::to_string(v)}; };
    auto nStr = [](string k, string v) { notes[nNotes++] = Note{1, k, v}; };
    auto nAny = [](string k, string v) { notes[nNotes++] = Note{2, k, v}; };
#if WHAT == 0
    Val M[3]; bool subbed = false;
    auto mkVal = [](int n) { Val v; if (sym_choice("type", 2)) { v.type = 1; v.s = "text" + std::to_string(n); } else { v.type = 0; v.i = 1000 + n; } return v; };
    auto prop = [](const Val& v) { return v.type == 0 ? Property(v.i) : Property(v.s); };
    for (int i = 0; i < NOPS; ++i) {
        unsigned op = sym_choice("op", 6); nNotes = 0; Val before[3] = {M[0], M[1], M[2]}; bool wrote[3] = {false, false, false};
        if (op == 0) { unsigned k = sym_choice("key", 3); Val v = mkVal(i); if (v.type == 0) o.SetProperty(KEYS[k], v.i); else o.SetProperty(KEYS[k], v.s); M[k] = v; wrote[k] = true; REACH("stored"); }
        else if (op == 1) {
            unsigned k = sym_choice("key", 3); Val v = mkVal(i); bool r = v.type == 0 ? o.UpdateProperty(KEYS[k], v.i) : o.UpdateProperty(KEYS[k], v.s);
            CHECK(r == (M[k].type >= 0), "UpdateProperty succeeds exactly for an existing key");
            if (r) { M[k] = v; wrote[k] = true; REACH("updated"); } else REACH("missing");
        } else if (op == 2 || op == 3) {
            unsigned a = sym_choice("pair", 3), b = (a + 1) % 3; Val va = mkVal(i), vb; vb.type = 1; vb.s = "second";
            Properties in; in[KEYS[a]] = prop(va); in[KEYS[b]] = prop(vb);
            bool ok = true;
            if (op == 2) o.SetProperties(in); else { ok = o.UpdateProperties(in); CHECK(ok == (M[a].type >= 0 && M[b].type >= 0), "UpdateProperties succeeds exactly when all keys exist"); if (!ok) REACH("refused"); }
            if (ok) { M[a] = va; M[b] = vb; wrote[a] = wrote[b] = true; }
        } else if (op == 4) { unsigned k = sym_choice("key", 3); o.DeleteProperty(KEYS[k]); M[k] = Val(); REACH("deleted"); }
        else if (!subbed) { o.Subscribe<int>("me", nInt); o.Subscribe<string>("me", nStr); o.SubscribeAsString("me", nAny); subbed = true; }
        else { o.Unsubscribe<int>("me"); o.Unsubscribe<string>("me"); o.UnsubscribeAsString("me"); subbed = false; }
        // notifications: one typed and one textual per written property, none otherwise
        int expected = 0;
        for (int k = 0; k < 3; ++k) if (wrote[k] && subbed) {
            expected += 2; int t = 0, s = 0;
            for (int j = 0; j < nNotes; ++j) if (notes[j].key == KEYS[k]) { if (notes[j].kind == M[k].type) ++t; if (notes[j].kind == 2) ++s; CHECK(notes[j].val == text(M[k]), "a notification carries the new value"); }
            CHECK(t == 1 && s == 1, "every written property is notified once by its type and once as text"); REACH("notified");
        }
        CHECK(nNotes == expected, "nothing else is notified");
        // every read agrees with the model
        size_t present = 0; size_t starting = 0;
        for (int k = 0; k < 3; ++k) {
            bool has = M[k].type >= 0; present += has; starting += has && k < 2;
            CHECK(o.Count(KEYS[k]) == (has ? 1 : 0), "Count tells whether the key exists");
            bool thrown = false; string s; try { s = co.GetPropertyAsString(KEYS[k]); } catch (PropertyNotFoundError&) { thrown = true; }
            CHECK(thrown == !has && (!has || s == text(M[k])), "GetPropertyAsString returns the current value as text, or fails for a missing key");
            CHECK(co.GetPropertyAsString(KEYS[k], "dflt") == (has ? text(M[k]) : "dflt"), "the fallback is used exactly for a missing key");
            thrown = false; bool bad = false; int v = 0; try { v = co.GetProperty<int>(KEYS[k]); } catch (PropertyNotFoundError&) { thrown = true; } catch (boost::bad_any_cast&) { bad = true; }
            CHECK(thrown == !has && bad == (M[k].type == 1) && (M[k].type != 0 || v == M[k].i), "GetProperty returns the current value of the stored type");
            if (M[k].type != 1) CHECK(co.GetProperty<int>(KEYS[k], -5) == (has ? M[k].i : -5), "the fallback is used exactly for a missing key");
        }
        CHECK(o.GetPropertyKeys().size() == base + present, "the key list is the set of existing keys");
        auto sw = co.GetPropertiesAsStringStartingWith("chans.x.0.a"); CHECK(sw.size() == starting, "a prefix query returns exactly the matching properties");
        for (auto& e : sw) { int k = e.first == KEYS[0] ? 0 : 1; CHECK(e.first == KEYS[k] && e.second == text(M[k]), "a prefix query returns the current values"); }
        CHECK(co.GetPropertiesStartingWith("chans.x.0.ab").size() == (M[1].type >= 0 ? 1u : 0u), "a prefix query returns exactly the matching properties");
    }
    auto re = co.GetPropertiesAsString("chans\\..*\\.a"); CHECK(re.size() == (M[0].type >= 0 ? 1u : 0u), "a regex query matches whole keys");
    CHECK(co.GetProperties("o[th]+er").size() == (M[2].type >= 0 ? 1u : 0u), "a regex query matches whole keys");
#elif WHAT == 1
    int what = (int)sym_choice("what", 4); bool failed = false; o.SetProperty("k", 1);
    o.SubscribeAsString("me", nAny);
    sym_mode("race", 1); rt_preempt(PRE); rt_deadlock("deadlock in the property store");
    if (what == 0) { // a concurrent delete never makes a set fail
        std::thread t([&] { o.DeleteProperty("k"); });
        try { o.SetProperty("k", 2); } catch (std::exception&) { failed = true; }
        t.join(); CHECK(!failed, "SetProperty succeeds while others delete the property");
    } else if (what == 1) {
        std::thread t([&] { o.DeleteProperty("k"); }); bool r = false;
        try { r = o.UpdateProperty("k", 2); } catch (std::exception&) { failed = true; }
        t.join(); CHECK(!failed, "UpdateProperty does not fail with an exception while others delete the property"); CHECK(!o.Count("k"), "a property deleted after its update is gone");
    } else if (what == 2) { // concurrent sets: each is notified with its own value, the store ends with one of them
        std::thread t([&] { o.SetProperty("k", 2); }); o.SetProperty("k", 3); t.join();
        int two = 0, three = 0; for (int j = 0; j < nNotes; ++j) { two += notes[j].val == "2"; three += notes[j].val == "3"; }
        CHECK(two == 1 && three == 1 && nNotes == 2, "each set is notified with the value it set"); int v = o.GetProperty<int>("k"); CHECK(v == 2 || v == 3, "the store holds one of the values set");
    } else { // an all-or-nothing update is seen completely or not at all
        o.SetProperty("l", 1); Properties in; in["k"] = 5; in["l"] = 5;
        std::thread t([&] { CHECK(o.UpdateProperties(in), "both keys exist"); });
        auto s = co.GetPropertiesAsStringStartingWith(""); CHECK(s.at("k") == s.at("l"), "a query sees a multi property update completely or not at all");
        t.join();
    }
    REACH("conc");
#else
    // callbacks may use the store
    int n = 0; unsigned what = sym_choice("what", 4); string seen; rt_deadlock("deadlock: an operation from inside a callback blocks");
    o.Subscribe<int>("me", [&](string k, int v) {
        ++n; if (n > 1) return;
        if (what == 0) seen = std::to_string(o.GetProperty<int>(k)); else if (what == 1) { o.SetProperty("x", string("y")); seen = "7"; } else if (what == 2) { o.Unsubscribe<int>("me"); seen = "7"; } else { o.DeleteProperty("zzz"); seen = std::to_string(v); }
    });
    o.SetProperty("k", 7); CHECK(n == 1 && seen == "7", "a callback can use the store and sees the new value"); REACH("nested");
#endif
}
