//@ property P05
//@ sources fairmq/EventManager.cxx
//@ bounds every history of 3 (quick) or 4 (thorough) operations (subscribe, unsubscribe, emit) over 2 subscribers, 2 event types and 2 callback signatures, then one emission of each kind; string arguments with symbolic bytes; operations from inside callbacks; 2 threads with 4 (quick) or 8 (thorough) preemptions
//@ variant history -DWHAT=0 +quick=90 +thorough=900
//@ variant reentrant -DWHAT=1
//@ variant threads -DWHAT=2 +quick=60 +thorough=600
//@ require delivered@history replaced@history unknown@history nested@reentrant conc@threads
#include <fairmq/EventManager.h>
#include <rt/rt.h>
#include <thread>
#include <string>
#include <atomic>
using namespace fair::mq;
struct EvA : Event<int> {};
struct EvB : Event<int> {};
struct EvS : Event<std::string> {};
static int calls[4][8]; // [kind][generation] number of calls
static int lastKey; static std::string lastArg;
#ifdef THOROUGH
const int NOPS = 4, PRE = 8;
#else
const int NOPS = 3, PRE = 4;
#endif
// kinds: 0 EvA(int), 1 EvB(int), 2 EvA(int,int), 3 PropertyChangeAsString(string,string)
static void sub(EventManager& m, int kind, const std::string& who, int gen)
{
    if (kind == 0) m.Subscribe<EvA, int>(who, std::function<void(int, int)>([gen](int k, int a) { ++calls[0][gen]; CHECK(k == 41 && a == 42, "key and arguments arrive unchanged"); }));
    else if (kind == 1) m.Subscribe<EvB, int>(who, std::function<void(int, int)>([gen](int k, int a) { ++calls[1][gen]; CHECK(k == 43 && a == 44, "key and arguments arrive unchanged"); }));
    else if (kind == 2) m.Subscribe<EvA, int, int>(who, std::function<void(int, int, int)>([gen](int k, int a, int b) { ++calls[2][gen]; CHECK(k == 45 && a == 46 && b == 47, "key and arguments arrive unchanged"); }));
    else m.Subscribe<PropertyChangeAsString, std::string>(who, std::function<void(std::string, std::string)>([gen](std::string k, std::string v) { ++calls[3][gen]; CHECK(k == "key.of.the.property" && v == lastArg, "key and arguments arrive unchanged"); }));
}
static void unsub(EventManager& m, int kind, const std::string& who)
{
    if (kind == 0) m.Unsubscribe<EvA, int>(who); else if (kind == 1) m.Unsubscribe<EvB, int>(who); else if (kind == 2) m.Unsubscribe<EvA, int, int>(who); else m.Unsubscribe<PropertyChangeAsString, std::string>(who);
}
static void emit(EventManager& m, int kind)
{
    if (kind == 0) m.Emit<EvA, int>(41, 42); else if (kind == 1) m.Emit<EvB, int>(43, 44); else if (kind == 2) m.Emit<EvA, int, int>(45, 46, 47);
    else { char c[2]; sym_bytes(c, 2, "value"); lastArg = "a value that needs heap memory: " + std::string(c, 2); m.Emit<PropertyChangeAsString, std::string>("key.of.the.property", lastArg); }
}
extern "C" void harness()
{
    sym_mode("race", 1);
    EventManager m; static const char* W[] = {"sub1", "sub2"};
#if WHAT == 0
    int cur[4][2]; int gen = 0; for (auto& r : cur) r[0] = r[1] = -1;
    auto emitChecked = [&](int kind) {
        int before[8]; for (int g = 0; g < 8; ++g) before[g] = calls[kind][g];
        int other = 0, otherAfter = 0; for (int k = 0; k < 4; ++k) if (k != kind) for (int g = 0; g < 8; ++g) other += calls[k][g];
        emit(m, kind);
        for (int k = 0; k < 4; ++k) if (k != kind) for (int g = 0; g < 8; ++g) otherAfter += calls[k][g];
        CHECK(other == otherAfter, "an event reaches only callbacks of its own type and signature");
        for (int g = 0; g < 8; ++g) {
            int expect = (cur[kind][0] == g || cur[kind][1] == g) ? 1 : 0;
            CHECK(calls[kind][g] - before[g] == expect, "each current subscriber is called exactly once, nobody else");
            if (expect) REACH("delivered");
        }
    };
    for (int i = 0; i < NOPS; ++i) {
        unsigned op = sym_choice("op", 3), kind = sym_choice("kind", 4), w = op == 2 ? 0 : sym_choice("who", 2);
        if (op == 0) { if (cur[kind][w] >= 0) REACH("replaced"); cur[kind][w] = gen; sub(m, kind, W[w], gen++); }
        else if (op == 1) {
            bool thrown = false;
            try { unsub(m, kind, W[w]); } catch (std::out_of_range&) { thrown = true; }
            CHECK(thrown == (cur[kind][w] < 0), "unsubscribing fails exactly when there is no such subscription");
            if (thrown) REACH("unknown");
            cur[kind][w] = -1;
        } else emitChecked(kind);
    }
    for (int k = 0; k < 4; ++k) emitChecked(k);
#elif WHAT == 1
    // callbacks may use the event manager
    int what = (int)sym_choice("what", 4); int n = 0, late = 0;
    rt_deadlock("deadlock: an operation from inside a callback blocks");
    m.Subscribe<EvA, int>("a", std::function<void(int, int)>([&](int, int) {
        ++n;
        if (what == 0) m.Emit<EvB, int>(1, 2);
        if (what == 1 && n == 1) m.Unsubscribe<EvA, int>("a");
        if (what == 2) m.Subscribe<EvB, int>("late", std::function<void(int, int)>([&](int, int) { ++late; }));
        if (what == 3) m.Unsubscribe<EvB, int>("b");
    }));
    int b = 0; m.Subscribe<EvB, int>("b", std::function<void(int, int)>([&](int, int) { ++b; }));
    m.Emit<EvA, int>(0, 0); REACH("nested");
    CHECK(n == 1, "called once");
    if (what == 0) CHECK(b == 1, "a nested emission is delivered");
    if (what == 1) { m.Emit<EvA, int>(0, 0); CHECK(n == 1, "not called any more after unsubscribing from inside"); }
    if (what == 2) { m.Emit<EvB, int>(0, 0); CHECK(late == 1 && b == 1, "a subscription from inside a callback is effective"); }
    if (what == 3) { m.Emit<EvB, int>(0, 0); CHECK(b == 0, "an unsubscription from inside a callback is effective"); }
#else
    int what = (int)sym_choice("what", 4);
    int a = 0, b = 0, c = 0;
    m.Subscribe<EvA, int>("a", std::function<void(int, int)>([&](int, int) { ++a; }));
    rt_preempt(PRE); rt_deadlock("deadlock in the event manager");
    if (what == 0) { // emissions concurrent with subscriptions of others: an established subscriber gets every event exactly once
        std::thread t([&] { m.Subscribe<EvA, int>("b", std::function<void(int, int)>([&](int, int) { ++b; })); m.Unsubscribe<EvA, int>("b"); });
        m.Emit<EvA, int>(1, 1); m.Emit<EvA, int>(1, 1);
        t.join(); CHECK(a == 2, "an established subscriber gets each event exactly once"); CHECK(b <= 2, "at most once per event");
        int x = b; m.Emit<EvA, int>(1, 1); CHECK(b == x && a == 3, "nothing is delivered after Unsubscribe");
    } else if (what == 1) { // concurrent first use of an event type
        std::thread t([&] { m.Subscribe<EvB, int>("x", std::function<void(int, int)>([&](int, int) { ++b; })); });
        m.Subscribe<EvB, int>("y", std::function<void(int, int)>([&](int, int) { ++c; }));
        t.join(); m.Emit<EvB, int>(1, 1); CHECK(b == 1 && c == 1, "concurrent first subscriptions are both effective");
    } else if (what == 2) { // concurrent re-subscription under one name: exactly one survives
        std::thread t([&] { m.Subscribe<EvA, int>("a", std::function<void(int, int)>([&](int, int) { ++b; })); });
        m.Subscribe<EvA, int>("a", std::function<void(int, int)>([&](int, int) { ++c; }));
        t.join(); m.Emit<EvA, int>(1, 1); CHECK(a == 0 && b + c == 1, "a subscriber name stands for one callback");
        m.Unsubscribe<EvA, int>("a"); m.Emit<EvA, int>(1, 1); CHECK(b + c == 1, "nothing is delivered after Unsubscribe");
    } else { // concurrent emissions
        std::thread t([&] { m.Emit<EvA, int>(1, 1); m.Subscribe<EvS, int>("s", std::function<void(std::string, int)>([](std::string, int) {})); });
        m.Emit<EvA, int>(1, 1); m.Emit<EvS, int>("key", 2);
        t.join(); CHECK(a == 2, "concurrent emissions are each delivered once");
    }
    REACH("conc");
#endif
}
