//@ property P02
//@ sources fairmq/States.cxx
//@ bounds every State and Transition enumerator; every string of up to 8 (quick) or 20 (thorough) symbolic bytes, and every one-byte corruption, truncation and extension of every valid name
//@ variant names -DWHAT=0
//@ variant lookup -DWHAT=1
//@ variant near -DWHAT=2
//@ require unknown@lookup known@lookup corrupt@near roundtrip@names outofrange@names
#include <fairmq/States.h>
#include <rt/rt.h>
#include <string>
#include <sstream>
#include <cstring>
#include <stdexcept>
using namespace fair::mq;
static const char* SN[] = {"UNDEFINED", "OK", "ERROR", "IDLE", "INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK", "READY", "RUNNING", "RESETTING TASK", "RESETTING DEVICE", "EXITING"};
static const State SV[] = {State::Undefined, State::Ok, State::Error, State::Idle, State::InitializingDevice, State::Initialized, State::Binding, State::Bound, State::Connecting, State::DeviceReady, State::InitializingTask, State::Ready, State::Running, State::ResettingTask, State::ResettingDevice, State::Exiting};
static const char* TN[] = {"AUTO", "INIT DEVICE", "COMPLETE INIT", "BIND", "CONNECT", "INIT TASK", "RUN", "STOP", "RESET TASK", "RESET DEVICE", "END", "ERROR FOUND"};
static const Transition TV[] = {Transition::Auto, Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run, Transition::Stop, Transition::ResetTask, Transition::ResetDevice, Transition::End, Transition::ErrorFound};
// what GetState / GetTransition must answer for s: index of the matching name, -1 = rejected with an exception
static int refS(const std::string& s) { for (int i = 0; i < 16; ++i) if (s.size() == strlen(SN[i]) && !memcmp(s.data(), SN[i], s.size())) return i; return -1; }
static int refT(const std::string& s) { for (int i = 0; i < 12; ++i) if (s.size() == strlen(TN[i]) && !memcmp(s.data(), TN[i], s.size())) return i; return -1; }
static void probe(const std::string& s)
{
    int r = refS(s), got = -1; State x = State::Undefined;
    try { x = GetState(s); got = 1; } catch (const std::exception&) { }
    CHECK((got >= 0) == (r >= 0), "GetState accepts exactly the names of the states");
    if (r >= 0 && got >= 0) { CHECK(x == SV[r], "GetState maps a name to the state of that name"); REACH("known"); }
    r = refT(s); got = -1; Transition t = Transition::Auto;
    try { t = GetTransition(s); got = 1; } catch (const std::exception&) { }
    CHECK((got >= 0) == (r >= 0), "GetTransition accepts exactly the names of the transitions");
    if (r >= 0 && got >= 0) CHECK(t == TV[r], "GetTransition maps a name to the transition of that name");
    if (r < 0) REACH("unknown");
}
extern "C" void harness()
{
#if WHAT == 0
    // any int in the enumeration's underlying type
    int32_t v = sym_i32("value");
    bool valid = v >= 0 && v < 16;
    std::string n; bool thrown = false;
    try { n = GetStateName(static_cast<State>(v)); } catch (const std::exception&) { thrown = true; }
    CHECK(thrown == !valid, "GetStateName names every state and nothing else");
    if (!thrown) {
        int i = (int)sym_conc((uint32_t)v);
        CHECK(n == SN[i], "GetStateName returns the documented name");
        CHECK(GetState(n) == static_cast<State>(i), "GetState inverts GetStateName"); REACH("roundtrip");
        CHECK(static_cast<int>(SV[i]) == i, "the enumerators are numbered as documented");
    } else REACH("outofrange");
    bool validT = v >= 0 && v < 12; std::string m; bool thrownT = false;
    try { m = GetTransitionName(static_cast<Transition>(v)); } catch (const std::exception&) { thrownT = true; }
    CHECK(thrownT == !validT, "GetTransitionName names every transition and nothing else");
    if (!thrownT) {
        int i = (int)sym_conc((uint32_t)v);
        CHECK(m == TN[i], "GetTransitionName returns the documented name");
        CHECK(GetTransition(m) == static_cast<Transition>(i), "GetTransition inverts GetTransitionName");
    }
#elif WHAT == 1
#ifdef THOROUGH
    const unsigned N = 20;
#else
    const unsigned N = 8;
#endif
    char b[N]; sym_bytes(b, N, "text"); unsigned n = sym_choice("len", N + 1);
    probe(std::string(b, n));
#else
    unsigned i = sym_choice("name", 28); std::string s = i < 16 ? SN[i] : TN[i - 16];
    unsigned op = sym_choice("op", 3);
    if (op == 0) { unsigned p = sym_choice("pos", s.size()); char c; sym_bytes(&c, 1, "byte"); s[p] = c; }
    else if (op == 1) { s.resize(sym_choice("keep", s.size())); }
    else { char c; sym_bytes(&c, 1, "byte"); unsigned p = sym_choice("pos", s.size() + 1); s.insert(p, 1, c); }
    probe(s); REACH("corrupt");
#endif
}
