//@ property P03
//@ sources fairmq/StateMachine.cxx fairmq/States.cxx
//@ bounds one thread in ProcessWork, two threads issuing up to 2 transition requests each (first symbolic, among all 12), up to 2 (quick) or 3 (thorough) preemptions at any synchronisation operation or atomic access, any waiter woken
//@ variant two -DWHAT=0 +quick=60 +thorough=900
//@ variant error -DWHAT=1 +quick=60 +thorough=900
//@ variant wait -DWHAT=2 +quick=60 +thorough=600
//@ variant throw -DWHAT=3 +quick=60 +thorough=600
//@ require handled@two,error accepted@two rejected@two errorstate@error woken@wait timedout@wait excerror@throw
#include "fsm_model.h"
#include <thread>
#include <vector>
#include <stdexcept>
using namespace fair::mq;
using namespace model;
#ifdef THOROUGH
const int PRE = 3;
#else
const int PRE = 2;
#endif
static State handled[32]; static int nHandled = 0; static State changed[32]; static int nChanged = 0; static State prepped[32]; static int nPrepped = 0;
static bool isIn(State* a, int n, State s) { for (int i = 0; i < n; ++i) if (a[i] == s) return true; return false; }
static bool edge(State a, State b) { for (int t = 0; t < NT; ++t) if (next(a, static_cast<Transition>(t)) == b) return true; return false; }
extern "C" void harness()
{
    StateMachine m; m.Start();
    m.HandleStates([&](State s) { rt_checkpoint(); handled[nHandled++] = s; if (WHAT == 3 && s == State::InitializingDevice) throw std::runtime_error("handler"); });
    m.PrepareState([&](State s) { prepped[nPrepped++] = s; });
    m.SubscribeToStateChange("t", [&](State s) { changed[nChanged++] = s; });
    int accepted[3] = {0, 0, 0}; Transition acc[3][8]; bool err = false, errSeen = false;
    rt_preempt(PRE); sym_mode("race", 1);
    rt_deadlock("lost wakeup or deadlock: an accepted transition is never processed");
#if WHAT == 2
    // waiting for a pending state: not woken before one is pending, always woken by one
    bool woke = false, wokeFor = false, pend = false;
    std::thread w([&] { m.WaitForPendingState(); woke = true; CHECK(pend, "WaitForPendingState returns only when a transition is pending"); });
    std::thread x([&] { wokeFor = m.WaitForPendingStateFor(10); CHECK(!wokeFor || pend, "WaitForPendingStateFor reports a pending transition only when there is one"); });
    pend = true;
    bool r = m.ChangeState(Transition::InitDevice);
    CHECK(r, "accepted");
    w.join(); x.join();
    CHECK(woke, "woken"); REACH("woken"); if (!wokeFor) REACH("timedout");
#else
    std::thread work([&] {
        try { m.ProcessWork(); } catch (StateMachine::ErrorStateException&) { err = true; } catch (std::runtime_error&) { errSeen = true; }
    });
    auto client = [&](int id, Transition t, int n) {
        for (int i = 0; i < n; ++i) {
            bool r = m.ChangeState(t);
            if (r) { acc[id][accepted[id]++] = t; REACH("accepted"); } else REACH("rejected");
            t = Transition::CompleteInit;
        }
    };
#if WHAT == 0
    uint8_t a = sym_u8("t1"), b = sym_u8("t2"); sym_assume(a < NT && b < NT);
    sym_assume(a != (uint8_t)Transition::ErrorFound && b != (uint8_t)Transition::ErrorFound);
#ifndef THOROUGH
    sym_assume(a == (uint8_t)Transition::InitDevice || a == (uint8_t)Transition::End);
    sym_assume(b == (uint8_t)Transition::InitDevice || b == (uint8_t)Transition::CompleteInit || b == (uint8_t)Transition::End);
#endif
    std::thread c1([&] { client(1, static_cast<Transition>(a), PRE - 1); });
    client(2, static_cast<Transition>(b), 1);
    c1.join();
    // bring the machine to its end: every accepted transition has to be handled on the way
    rt_preempt(0);
    rt_deadlock("lost wakeup: an accepted transition is never processed");
    for (int i = 0; i < 8 && m.NewStatePending(); ++i) rt_yield();
    if (m.NewStatePending()) sym_end();
    int nacc = accepted[1] + accepted[2];
    bool exiting = nHandled && handled[nHandled - 1] == State::Exiting;
    if (!exiting) {
        if (m.GetCurrentState() == State::Exiting) sym_end();
        CHECK(m.ChangeState(Transition::ErrorFound), "ErrorFound is accepted");
        ++nacc;
    }
    work.join();
    CHECK(err == !exiting, "an accepted error transition ends ProcessWork with ErrorStateException, End without");
    CHECK(nHandled == nacc, "every accepted transition is handled exactly once");
    if (nHandled > 1) REACH("handled");
    State s = State::Idle;
    for (int i = 0; i + 1 < nHandled; ++i) { CHECK(edge(s, handled[i]), "consecutive handled states are joined by a transition"); s = handled[i]; }
    CHECK(exiting || handled[nHandled - 1] == State::Error, "the error state is handled");
#elif WHAT == 1
    uint8_t a = sym_u8("t1"); sym_assume(a < NT);
    bool eacc = false;
    std::thread c1([&] { client(1, static_cast<Transition>(a), 2); });
    eacc = m.ChangeState(Transition::ErrorFound);
    c1.join(); work.join();
    CHECK(eacc || a == (uint8_t)Transition::ErrorFound || m.GetCurrentState() == State::Error, "ErrorFound is accepted");
    if (handled[0] != State::Error && nHandled) REACH("handled");
    if (m.GetCurrentState() == State::Error) {
        REACH("errorstate");
        CHECK(err, "an accepted error transition ends ProcessWork with ErrorStateException");
        CHECK(nHandled >= 1 && handled[nHandled - 1] == State::Error, "the error state is handled, and last");
        int e = 0; for (int i = 0; i < nHandled; ++i) e += handled[i] == State::Error;
        CHECK(e == 1, "the error state is handled once");
    } else {
        CHECK(m.GetCurrentState() == State::Exiting, "ProcessWork ends in the error or the exiting state");
    }
    State s = State::Idle;
    for (int i = 0; i + 1 < nHandled; ++i) { CHECK(edge(s, handled[i]), "consecutive handled states are joined by a transition"); s = handled[i]; }
#elif WHAT == 3
    // an exception leaving a handler moves the device to Error, whatever is requested meanwhile
    uint8_t a = sym_u8("t1"); sym_assume(a < NT && a != (uint8_t)Transition::ErrorFound);
    std::thread c1([&] { client(1, Transition::InitDevice, 2); });
    client(2, static_cast<Transition>(a), 1);
    rt_deadlock(nullptr);
    c1.join(); work.join();
    if (errSeen) {
        REACH("excerror");
        CHECK(m.GetCurrentState() == State::Error, "an exception of a state handler leads to the error state");
        CHECK(isIn(changed, nChanged, State::Error), "subscribers are told about the error state");
        Transition t = static_cast<Transition>(a);
        CHECK(!m.ChangeState(t) || t == Transition::ErrorFound, "the error state is final");
    }
#endif
    CHECK(nChanged >= 1 && changed[0] == State::Idle, "subscribers are told about Idle first");
    // leaving ProcessWork by an exception reports Error (possibly again); nothing else is reported twice
    int extra = nChanged - 1 - nHandled;
    CHECK(WHAT == 3 || (extra >= 0 && extra <= (err ? 1 : 0)), "subscribers are told about every state once");
    for (int i = 1 + nHandled; i < nChanged && WHAT != 3; ++i) CHECK(changed[i] == State::Error, "after the last state only Error is reported");
    for (int i = 0; i < nHandled && WHAT != 3; ++i) CHECK(changed[i + 1] == handled[i] && prepped[i] == handled[i], "preparation, notification and handling see the same state");
#endif
}
