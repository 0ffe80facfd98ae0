//@ property P01
//@ sources fairmq/StateMachine.cxx fairmq/States.cxx
//@ bounds start from every one of the 12 reachable waiting states (driven there through the public interface), then up to 2 symbolic transition requests while the state is being handled (3 in the thorough tier), then 1 more in the following state
//@ require accepted rejected pending error exit after-error announced
//@ quick 60
//@ thorough 600
#include "fsm_model.h"
using namespace fair::mq;
using namespace model;
struct Done {};
static StateMachine* sm; static Transition plan[16]; static int nplan, pos;
static int phase, attemptsLeft;
static State cur, pendingTo; static bool pending; static bool errorSeen;
// announcements: 0 none, 1 preparation, 2 first subscriber, 3 second subscriber, then the handler
static int stage; static bool thrown; static int announced; static Transition lastAnnounced; static bool handlers = true;
static bool anyTr(Transition& t)
{
    uint8_t x = sym_u8("transition");
    sym_assume(x < NT);
    t = static_cast<Transition>(x);
    return true;
}
static void attempt()
{
    Transition t; anyTr(t);
    bool hadPending = pending; State before = sm->GetCurrentState();
    int ann = announced;
    bool r = sm->ChangeState(t);
    bool again = t == Transition::ErrorFound && errorSeen;
    CHECK(announced == ann + (r && !again ? 1 : 0) && (!r || again || lastAnnounced == t), "an accepted transition is announced once to the transition subscribers, a rejected one is not");
    State to = next(cur, t);
    if (t == Transition::ErrorFound) {
        CHECK(r, "ErrorFound is accepted from every state");
        if (!again) { pending = true; pendingTo = State::Error; errorSeen = true; REACH("error"); }
    } else if (errorSeen) {
        CHECK(!r, "no transition is accepted once the error transition was accepted");
    } else if (hadPending) {
        CHECK(!r, "a request is rejected while another transition is pending"); REACH("pending");
    } else {
        CHECK(r == (to != State::Undefined), "a transition is accepted exactly when the state machine has it");
        if (r) { pending = true; pendingTo = to; REACH("accepted"); } else REACH("rejected");
    }
    CHECK(sm->GetCurrentState() == before, "a request does not change the current state by itself");
    CHECK(sm->NewStatePending() == pending, "a transition is pending exactly when one was accepted");
}
static void announce(State s, int who, const char* msg)
{
    if (cur == State::Error && who != 1) { CHECK(s == State::Error, "nothing but the error state is announced after it"); return; } // it is announced again when processing ends
    if (thrown && who != 1) { CHECK(s == State::Error, "subscribers are told of the error state after a handler failed"); return; }
    CHECK(s == pendingTo && stage == who - 1 && sm->GetCurrentState() == s, msg); stage = who;
}
static void handle(State s)
{
    CHECK(stage == 3, "preparation and the subscribers, in the order of their keys, are called once before the handler"); stage = 0; REACH("announced");
    CHECK(s == pendingTo && sm->GetCurrentState() == s, "the handled state is the target of the accepted transition");
    cur = s; pending = false;
    CHECK(!sm->NewStatePending(), "no transition is pending once the new state is handled");
    if (s == State::Error) { REACH("error state"); return; }
    if (s == State::Exiting) REACH("exit");
    if (pos < nplan) {
        Transition t = plan[pos++];
        bool r = sm->ChangeState(t);
        CHECK(r, "a transition of the state machine is accepted");
        pending = true; pendingTo = next(s, t);
        return;
    }
    int n = phase == 0 ? attemptsLeft : 1;
    for (int i = 0; i < n; ++i) attempt();
    if (phase++ >= 1 || !pending) { thrown = true; throw Done(); }
}
extern "C" void harness()
{
    StateMachine m; sm = &m;
    CHECK(m.GetCurrentState() != State::Error, "initial state");
    m.Start();
    CHECK(m.GetCurrentState() == State::Idle, "a started state machine is idle");
    State target = ALL[3 + sym_choice("state", 13)];
    nplan = route(target, plan);
#ifdef THOROUGH
    attemptsLeft = 3;
#else
    attemptsLeft = 2;
#endif
    cur = State::Idle;
    static bool started = false; bool rev = sym_choice("subscription order", 2);
    m.PrepareState([](State s) { announce(s, 1, "preparation is called once for every processed state, before the subscribers"); });
    for (int i = 0; i < 2; ++i) {
        if ((i == 1) != rev) m.SubscribeToStateChange("20.second", [](State s) { if (started) announce(s, 3, "every subscriber is called once for every processed state, in the order of the numbers of their keys"); else { CHECK(s == State::Idle, "processing starts in the idle state"); started = true; } });
        else m.SubscribeToStateChange("7.first", [](State s) { if (started) announce(s, 2, "every subscriber is called once for every processed state, in the order of the numbers of their keys"); });
    }
    bool gone = sym_choice("unsubscribed", 2);
    m.SubscribeToStateChange("3.third", [](State) { sym_fail("an unsubscribed callback is not called"); }); m.UnsubscribeFromStateChange("3.third"); m.UnsubscribeFromStateChange("unknown");
    m.SubscribeToNewTransition("a", [](Transition t) { ++announced; lastAnnounced = t; });
    if (gone) { m.SubscribeToNewTransition("b", [](Transition) { sym_fail("an unsubscribed callback is not called"); }); m.UnsubscribeFromNewTransition("b"); }
    m.HandleStates([](State s) { handle(s); });
    if (nplan) { CHECK(m.ChangeState(plan[0]), "a transition of the state machine is accepted"); pending = true; pendingTo = next(State::Idle, plan[0]); pos = 1; }
    else { phase = 0; for (int i = 0; i < attemptsLeft; ++i) attempt(); if (!pending) return; phase = 1; }
    bool err = false, done = false;
    try { m.ProcessWork(); } catch (Done&) { done = true; } catch (StateMachine::ErrorStateException&) { err = true; }
    CHECK(!err || errorSeen, "ProcessWork reports the error state only when it was reached");
    CHECK(err || done || cur == State::Exiting, "ProcessWork returns only when exiting");
    if (done) CHECK(m.GetCurrentState() == State::Error, "an exception of a handler leads to the error state");
    if (m.GetCurrentState() == State::Error) {
        Transition t; anyTr(t); REACH("after-error");
        bool pend = m.NewStatePending();
        bool r = m.ChangeState(t);
        CHECK(!r || t == Transition::ErrorFound, "the error state is final: every other transition is rejected");
        CHECK(m.GetCurrentState() == State::Error, "the error state is final");
        CHECK(t == Transition::ErrorFound || m.NewStatePending() == pend, "a rejected transition leaves nothing pending");
    }
}
