//@ property P04
//@ bounds sequential: every sequence of 4 (quick) or 5 (thorough) operations out of push (3 states incl. Error), timed wait, wait-or-custom, wait-for-custom, clear, notify, locked; concurrent: one consumer and one or two producers, 3 states, 3 (quick) or 5 (thorough) preemptions at every lock, wait and notify, timeouts at any time
//@ assume a single waiting thread per queue or waiters with the same predicate (Push wakes one waiter)
//@ variant seq -DWHAT=0 +quick=60
//@ variant next -DWHAT=1 +quick=60 +thorough=600
//@ variant custom -DWHAT=2 +quick=60 +thorough=600
//@ variant state -DWHAT=3 +quick=60 +thorough=600
//@ variant pred -DWHAT=4
//@ require popped@seq error@seq timeout@seq custom@custom fifo@next found@state timedout@next waiters@next pred@pred
#include <fairmq/StateQueue.h>
#include <rt/rt.h>
#include <thread>
#include <functional>
#include <chrono>
using namespace fair::mq;
static const State SS[] = {State::Idle, State::Ready, State::Error, State::Running};
#ifdef THOROUGH
const int PRE = 5, NOPS = 5;
#else
const int PRE = 3, NOPS = 4;
#endif
extern "C" void harness()
{
    sym_mode("race", 1);
#if WHAT == 0
    StateQueue q; State model[16]; int h = 0, n = 0; // pending states model[h..n)
    rt_deadlock(nullptr);
    for (int i = 0; i < NOPS; ++i) {
        unsigned op = sym_choice("op", 10);
        if (op < 3) { q.Push(SS[op]); model[n++] = SS[op]; }
        else if (op == 3) { // timed wait: the oldest state, or nothing after the timeout
            bool err = false; std::pair<bool, State> r{false, State::Ok};
            try { r = q.WaitForNext(std::chrono::milliseconds(5)); } catch (DeviceErrorState&) { err = true; }
            if (h == n) { CHECK(!err && !r.first, "a wait on an empty queue reports nothing"); REACH("timeout"); }
            else if (model[h] == State::Error) { CHECK(err, "the error state is reported as DeviceErrorState"); REACH("error"); }
            else { CHECK(!err && r.first && r.second == model[h], "states are delivered in the order they were pushed"); ++h; REACH("popped"); }
        } else if (op == 4) {
            if (h == n) continue;
            bool err = false; State r = State::Ok;
            try { r = q.WaitForNext(); } catch (DeviceErrorState&) { err = true; }
            CHECK(err == (model[h] == State::Error), "DeviceErrorState is thrown for the error state only");
            if (!err) { CHECK(r == model[h], "states are delivered in the order they were pushed"); ++h; }
        } else if (op == 5 || op == 6) {
            bool err = false; std::pair<bool, State> r{false, State::Ok};
            try { r = op == 5 ? q.WaitForNextOrCustom([] { return true; }) : q.WaitForCustom([] { return true; }); } catch (DeviceErrorState&) { err = true; }
            if (h == n) CHECK(!err && !r.first, "a satisfied custom predicate ends the wait without a state");
            else if (model[h] == State::Error) CHECK(err, "the error state is reported as DeviceErrorState");
            else { CHECK(!err && r.first && r.second == model[h], "states are delivered in the order they were pushed"); ++h; }
        } else if (op == 7) { q.Clear(); h = n; }
        else if (op == 8) { int c = 0; q.Notify([&] { ++c; }); CHECK(c == 1, "the signal runs once"); }
        else { int c = 0; q.Locked([&] { ++c; }); CHECK(c == 1, "the callable runs once"); }
    }
    // drain: what is left is exactly the model
    while (h < n && model[h] != State::Error) { auto r = q.WaitForNext(std::chrono::milliseconds(1)); CHECK(r.first && r.second == model[h], "states are delivered in the order they were pushed"); ++h; }
    if (h == n) CHECK(!q.WaitForNext(std::chrono::milliseconds(1)).first, "nothing is delivered that was not pushed");
#elif WHAT == 1
    StateQueue q; int what = (int)sym_choice("shape", 3);
    rt_preempt(PRE); rt_deadlock("lost wakeup: a pushed state is never delivered");
    if (what == 0) { // one producer, one consumer: FIFO, every state delivered
        std::thread p([&] { q.Push(State::Idle); q.Push(State::Ready); q.Push(State::Running); });
        CHECK(q.WaitForNext() == State::Idle, "first"); CHECK(q.WaitForNext() == State::Ready, "second");
        CHECK(q.WaitForNext() == State::Running, "third"); REACH("fifo");
        p.join();
        CHECK(!q.WaitForNext(std::chrono::milliseconds(1)).first, "each state is delivered once");
    } else if (what == 1) { // two identical waiters, two producers
        State a = State::Ok, b = State::Ok;
        std::thread c1([&] { a = q.WaitForNext(); }), c2([&] { b = q.WaitForNext(); });
        q.Push(State::Idle); q.Push(State::Ready);
        c1.join(); c2.join(); REACH("waiters");
        CHECK((a == State::Idle && b == State::Ready) || (b == State::Idle && a == State::Ready), "each state is delivered to one waiter");
    } else { // a timed consumer never loses a state: what it does not get stays queued
        std::thread p([&] { q.Push(State::Idle); q.Push(State::Error); });
        auto r = q.WaitForNext(std::chrono::milliseconds(1));
        if (r.first) CHECK(r.second == State::Idle, "first"); else { REACH("timedout"); CHECK(q.WaitForNext() == State::Idle, "a timed out wait does not lose a state"); }
        bool err = false;
        try { q.WaitForNext(); } catch (DeviceErrorState&) { err = true; }
        CHECK(err, "the error state is reported as DeviceErrorState");
        p.join();
    }
#elif WHAT == 2
    StateQueue q; bool flag = false; int what = (int)sym_choice("shape", 3);
    rt_preempt(PRE); rt_deadlock("lost wakeup: a notified predicate is never noticed");
    if (what == 0) {
        std::thread p([&] { q.Notify([&] { flag = true; }); });
        auto r = q.WaitForNextOrCustom([&] { return flag; });
        CHECK(!r.first && flag, "returns once the predicate holds"); REACH("custom"); p.join();
    } else if (what == 1) {
        std::thread p([&] { q.Push(State::Idle); q.Push(State::Ready, [&] { flag = true; }); });
        auto r = q.WaitForCustom([&] { return flag; });
        CHECK(flag, "does not return before the predicate holds");
        CHECK(r.first && r.second == State::Idle, "the oldest pending state is handed out with it"); p.join();
        CHECK(q.WaitForNext() == State::Ready, "second");
    } else {
        std::thread p([&] { q.Push(State::Idle); }); std::thread p2([&] { q.Notify([&] { flag = true; }); });
        auto r = q.WaitForNextOrCustom([&] { return flag; });
        bool f = false; q.Locked([&] { f = flag; });
        CHECK(r.first || f, "returns only for a state or the predicate");
        if (r.first) CHECK(r.second == State::Idle, "state"); else CHECK(q.WaitForNext() == State::Idle, "the state is not lost");
        p.join(); p2.join();
    }
#elif WHAT == 3
    StateQueue q; bool flag = false; int what = (int)sym_choice("shape", 2);
    unsigned a = sym_choice("s1", 2), b = sym_choice("s2", 3);
    rt_preempt(PRE); rt_deadlock("lost wakeup: an awaited state is never noticed");
    std::thread p([&] { q.Push(SS[a]); q.Push(SS[b]); q.Push(State::Running); q.Push(State::Exiting, [&] { flag = true; }); });
    bool err = false;
    try {
        if (what) q.WaitForStateOrCustom(State::Running, [&] { return flag; }); else q.WaitForState(State::Running);
    } catch (DeviceErrorState&) { err = true; }
    p.join();
    if (what == 0) CHECK(err == (SS[b] == State::Error), "WaitForState ends with the state, or DeviceErrorState when the device fails first");
    if (what == 0 && !err) { CHECK(q.WaitForNext() == State::Exiting, "states after the awaited one stay queued"); REACH("found"); }
    if (err) { CHECK(SS[b] == State::Error, "DeviceErrorState only after an error state"); bool again = false; try { q.WaitForNext(std::chrono::milliseconds(1)); } catch (DeviceErrorState&) { again = true; } CHECK(again, "the error state is not consumed"); }
#else
    // a predicate object that is not trivially movable is evaluated intact on every iteration
    StateQueue q; int evals = 0; int need = 2 + (int)sym_choice("need", 3);
    std::function<bool()> f = [&evals, need] { return ++evals >= need; };
    rt_deadlock(nullptr);
    q.Push(State::Idle); q.Push(State::Ready); q.Push(State::Idle);
    bool bad = false;
    try { q.WaitForStateOrCustom(State::Running, f); } catch (std::bad_function_call&) { bad = true; }
    CHECK(!bad, "the custom predicate stays usable while waiting"); REACH("pred");
    CHECK(static_cast<bool>(f), "the caller's predicate is not consumed");
#endif
}
