//@ property P21
//@ sources fairmq/tools/Semaphore.cxx
//@ bounds initial count 0..2, up to 3 waiters and 3 signals from up to 3 threads, 2-3 (quick) or 4 (thorough) preemptions at every lock, wait and notify, any waiter woken, 1 (quick) or 2 (thorough) spurious wakeups; copies of a SharedSemaphore
//@ variant sem -DWHAT=0 +quick=60 +thorough=600
//@ variant spurious -DWHAT=1 +quick=60 +thorough=600
//@ variant shared -DWHAT=2 +quick=60 +thorough=600
//@ variant blocks -DWHAT=3 +quick=60 +thorough=600
//@ require done@sem,spurious,shared,blocks blocked@blocks
#include <fairmq/tools/Semaphore.h>
#include <rt/rt.h>
#include <thread>
#include <memory>
#include <atomic>
using namespace fair::mq::tools;
#ifdef THOROUGH
const int PRE = 4, SPUR = 2;
#else
const int PRE = 3, SPUR = 1;
#endif
extern "C" void harness()
{
    sym_mode("race", 1);
    rt_preempt(WHAT == 1 || WHAT == 3 ? PRE - 1 : PRE);
    if (WHAT == 1) rt_spurious(SPUR);
    rt_deadlock("lost wakeup: a waiter stays blocked although the count is positive");
#if WHAT == 2
    SharedSemaphore s; SharedSemaphore c(s); auto* d = new SharedSemaphore(s);
    int passed = 0, given = 0;
    std::thread t1([&, c]() mutable { c.Wait(); CHECK(given > passed, "no Wait passes without a Signal"); ++passed; });
    std::thread t2([d, &given] { ++given; d->Signal(); delete d; });
    ++given; s.Signal();
    t2.join(); t1.join();
    CHECK(s.GetCount() == 1 && c.GetCount() == 1, "copies share one count"); REACH("done");
#elif WHAT == 3
    // exactly init + signals waits can pass; the others block
    unsigned init = sym_choice("init", 2), sig = sym_choice("signals", PRE - 1), waits = init + sig + 1;
    static Semaphore* s; s = new Semaphore(init); static int passed; passed = 0;
    rt_deadlock(nullptr);
    for (unsigned i = 0; i < waits; ++i) std::thread([] { s->Wait(); ++passed; }).detach();
    for (unsigned i = 0; i < sig; ++i) s->Signal();
    for (int i = 0; i < 8 && rt_alive() > 1; ++i) rt_yield();
    rt_preempt(0);
    CHECK(passed <= (int)(init + sig), "no more waits pass than the initial count plus the signals");
    if (rt_alive() == rt_blocked() && rt_alive() > 0) { CHECK(passed == (int)(init + sig), "as many waits pass as the initial count plus the signals"); REACH("blocked"); }
    REACH("done");
#else
    unsigned init = sym_choice("init", 3);
    Semaphore s(init);
    CHECK(s.GetCount() == init, "the initial count");
    int sig = 3, waits = 2; int inside = 0;
    auto w = [&] { s.Wait(); ++inside; };
    std::thread t1(w), t2(w);
    std::thread t3([&] { s.Signal(); });
    s.Signal(); s.Signal();
    t1.join(); t2.join(); t3.join();
    CHECK(s.GetCount() == init + sig - waits, "the count is the initial count plus signals minus waits");
    CHECK(inside == 2, "every waiter passes"); REACH("done");
#endif
}
