//@ property P30
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds run: histories of up to 5 (quick) or 6 (thorough) steps - a user joins, leaves orderly, dies without leaving (its objects stay, its heartbeats stop), or 150, 450 or 1300 ms pass - while a monitor with timeout 1000 ms watches the session, with and without self-destruction, view-only mode and clean-up on exit, ended by a signal unless it ends by itself; live: all interleavings with at most 2 (quick) or 3 (thorough) preemptions, each of up to 2 s, of the two threads of a monitor and the heartbeats of a live user during 500 ms; second: a monitor next to another one and after it
//@ assume virtual time; shared memory objects, named semaphores and signals are modelled; a user that dies is one whose heartbeat thread stops and whose objects stay (no clean-up on leaving, count not decremented); nobody joins a session that has been dead for longer than 600 ms before the monitor (timeout 1000 ms) has cleaned it up
//@ variant run -DWHAT=0 +quick=120 +thorough=700
//@ variant live -DWHAT=1 +quick=60 +thorough=300
//@ variant second -DWHAT=2 +quick=30 +thorough=60
//@ require done cleaned@run self@run orderly@run idle@run viewed@run exit@run
#include <fstream>
#include <harness/shm.h>
#include <fairmq/shmem/Monitor.h>
#include <csignal>
#include <cstring>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t; using std::string; using shmem::Monitor;
#ifdef THOROUGH
const bool DEEP = true; const unsigned OPS = 6;
#else
const bool DEEP = false; const unsigned OPS = 5;
#endif
const int64_t MS = 1000000; const shmem::ShmId ID{"00001234"};
static bool there() { return rt_shm_exists("fmq_00001234_mng"); }
static void pause(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
static std::unique_ptr<shmem::TransportFactory> join(bool no = false) { auto& o = shm::options(16384, false, 0); o.SetProperty<bool>("shm-no-cleanup", no); return std::make_unique<shmem::TransportFactory>("d", &o); }
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); rt_clock_step(0);
#if WHAT == 0
    {
        bool self = sym_choice("self-destruct", 2), view = sym_choice("view only", 2), clean = sym_choice("clean up on exit", 2);
        int64_t start = rt_now(), lastLife = -1, since = -1; bool ended = false, seen = false; int64_t endedAt = -1;
        auto* m = new Monitor("00001234", self, false, view, 1000, 100, true, clean); CHECK(rt_sem_exists("fmq_00001234_ms") == !view, "a monitor that watches can be seen by others");
        m->CatchSignals(); std::thread run([&] { m->Run(); ended = true; endedAt = rt_now(); });
        std::unique_ptr<shmem::TransportFactory> f; bool dead = false; int64_t diedAt = 0, goneAt = -1, joinedAt = 0;
        for (unsigned i = 0; i < OPS; ++i) {
            unsigned what = sym_choice("step", f ? 5 : 4);   // pauses, join / leave, die
            if (what < 3) {
                const int ms[3] = {150, 450, 1300}; pause(ms[what]);
            } else if (what == 3 && !f) { sym_assume(!dead || rt_now() - diedAt < 600 * MS); f = join(); dead = false; joinedAt = rt_now(); goneAt = -1; }
            else if (what == 3) { f.reset(); goneAt = rt_now(); }
            else { auto g = join(true); /* keeps the objects */ f.reset(); g.reset(); dead = true; diedAt = rt_now(); }
            int64_t now = rt_now();
            // a session with a live user is never touched
            if (f) CHECK(there() && rt_shm_exists("fmq_00001234_m_0"), "the monitor does not clean up a session with heartbeats");
            if (view && dead && !f) CHECK(there(), "a monitor in view-only mode does not clean up");
            // one without heartbeats is cleaned up within the timeout and a bit
            if (dead && !f && !view && !ended && there()) CHECK(now - diedAt < 1000 * MS + 600 * MS || diedAt - joinedAt < 450 * MS, "the monitor cleans up a session without heartbeats");
            if (dead && !f && !there()) { CHECK(!view && now - diedAt >= 600 * MS, "the monitor waits for the timeout before it cleans up"); CHECK(rt_shm_count("fmq_") == 0, "the monitor removes all objects of a dead session"); REACH("cleaned"); dead = false; goneAt = now; }
            if (f && now - joinedAt >= 200 * MS) seen = true;
            if (ended) { CHECK(self, "a monitor without self-destruction runs until it is stopped"); CHECK(!f || endedAt <= joinedAt + 300 * MS || view, "a monitor does not self-destruct while the session is alive"); if (!seen && goneAt < 0 && endedAt - start < 2000 * MS) CHECK(i > 0 && joinedAt > 0, "a monitor that has seen nothing waits twice its timeout"); break; }
            if (self && !f && !dead && seen && goneAt >= 0) CHECK(now - goneAt <= 300 * MS, "a self-destructing monitor ends after its session");
            if (self && !view && !f && !seen && joinedAt == 0) CHECK(now - start <= 2200 * MS, "a self-destructing monitor that sees no session ends after twice its timeout");
        }
        if (ended) { REACH("self"); if (seen && goneAt >= 0) REACH("orderly"); if (joinedAt == 0) { CHECK(endedAt - start > 2000 * MS, "a monitor that has seen nothing waits twice its timeout"); REACH("idle"); } }
        else { rt_raise(SIGINT); pause(600); CHECK(ended, "a monitor ends after a signal"); }
        if (view) REACH("viewed");
        bool was = there(); run.join(); delete m; CHECK(!rt_sem_exists("fmq_00001234_ms"), "a monitor that ended can be replaced");
        if (clean) { CHECK(rt_shm_count("fmq_") == 0, "a monitor told so cleans up when it ends"); REACH("exit"); } else CHECK(there() == was, "a monitor not told so does not clean up when it ends");
        f.reset();
    }
#elif WHAT == 1
    {
        auto f = join(); Monitor m("00001234", false, false, false, 500, 100, true, false); bool stop = false;
        m.CatchSignals(); std::thread run([&] { m.Run(); }); pause(450);
        rt_timeouts(true); rt_preempt(DEEP ? 3 : 2); pause(300); rt_preempt(0); rt_timeouts(false);
        CHECK(there(), "the monitor does not clean up a session with heartbeats"); (void)stop;
        rt_raise(SIGTERM); run.join(); CHECK(there(), "the monitor does not clean up a session with heartbeats");
    }
#else
    {
        auto other = std::make_unique<Monitor>("00001234", true, false, false, 1000, 100, true, false); bool refused = false;
        bool view = sym_choice("view only", 2); std::unique_ptr<Monitor> m;
        try { m = std::make_unique<Monitor>("00001234", true, false, view, 1000, 100, true, false); } catch (const Monitor::DaemonPresent&) { refused = true; }
        CHECK(refused == !view, "a session has at most one monitor that watches it"); m.reset(); CHECK(rt_sem_exists("fmq_00001234_ms"), "the end of a refused or viewing monitor does not affect the watching one");
        if (sym_choice("killed", 2)) { auto r = Monitor::CleanupFull(ID, false); CHECK(!rt_sem_exists("fmq_00001234_ms"), "a full clean-up makes room for a new monitor"); other.release(); } else other.reset();
        m = std::make_unique<Monitor>("00001234", true, false, false, 1000, 100, true, false); CHECK(rt_sem_exists("fmq_00001234_ms"), "a monitor can be replaced");
        auto m2 = std::make_unique<Monitor>("00005678", true, false, false, 1000, 100, true, false); m2.reset(); CHECK(rt_sem_exists("fmq_00001234_ms"), "monitors of other sessions are independent");
    }
#endif
    REACH("done"); sym_end();
}
