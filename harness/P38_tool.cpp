//@ property P38
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds tool: each command of fairmq-shmmonitor (also invalid ones), addressed to one of three sessions by name, by default name or by id, of which any exist, for one of two users; keys: every sequence of up to 3 (quick) or 4 (thorough) keys of the interactive mode, view-only or not, ended by the quit key or a signal; names: every id of a set of 32-bit patterns and of 64-bit values
//@ assume the daemon mode (fork) is outside; PicoSHA2 is a stand-in
//@ variant tool -DWHAT=0
//@ variant keys -DWHAT=1
//@ variant names -DWHAT=2
//@ require cleaned@tool,keys reset@tool nothing@tool refused@tool monitored@tool second@tool quit@keys signal@keys viewed@keys names@names
#include <fstream>
#include <harness/shm.h>
#include <fairmq/shmem/Monitor.h>
#include <csignal>
#include <cstring>
#include <thread>
#include <poll.h>
#include <unistd.h>
#include <termios.h>
#include <iostream>
static unsigned user = 1000; static std::string script; static size_t at = 0; static termios term; static int changed = 0;
extern "C" uid_t geteuid() noexcept { return user; }
extern "C" int tcgetattr(int, termios* t) noexcept { *t = term; return 0; }
extern "C" int tcsetattr(int, int, const termios* t) noexcept { term = *t; ++changed; return 0; }
extern "C" int poll(pollfd*, nfds_t, int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(at < script.size() ? 10 : ms)); return at < script.size(); }
extern "C" int getc(FILE*) { return at < script.size() ? script[at++] : -1; }
#define main shmmonitor
#include <fairmq/shmem/runMonitor.cxx>
#undef main
using std::vector; using std::size_t; using std::string; namespace fm = fair::mq;
#ifdef THOROUGH
const int KEYS = 4;
#else
const int KEYS = 3;
#endif
const int64_t MS = 1000000;
static const char* NAME[3] = {"default", "s", "run56"}; static const char* IDS[2][3] = {{"eca859e3", "7f48ab33", "00ab3133"}, {"293bdc57", "dc932548", "df49169b"}};
static string obj(int i, const char* what, unsigned u = user) { return string("fmq_") + IDS[u - 1000][i] + "_" + what; }
static int run(vector<string> a) { a.insert(a.begin(), "tool"); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); return shmmonitor((int)a.size(), v.data()); }
// a session without users whose objects stay, with a message lost in its segment
static void session(int i)
{
    std::thread([&] {
        auto& o = *new fm::ProgOptions(); o.SetProperty<string>("session", NAME[i]); o.SetProperty<size_t>("shm-segment-size", 16384); o.SetProperty<string>("shm-allocation", "rbtree_best_fit"); o.SetProperty<bool>("shm-no-cleanup", true);
        fm::shmem::TransportFactory f("d", &o); auto m = f.CreateMessage(500); m.release();
    }).join();
}
static size_t freeMem(int i) { return Monitor::GetFreeMemory(ShmId{IDS[user - 1000][i]}, 0); }
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit); rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); rt_clock_step(0); memset(&term, 0, sizeof term); term.c_lflag = ICANON | ECHO | ISIG;
#if WHAT == 0
    user = 1000 + sym_choice("user", 2); unsigned mine = sym_choice("session", 3); bool other = sym_choice("other sessions", 2), there = sym_choice("exists", 2), byId = sym_choice("by id", 2);
    size_t lost[3] = {}; if (there) session(mine); if (other) for (int i = 0; i < 3; ++i) if (i != (int)mine) session(i);
    for (int i = 0; i < 3; ++i) { bool e = i == (int)mine ? there : other; CHECK(rt_shm_exists(obj(i, "mng").c_str()) == e && rt_shm_exists(obj(i, "m_0").c_str()) == e, "the objects of a session carry the id made of its user and name"); CHECK(!rt_shm_exists(obj(i, "mng", 2001 - user).c_str()), "users do not share sessions"); if (e) lost[i] = freeMem(i); }
    vector<string> a; if (byId) { a = {"--shmid", IDS[user - 1000][mine]}; if (sym_choice("name too", 2)) { a.push_back("-s"); a.push_back("else"); } } else if (mine) a = {sym_choice("short", 2) ? "-s" : "--session", NAME[mine]};
    unsigned cmd = sym_choice("command", 13); int rc = -1; bool cleaned = false, reset = false, refused = false; int64_t t0 = rt_now();
    auto with = [&](vector<string> x) { x.insert(sym_choice("options first", 2) ? x.begin() : x.end(), a.begin(), a.end()); return run(x); };
    switch (cmd) {
        case 0: rc = with({"--cleanup"}); cleaned = true; break;
        case 1: rc = with({"-c"}); cleaned = true; break;
        case 2: rc = with({"--reset-content"}); reset = true; break;
        case 3: rc = with({"-r"}); reset = true; break;
        case 4: rc = with({}); break;
        case 5: rc = with({"-v"}); break;
        case 6: rc = with({"--get-shmid"}); break;
        case 7: rc = with({"-h", "--cleanup"}); break;
        case 8: rc = with({"--cleanup", "--unknown"}); refused = true; break;
        case 9: rc = with({"--timeout", "x", "--cleanup"}); refused = true; break;
        case 10: {   // a monitor that sees no heartbeats ends after twice its timeout, or with the session
            if (there) sym_end(); rc = with({"-m", "-x", "-t", "300"}); int64_t d = rt_now() - t0; CHECK(d > 600 * MS && d <= 800 * MS, "the timeout given is the one that counts"); cleaned = true; REACH("monitored"); break; }
        case 11: {   // stopped by a signal, with or without cleaning up
            bool clean = sym_choice("clean on exit", 2); std::thread k([] { std::this_thread::sleep_for(std::chrono::milliseconds(350)); rt_raise(SIGTERM); }); rc = clean ? with({"--monitor", "-e"}) : with({"-m"}); k.join(); cleaned = clean; REACH("monitored"); break; }
        case 12: { Monitor m(IDS[user - 1000][mine], false, false, false, 1000, 100, true, false); rc = with({"-m", "-x", "-e"}); CHECK(rt_now() - t0 < 100 * MS && rt_sem_exists(obj(mine, "ms").c_str()), "a second monitor of a session ends at once"); REACH("second"); break; }
    }
    CHECK(rc == (refused ? 2 : 0), "the exit code tells whether the command was understood"); if (refused) REACH("refused");
    for (int i = 0; i < 3; ++i) {
        bool e = i == (int)mine ? there && !cleaned : other; CHECK(rt_shm_exists(obj(i, "mng").c_str()) == e && rt_shm_exists(obj(i, "m_0").c_str()) == e, "a command affects its session and no other");
        if (e) CHECK(reset && i == (int)mine ? freeMem(i) > lost[i] : freeMem(i) == lost[i], "the content of a session is reset by the command for it only");
        CHECK(!rt_sem_exists(obj(i, "ms").c_str()), "no monitor stays registered");
    }
    if (there && cleaned) REACH("cleaned"); else if (there && reset) REACH("reset"); else REACH("nothing");
#elif WHAT == 1
    bool view = sym_choice("view only", 2), there = sym_choice("exists", 2), quit = sym_choice("quit", 2); unsigned n = sym_choice("keys", KEYS + 1); bool x = false; for (unsigned i = 0; i < n; ++i) { script += "xhb\nz"[sym_choice("key", 5)]; x |= script.back() == 'x'; } if (quit) script += 'q';
    if (there) session(1); session(0); std::thread k([&] { if (quit) return; std::this_thread::sleep_for(std::chrono::milliseconds(450)); rt_raise(SIGINT); });
    int rc = view ? run({"-i", "-v", "-s", "s"}) : run({"-i", "--session", "s", "--interval", "200"}); k.join();
    CHECK(rc == 0, "the interactive mode ends orderly"); CHECK(at == script.size(), "every key is read"); CHECK(term.c_lflag == (ICANON | ECHO | ISIG) && changed >= 2, "the terminal is left as it was found");
    CHECK(rt_shm_exists(obj(1, "mng").c_str()) == (there && (view || !x)), "a session is cleaned up on request, not in view-only mode"); CHECK(rt_shm_exists(obj(0, "mng").c_str()), "other sessions are left alone"); CHECK(!rt_sem_exists(obj(1, "ms").c_str()), "no monitor stays registered");
    if (there && x && !view) REACH("cleaned"); if (view) REACH("viewed"); if (quit) REACH("quit"); else REACH("signal");
#else
    // an id given as a number and as text mean the same session
    static const uint64_t V[] = {0, 1, 0x10, 0xab3133, 0x1234, 0x7fffffff, 0x80000000, 0xeca859e3, 0xffffffff}; uint64_t v = V[sym_choice("value", 9)]; string s = makeShmIdStr(v); char ref[32]; snprintf(ref, sizeof ref, "%08lx", (unsigned long)v); CHECK(s == ref, "an id is written with 8 hexadecimal digits");
    unsigned u = sym_choice("user", 2), i = sym_choice("session", 3); user = 1000 + u; CHECK(makeShmIdStr(NAME[i]) == IDS[u][i] && makeShmIdStr(NAME[i], std::to_string(user)) == IDS[u][i], "the id of a session is the beginning of the SHA-256 of user and name");
    CHECK(makeShmIdStr(makeShmIdUint64(NAME[i])) == IDS[u][i], "an id as a number and as text are the same");
    static const uint16_t K[] = {0, 9, 10, 99, 100, 9999, 32768, 65535}; uint16_t k = K[sym_choice("number", 8)]; CHECK(MakeShmName(IDS[u][i], "m", k) == obj((int)i, "m_") + std::to_string(k) && MakeShmName(IDS[u][i], "mng") == obj((int)i, "mng"), "objects are named after session, kind and number"); REACH("names");
#endif
}
