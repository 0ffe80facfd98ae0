//@ property P36
//@ sources fairmq/tools/Process.cxx
//@ flags -I/verif/rt/asio
//@ bounds one command; its standard output is any text of up to 3 (quick) or 5 (thorough) of four characters (line break, letter, blank, carriage return), written in up to two pieces at several times, its standard error up to three lines (together no more than 3 or 5 bytes) with or without the last line break; it ends on its own, at several times, possibly after closing its outputs or its input, or is ended by the signal; with and without input and signal; all orders of completions that are ready at the same time
//@ variant output -DWHAT=0 +quick=60 +thorough=300
//@ variant life -DWHAT=1 +quick=60 +thorough=300
//@ require done partial@output signalled@life input@life gone@life refused@life
#include <boost/process.hpp>
#include <fairmq/tools/Process.h>
#include <iostream>
#include <sstream>
using std::string; using std::vector;
#ifdef THOROUGH
const int N = 5;
#else
const int N = 3;
#endif
static const int64_t MS = 1000000; static bool blocked = false; static int sent = -1; static bool stray = false;
bool vpasio::sigpipeEnds() { return !blocked; }
extern "C" int kill(pid_t p, int s) noexcept { auto& c = vpasio::child(); c.happen(); if (p != 4242 || c.reaped) { stray = true; return -1; } sent = s; ++c.signals; if (c.killable) c.end(s); return 0; }
extern "C" int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) noexcept { if (o) { sigemptyset(o); if (blocked) sigaddset(o, SIGPIPE); } if (s) { bool in = sigismember(s, SIGPIPE) == 1; if (how == SIG_BLOCK) blocked |= in; else if (how == SIG_UNBLOCK) blocked &= !in; else blocked = in; } return 0; }
extern "C" int sigprocmask(int how, const sigset_t* s, sigset_t* o) noexcept { return pthread_sigmask(how, s, o); }
extern "C" int sigpending(sigset_t* s) noexcept { sigemptyset(s); return 0; }
extern "C" int sigtimedwait(const sigset_t*, siginfo_t*, const timespec*) { errno = EAGAIN; return -1; }
static vector<string> split(const string& s) { vector<string> v; string l; for (char c : s) { if (c == '\n') { v.push_back(l); l.clear(); } else l += c; } if (!l.empty()) v.push_back(l); return v; }
extern "C" void harness()
{
    rt_timeouts(false); rt_order(false); rt_deadlock("deadlock: every thread is blocked"); static std::ostringstream shown; auto* old = std::cout.rdbuf(shown.rdbuf());
    auto& c = vpasio::child(); string out, err, input; string prefix = WHAT == 0 || sym_choice("prefix", 2) ? "[P] " : ""; int sig = -1; c.code = 0; bool startFails = false;
    static const int64_t T[] = {0, 500 * MS, 1500 * MS, 2500 * MS};
#if WHAT == 0
    unsigned n = sym_choice("bytes", N + 1); for (unsigned i = 0; i < n; ++i) { out += "\na \r"[sym_choice("byte", 4)]; } unsigned cut = n > 1 ? sym_choice("cut", n) : 0; static const char* E[] = {"", "e", "e\n", "e\n\nf", "\n"}; err = E[sym_choice("errors", 5)]; unsigned te = err.empty() ? 0 : sym_choice("error time", 2); if (n + err.size() > N) sym_end();
    if (te == 0 && !err.empty()) c.script.push_back({0, 2, err});
    if (cut) c.script.push_back({0, 1, out.substr(0, cut)}); if (n) c.script.push_back({T[1], 1, out.substr(cut)}); if (te && !err.empty()) c.script.push_back({T[1], 2, err});
    c.endsAt = T[1]; { static const int codes[] = {0, 1, 255}; c.code = codes[sym_choice("exit code", 3)]; } if (n && out[n - 1] != '\n') REACH("partial");
#else
    bool in = sym_choice("input", 2), hasSig = sym_choice("signal", 2), never = hasSig && sym_choice("never ends", 2); unsigned te = never ? 4 : sym_choice("ends", 4); if (hasSig) sig = sym_choice("which", 2) ? SIGINT : SIGKILL; if (in) input = sym_choice("input text", 2) ? "q\n" : "ab"; startFails = sym_choice("cannot be started", 2);
    c.startFails = startFails; c.endsAt = never ? -1 : T[te]; { static const int codes[] = {0, 1, 255}; c.code = codes[sym_choice("exit code", 3)]; } out = "x\ny\n"; c.script.push_back({0, 1, "x\n"}); unsigned early = sym_choice("closes", 3); if (early == 1) c.script.push_back({0, 0, ""}); c.script.push_back({te > 0 ? T[1] : 0, 1, "y\n"}); if (early == 2) c.script.push_back({te > 0 ? T[1] : 0, -1, ""});
    if (te < 4 && te > 1) { c.script.push_back({1200 * MS, 1, "z"}); if (early != 2) out += "z"; else c.script.pop_back(); }
#endif
    fair::mq::tools::execute_result r; bool thrown = false; bool was = blocked = WHAT == 1 && sym_choice("SIGPIPE blocked before", 2);
    try { r = fair::mq::tools::execute("prog arg", prefix, input, sig); } catch (std::exception&) { thrown = true; }
    std::cout.rdbuf(old); CHECK(blocked == was, "the signal mask is as before"); CHECK(!stray, "no other process gets a signal"); CHECK(c.cmd == "prog arg", "the given command is run");
    if (startFails) { CHECK(thrown, "a command that cannot be started is reported"); CHECK(sent == -1, "no signal is sent unasked"); REACH("refused"); REACH("done"); return; }
    CHECK(!thrown, "a command that can be run is"); CHECK(c.reaped && c.ended, "the command has ended");
    bool signalled = sig != -1 && (c.endsAt < 0 || c.endsAt > 2000 * MS);
    CHECK(sig == -1 ? sent == -1 : !signalled || sent == sig, "the given signal is sent, and only if asked for"); if (signalled) { CHECK(r.exit_code == sig, "a command ended by the signal reports it"); REACH("signalled"); } else CHECK(r.exit_code == c.code, "the exit code of the command is returned");
    // the input arrives once, if the command can take it
    if (!input.empty()) { bool takes = (c.endsAt < 0 || c.endsAt > 1000 * MS) && !(WHAT == 1 && c.script.size() > 1 && c.script[1].fd == 0); CHECK(c.received == (takes ? input : ""), "the command gets the given input"); if (takes) REACH("input"); else REACH("gone"); } else CHECK(c.received.empty(), "the command gets no input unasked");
    // the output is complete, line by line
    auto lines = split(r.console_out); CHECK(shown.str() == r.console_out, "what is captured is shown as well"); CHECK(lines.size() >= 3 && lines[0] == prefix + "prog arg", "the output starts with the command");
    auto o = split(out), e = split(err); size_t i = 0, j = 0; bool other = false;
    for (size_t k = 2; k + 1 < lines.size(); ++k) { auto& l = lines[k]; if (j < e.size() && l == prefix + "error: " + e[j]) ++j; else if (i < o.size() && l.size() == prefix.size() + o[i].size()) { CHECK(l == prefix + o[i], "every line of output is returned, with the prefix, in order"); ++i; } else other = true; }
    CHECK(i == o.size(), "the whole output is returned"); CHECK(j == e.size(), "all errors are returned"); CHECK(!other || !input.empty(), "nothing else is returned"); REACH("done");
}
