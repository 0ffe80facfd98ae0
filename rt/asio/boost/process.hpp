#pragma once
#include "asio.hpp"
#include <stdexcept>
#include <thread>
namespace boost::process {
using pid_t = int;
struct process_error : boost::system::system_error { using system_error::system_error; };
struct Redirect { int fd; async_pipe* p; };
struct Out { int fd; Redirect operator>(async_pipe& p) const { return {fd, &p}; } };
struct In { Redirect operator<(async_pipe& p) const { return {0, &p}; } };
inline const Out std_out{1}, std_err{2}; inline const In std_in{};
class child
{
    static void take(const Redirect& r) { vpasio::child().pipes[r.fd] = &r.p->p; }
    bool own = false;
  public:
    child() = default;
    template<class... A> explicit child(const std::string& cmd, A&&... a) : own(true)
    {
        auto& c = vpasio::child(); CHECK(!c.started, "a command is run once"); c.cmd = cmd;
        if (c.startFails) throw process_error(vpasio::error_code(ENOENT, boost::system::system_category()), "execve failed");
        (take(a), ...); c.started = true; c.t0 = rt_now(); c.happen();
    }
    child(const child&) = delete; child& operator=(const child&) = delete;
    ~child() { if (own && !vpasio::child().reaped) vpasio::child().end(9); }       // a child nobody waited for is terminated
    int id() const { return 4242; }
    bool valid() const { return own; } bool joinable() const { return own; }
    void wait() { auto& c = vpasio::child(); for (c.happen(); !c.ended; c.happen()) { int64_t t = c.nextEvent(); if (t < 0) { CHECK(false, "waiting for the command ends"); sym_end(); } rt_advance(t - rt_now() > 0 ? t - rt_now() : 0); } c.reaped = true; }
    void wait(vpasio::error_code& ec) { ec = {}; wait(); }
    bool running() { auto& c = vpasio::child(); c.happen(); if (c.ended) c.reaped = true; return !c.ended; }
    bool running(vpasio::error_code& ec) { ec = {}; return running(); }
    int exit_code() const { return vpasio::child().reaped ? vpasio::child().status : -1; }
    int native_exit_code() const { return exit_code(); }
    void terminate() { vpasio::child().end(9); vpasio::child().reaped = true; }
    void detach() { own = false; }
};
}
