// Model of the part of Boost.Asio and Boost.Process that runs a command: a child process with a script in virtual time,
// its pipes, timers, and an event loop that takes ready completions in any order.
#pragma once
#include <rt/rt.h>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/streambuf.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <chrono>
#include <cstdint>
#include <deque>
#include <functional>
#include <string>
#include <vector>
#include <csignal>
#include <cerrno>
#include <cstring>
namespace vpasio {
using error_code = boost::system::error_code;
struct Pipe { std::string data; bool writerGone = false, readerGone = false; };
struct Step { int64_t at; int fd; std::string data; };           // fd 1, 2: output; 0: the child closes its standard input; -1: it closes its outputs
struct Child
{
    std::vector<Step> script; int64_t endsAt = -1; int code = 0; bool killable = true, startFails = false;
    size_t next = 0; bool started = false, ended = false, reaped = false; int64_t t0 = 0; int status = 0; std::string cmd, received; int signals = 0; Pipe* pipes[3] = {};
    void closeAll() { for (int i = 1; i < 3; ++i) if (pipes[i]) pipes[i]->writerGone = true; if (pipes[0]) pipes[0]->readerGone = true; }
    void end(int s) { if (ended) return; ended = true; status = s; closeAll(); }
    int64_t nextEvent() const { if (!started || ended) return -1; int64_t t = endsAt < 0 ? -1 : t0 + endsAt; if (next < script.size() && (t < 0 || t0 + script[next].at <= t)) t = t0 + script[next].at; return t; }
    void happen()      // what is due
    {
        for (int64_t t; (t = nextEvent()) >= 0 && t <= rt_now();) {
            if (next < script.size() && t0 + script[next].at == t) { auto& s = script[next++]; if (s.fd > 0) { if (pipes[s.fd]) pipes[s.fd]->data += s.data; } else if (s.fd == 0) { if (pipes[0]) pipes[0]->readerGone = true; } else for (int i = 1; i < 3; ++i) if (pipes[i]) pipes[i]->writerGone = true; }
            else end(code);
        }
    }
};
inline Child& child() { static Child c; return c; }
bool sigpipeEnds();      // whether SIGPIPE would end this process, recorded by the check
struct Op { std::function<int64_t()> due; std::function<void()> run; void* of; };   // due: 0 now, -1 not before something else happens, else a time
}
namespace boost::asio {
class io_context
{
  public:
    std::deque<vpasio::Op> ops; bool stopped_ = false;
    std::size_t run()
    {
        std::size_t n = 0;
        while (!ops.empty() && !stopped_) {
            vpasio::child().happen(); std::vector<std::size_t> ready; int64_t soonest = vpasio::child().nextEvent();
            for (std::size_t i = 0; i < ops.size(); ++i) { int64_t d = ops[i].due(); if (d == 0 || (d > 0 && d <= rt_now())) ready.push_back(i); else if (d > 0 && (soonest < 0 || d < soonest)) soonest = d; }
            if (ready.empty()) { if (soonest < 0) { CHECK(false, "the event loop ends"); sym_end(); } rt_advance(soonest - rt_now() > 0 ? soonest - rt_now() : 0); continue; }
            std::size_t k = ready[ready.size() > 1 ? sym_choice("completion", ready.size()) : 0]; auto op = ops[k]; ops.erase(ops.begin() + k); op.run(); ++n;
        }
        return n;
    }
    void stop() { stopped_ = true; } bool stopped() const { return stopped_; } void restart() { stopped_ = false; }
};
using io_service = io_context;
template<class F> void post(io_context& c, F f) { c.ops.push_back({[] { return int64_t(0); }, f, nullptr}); }
class steady_timer
{
    io_context& c; int64_t at = 0;
  public:
    explicit steady_timer(io_context& x) : c(x) {}
    template<class D> steady_timer(io_context& x, D d) : c(x) { expires_after(d); }
    ~steady_timer() { for (std::size_t i = 0; i < c.ops.size();) if (c.ops[i].of == this) c.ops.erase(c.ops.begin() + i); else ++i; }
    template<class D> std::size_t expires_after(D d) { at = rt_now() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return 0; }
    template<class D> std::size_t expires_from_now(D d) { return expires_after(d); }
    template<class H> void async_wait(H h) { int64_t t = at; c.ops.push_back({[t] { return t <= rt_now() ? int64_t(0) : t; }, [h]() mutable { h(vpasio::error_code()); }, this}); }
    std::size_t cancel() { std::size_t n = 0; for (auto& o : c.ops) if (o.of == this) { /* completed with an error in the real library */ ++n; } for (std::size_t i = 0; i < c.ops.size();) if (c.ops[i].of == this) c.ops.erase(c.ops.begin() + i); else ++i; return n; }
};
}
namespace boost::process {
class async_pipe
{
  public:
    asio::io_context& c; vpasio::Pipe p; bool closed = false;
    explicit async_pipe(asio::io_context& x) : c(x) {}
    ~async_pipe() { close(); }
    void close() { closed = true; for (std::size_t i = 0; i < c.ops.size();) if (c.ops[i].of == this) c.ops.erase(c.ops.begin() + i); else ++i; }
    void async_close() { asio::post(c, [this] { close(); }); }
    bool is_open() const { return !closed; }
    void cancel() {}
};
}
namespace boost::asio {
template<class H> void async_read_until(process::async_pipe& p, streambuf& b, const std::string& delim, H h)
{
    auto has = [&b, delim] { auto d = b.data(); auto* s = (const char*)d.data(); for (std::size_t i = 0; i + delim.size() <= d.size(); ++i) { bool eq = true; for (std::size_t j = 0; j < delim.size(); ++j) if (s[i + j] != delim[j]) { eq = false; break; } if (eq) return i + delim.size(); } return std::size_t(0); };
    if (std::size_t n = has()) { post(p.c, [h, n]() mutable { h(vpasio::error_code(), n); }); return; }
    p.c.ops.push_back({[&p] { return p.p.data.empty() && !p.p.writerGone ? int64_t(-1) : int64_t(0); },
        [&p, &b, delim, h, has]() mutable {
            if (p.p.data.empty()) { h(vpasio::error_code(error::eof), std::size_t(0)); return; }
            { std::size_t k = p.p.data.size(); auto mb = b.prepare(k); std::memcpy(mb.data(), p.p.data.data(), k); b.commit(k); p.p.data.clear(); }
            if (std::size_t n = has()) h(vpasio::error_code(), n); else async_read_until(p, b, delim, h);
        }, &p});
}
template<class H> void async_read_until(process::async_pipe& p, streambuf& b, char delim, H h) { async_read_until(p, b, std::string(1, delim), h); }
template<class B, class H> void async_write(process::async_pipe& p, const B& buf, H h)
{
    const_buffer cb(buf); std::string s((const char*)cb.data(), cb.size());
    p.c.ops.push_back({[] { return int64_t(0); },
        [&p, s, h]() mutable {
            if (p.p.readerGone) {
                CHECK(!vpasio::sigpipeEnds(), "a command that ends before it is given its input does not end the caller");
                h(vpasio::error_code(EPIPE, system::system_category()), std::size_t(0)); return;
            }
            vpasio::child().received += s; h(vpasio::error_code(), s.size());
        }, &p});
}
}
