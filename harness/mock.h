// A minimal transport with in-process queues: the environment of the transport independent code under check.
#pragma once
#include <fairmq/TransportFactory.h>
#include <fairmq/Message.h>
#include <fairmq/Socket.h>
#include <fairmq/Poller.h>
#include <fairmq/UnmanagedRegion.h>
#include <fairmq/Parts.h>
#include <rt/rt.h>
#include <cstdlib>
#include <cstring>
#include <fairmq/Channel.h>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <condition_variable>
namespace mock {
using namespace fair::mq;
inline int& live() { static int n = 0; return n; }
struct Msg : Message
{
    void* buf = nullptr; size_t size = 0, cap = 0; FreeFn* ffn = nullptr; void* hint = nullptr; bool owned = false; size_t align = 0; Transport type;
    explicit Msg(TransportFactory* f, Transport t) : Message(f), type(t) { ++live(); }
    ~Msg() override { drop(); --live(); }
    void drop() { if (owned) free(buf); else if (ffn) ffn(buf, hint); buf = nullptr; size = cap = 0; ffn = nullptr; owned = false; }
    void alloc(size_t n, size_t a) { drop(); align = a; size = cap = n; if (n) { if (a > 16) { if (posix_memalign(&buf, a, n)) throw std::bad_alloc(); } else { buf = malloc(n); if (!buf) throw std::bad_alloc(); } owned = true; } }
    void Rebuild() override { drop(); }
    void Rebuild(Alignment) override { drop(); }
    void Rebuild(size_t n) override { alloc(n, 0); }
    void Rebuild(size_t n, Alignment a) override { alloc(n, a.alignment); }
    void Rebuild(void* d, size_t n, FreeFn* f, void* h = nullptr) override { drop(); buf = d; size = cap = n; ffn = f; hint = h; }
    void* GetData() const override { return buf; }
    size_t GetSize() const override { return size; }
    bool SetUsedSize(size_t n, Alignment = Alignment{0}) override { if (n > cap) return false; size = n; return true; }
    Transport GetType() const override { return type; }
    void Copy(const Message& o) override { size_t n = o.GetSize(); alloc(n, 0); if (n) memcpy(buf, o.GetData(), n); }
};
// what waiting transfers and polls do when there is nothing to receive; returns whether to look again
struct Sock;
inline std::function<bool()>& onIdle() { static std::function<bool()> f; return f; }
// called for every socket that is created
inline std::function<void(Sock*)>& onCreate() { static std::function<void(Sock*)> f; return f; }
inline std::function<void(Sock*, const std::string&)>& onBind() { static std::function<void(Sock*, const std::string&)> f; return f; }
// decides about a transfer that is to be sent: 0, or the result of a failing Send
inline std::function<int64_t(Sock*)>& onSend() { static std::function<int64_t(Sock*)> f; return f; }
struct Wire { std::deque<std::vector<MessagePtr>> q; };
struct Factory : TransportFactory
{
    Transport type; int interrupts = 0, resumes = 0, resets = 0; bool interrupted = false; int created = 0; std::deque<Sock*> sockets; RegionEventCallback regionCb;
    explicit Factory(Transport t = Transport::ZMQ, const std::string& id = "mock") : TransportFactory(id), type(t) {}
    MessagePtr mk() { ++created; return MessagePtr(new Msg(this, type)); }
    MessagePtr CreateMessage() override { return mk(); }
    MessagePtr CreateMessage(Alignment) override { return mk(); }
    MessagePtr CreateMessage(size_t n) override { auto m = mk(); m->Rebuild(n); return m; }
    MessagePtr CreateMessage(size_t n, Alignment a) override { auto m = mk(); m->Rebuild(n, a); return m; }
    MessagePtr CreateMessage(void* d, size_t n, FreeFn* f, void* h = nullptr) override { auto m = mk(); m->Rebuild(d, n, f, h); return m; }
    MessagePtr CreateMessage(UnmanagedRegionPtr&, void* d, size_t n, void* = nullptr) override { auto m = mk(); m->Rebuild(d, n, nullptr, nullptr); return m; }
    SocketPtr CreateSocket(const std::string& type, const std::string& name) override;
    PollerPtr CreatePoller(const std::vector<Channel>&) const override;
    PollerPtr CreatePoller(const std::vector<Channel*>&) const override;
    PollerPtr CreatePoller(const std::unordered_map<std::string, std::vector<Channel>>&, const std::vector<std::string>&) const override;
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionCallback = nullptr, const std::string& = "", int = 0, RegionConfig = RegionConfig()) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionBulkCallback = nullptr, const std::string& = "", int = 0, RegionConfig = RegionConfig()) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, int64_t, RegionCallback = nullptr, const std::string& = "", int = 0, RegionConfig = RegionConfig()) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, int64_t, RegionBulkCallback = nullptr, const std::string& = "", int = 0, RegionConfig = RegionConfig()) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionCallback, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionBulkCallback, RegionConfig) override { return nullptr; }
    void SubscribeToRegionEvents(RegionEventCallback cb) override { regionCb = cb; }
    bool SubscribedToRegionEvents() override { return (bool)regionCb; }
    void UnsubscribeFromRegionEvents() override { regionCb = nullptr; }
    std::vector<RegionInfo> GetRegionInfo() override { return {}; }
    Transport GetType() const override { return type; }
    void Interrupt() override { std::lock_guard<std::mutex> l(mtx); ++interrupts; interrupted = true; cv.notify_all(); }
    void waitInterrupt() { std::unique_lock<std::mutex> l(mtx); cv.wait(l, [this] { return interrupted; }); }
    std::mutex mtx; std::condition_variable cv;
    void Resume() override { std::lock_guard<std::mutex> l(mtx); ++resumes; interrupted = false; }
    void Reset() override { ++resets; }
};
struct Sock : Socket
{
    Factory* f; std::string type, name; std::map<std::string, int> opt; std::vector<std::string> bound, connected;
    Wire in, out; int64_t nextResult = 0; bool forceResult = false; int lastTimeout = 12345; int sends = 0, receives = 0; bool closed = false;
    // behaviour of Bind/Connect: the model decides
    bool (*bindOk)(const std::string&) = nullptr; bool (*connectOk)(const std::string&) = nullptr;
    Sock(Factory* fac, const std::string& t, const std::string& n) : Socket(fac), f(fac), type(t), name(n) { f->sockets.push_back(this); }
    ~Sock() override { for (auto& s : f->sockets) if (s == this) s = nullptr; }
    std::string GetId() const override { return name; }
    bool Bind(const std::string& a) override { if (bindOk && !bindOk(a)) return false; bound.push_back(a); if (onBind()) onBind()(this, a); return true; }
    bool Connect(const std::string& a) override { if (connectOk && !connectOk(a)) return false; connected.push_back(a); return true; }
    int64_t Send(MessagePtr& m, int t = -1) override { ++sends; lastTimeout = t; if (forceResult) return nextResult; if (onSend()) if (int64_t r = onSend()(this)) return r; int64_t n = m->GetSize(); std::vector<MessagePtr> v; v.push_back(std::move(m)); out.q.push_back(std::move(v)); return n; }
    int64_t Receive(MessagePtr& m, int t = -1) override { ++receives; lastTimeout = t; if (forceResult) return nextResult; while (in.q.empty()) { if (f->interrupted) return (int64_t)TransferCode::interrupted; if (t >= 0 || !onIdle() || !onIdle()()) return (int64_t)(f->interrupted ? TransferCode::interrupted : TransferCode::timeout); } m = std::move(in.q.front()[0]); in.q.pop_front(); return m->GetSize(); }
    int64_t Send(Parts::container& v, int t = -1) override { ++sends; lastTimeout = t; if (forceResult) return nextResult; if (onSend()) if (int64_t r = onSend()(this)) return r; int64_t n = 0; for (auto& m : v) n += m->GetSize(); out.q.push_back(std::move(v)); v.clear(); return n; }
    int64_t Receive(Parts::container& v, int t = -1) override { ++receives; lastTimeout = t; if (forceResult) return nextResult; while (in.q.empty()) { if (f->interrupted) return (int64_t)TransferCode::interrupted; if (t >= 0 || !onIdle() || !onIdle()()) return (int64_t)(f->interrupted ? TransferCode::interrupted : TransferCode::timeout); } int64_t n = 0; for (auto& m : in.q.front()) { n += m->GetSize(); v.push_back(std::move(m)); } in.q.pop_front(); return n; }
    void Close() override { closed = true; }
    void SetOption(const std::string& o, const void* v, size_t) override { opt[o] = *(const int*)v; }
    void GetOption(const std::string& o, void* v, size_t*) override { *(int*)v = opt[o]; }
    int Events(uint32_t* e) override { *e = 0; return 0; }
    void SetLinger(int v) override { opt["linger"] = v; } int GetLinger() const override { return get("linger"); }
    void SetSndBufSize(int v) override { opt["snd-hwm"] = v; } int GetSndBufSize() const override { return get("snd-hwm"); }
    void SetRcvBufSize(int v) override { opt["rcv-hwm"] = v; } int GetRcvBufSize() const override { return get("rcv-hwm"); }
    void SetSndKernelSize(int v) override { opt["snd-size"] = v; } int GetSndKernelSize() const override { return get("snd-size"); }
    void SetRcvKernelSize(int v) override { opt["rcv-size"] = v; } int GetRcvKernelSize() const override { return get("rcv-size"); }
    int get(const char* k) const { auto i = opt.find(k); return i == opt.end() ? -999 : i->second; }
    unsigned long bytesTx = 0, bytesRx = 0, messagesTx = 0, messagesRx = 0;
    unsigned long GetBytesTx() const override { return bytesTx; } unsigned long GetBytesRx() const override { return bytesRx; }
    unsigned long GetMessagesTx() const override { return messagesTx; } unsigned long GetMessagesRx() const override { return messagesRx; }
    unsigned long GetNumberOfConnectedPeers() const override { return 0; }
};
struct Pollr : Poller
{
    std::vector<Sock*> single; std::map<std::string, std::vector<Sock*>> named; std::map<Sock*, bool> in; const Factory* f;
    static Sock* sock(const Channel& c) { return (Sock*)&const_cast<Channel&>(c).GetSocket(); }
    bool look() { bool any = false; for (auto& e : in) { e.second = e.first && !e.first->in.q.empty(); any |= e.second; } return any; }
    void Poll_(int t) { if (look() || f->interrupted) return; if (onIdle()) onIdle()(); else { std::unique_lock<std::mutex> l(const_cast<Factory*>(f)->mtx); auto woken = [&] { return f->interrupted || look(); }; auto& cv = const_cast<Factory*>(f)->cv; if (t < 0) cv.wait(l, woken); else cv.wait_for(l, std::chrono::milliseconds(t), woken); } look(); }
    void Poll(int t) override { Poll_(t); }
    bool CheckInput(int i) override { return in.at(single.at(i)); }
    bool CheckOutput(int) override { return true; }
    bool CheckInput(const std::string& n, int i) override { return in.at(named.at(n).at(i)); }
    bool CheckOutput(const std::string&, int) override { return true; }
};
inline PollerPtr Factory::CreatePoller(const std::vector<Channel>& v) const { auto p = std::make_unique<mock::Pollr>(); p->f = this; for (auto& c : v) { p->single.push_back(Pollr::sock(c)); p->in[Pollr::sock(c)] = false; } return p; }
inline PollerPtr Factory::CreatePoller(const std::vector<Channel*>& v) const { auto p = std::make_unique<mock::Pollr>(); p->f = this; for (auto* c : v) { p->single.push_back(Pollr::sock(*c)); p->in[Pollr::sock(*c)] = false; } return p; }
inline PollerPtr Factory::CreatePoller(const std::unordered_map<std::string, std::vector<Channel>>& m, const std::vector<std::string>& k) const
{
    auto p = std::make_unique<mock::Pollr>(); p->f = this; for (auto& n : k) for (auto& c : m.at(n)) { p->named[n].push_back(Pollr::sock(c)); p->in[Pollr::sock(c)] = false; } return p;
}
inline SocketPtr Factory::CreateSocket(const std::string& t, const std::string& n) { auto* s = new Sock(this, t, n); if (onCreate()) onCreate()(s); return SocketPtr(s); }
}
