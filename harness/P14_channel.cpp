//@ property P14
//@ sources fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/TransportFactory.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds validation: every 8-bit character in the name, 13 socket types, 4 methods, addresses of 1 or 2 endpoints from 18 forms with every modifier, all 32-bit sizes; copies, moves, properties and transport settings: all 32-bit values of every setting at once; updates: every setter
//@ variant name -DWHAT=0
//@ variant type -DWHAT=1
//@ variant address -DWHAT=2
//@ variant sizes -DWHAT=3
//@ variant copy -DWHAT=4
//@ variant props -DWHAT=5
//@ variant init -DWHAT=6
//@ variant timeouts -DWHAT=7
//@ require valid@name,type,address,sizes invalid@name,address refused@type,address,sizes copied@copy props@props init@init passed@timeouts
#include <harness/mock.h>
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
using namespace fair::mq; using std::string;
struct Cfg { string name = "data[0]", type = "push", method = "bind", address = "tcp://*:1", transport = "zeromq"; int v[11] = {}; bool autoBind = true; };
static void setAll(Channel& c, const Cfg& f)
{
    c.UpdateName(f.name); c.UpdateType(f.type); c.UpdateMethod(f.method); c.UpdateAddress(f.address); c.UpdateTransport(f.transport);
    c.UpdateSndBufSize(f.v[0]); c.UpdateRcvBufSize(f.v[1]); c.UpdateSndKernelSize(f.v[2]); c.UpdateRcvKernelSize(f.v[3]); c.UpdateSndTimeout(f.v[4]); c.UpdateRcvTimeout(f.v[5]);
    c.UpdateLinger(f.v[6]); c.UpdateRateLogging(f.v[7]); c.UpdatePortRangeMin(f.v[8]); c.UpdatePortRangeMax(f.v[9]); c.UpdateAutoBind(f.autoBind);
}
static void compare(const Channel& c, const Cfg& f, const char* msg)
{
    CHECK(c.GetName() == f.name && c.GetType() == f.type && c.GetMethod() == f.method && c.GetAddress() == f.address && c.GetTransportName() == f.transport, msg);
    CHECK(c.GetSndBufSize() == f.v[0], msg); CHECK(c.GetRcvBufSize() == f.v[1], msg); CHECK(c.GetSndKernelSize() == f.v[2], msg); CHECK(c.GetRcvKernelSize() == f.v[3], msg);
    CHECK(c.GetSndTimeout() == f.v[4], msg); CHECK(c.GetRcvTimeout() == f.v[5], msg); CHECK(c.GetLinger() == f.v[6], msg); CHECK(c.GetRateLogging() == f.v[7], msg);
    CHECK(c.GetPortRangeMin() == f.v[8], msg); CHECK(c.GetPortRangeMax() == f.v[9], msg); CHECK(c.GetAutoBind() == f.autoBind, msg);
}
static Cfg symbolic() { Cfg f; const char* N[] = {"sndBuf", "rcvBuf", "sndKernel", "rcvKernel", "sndTimeout", "rcvTimeout", "linger", "rate", "portMin", "portMax"}; for (int i = 0; i < 10; ++i) f.v[i] = sym_i32(N[i]); f.autoBind = sym_bool("autoBind"); return f; }
// 1 valid, 0 invalid, 2 refused with an exception
static int validate(Channel& c) { int r; try { r = c.Validate() ? 1 : 0; } catch (Channel::ChannelConfigurationError&) { r = 2; } CHECK(c.IsValid() == (r == 1), "a channel is marked valid exactly when validation succeeded"); return r; }
static Channel good() { Channel c("push", "bind", "tcp://*:1"); c.UpdateName("data[0]"); return c; }
static bool okEndpoint(const string& e)
{
    string a = e; if (!a.empty() && (a[0] == '@' || a[0] == '+' || a[0] == '>')) a = a.substr(1);
    for (const char* p : {"ipc://", "inproc://", "verbs://"}) { string s(p); if (a.compare(0, s.size(), s) == 0) return a.size() > s.size(); }
    return a.compare(0, 6, "tcp://") == 0 && a.find(':', 6) != string::npos;
}
extern "C" void harness()
{
    sym_mode("ostream-display", 1);
#if WHAT == 0
    char n[3]; n[0] = 'a'; n[1] = (char)sym_conc(sym_u8("character")); n[2] = 'b'; if (sym_choice("place", 2)) std::swap(n[0], n[1]);
    Channel c = good(); c.UpdateName(string(n, 3)); CHECK(!c.IsValid(), "a changed channel is not valid");
    bool ok = true; for (char ch : n) ok = ok && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '-' || ch == '_' || ch == '[' || ch == ']' || ch == '#');
    int r = validate(c); CHECK(r == (ok ? 1 : 0), "a channel name is valid exactly when it consists of allowed characters"); if (ok) REACH("valid"); else REACH("invalid");
    Channel e = good(); e.UpdateName(""); CHECK(validate(e) == 1, "an empty name is allowed");
#elif WHAT == 1
    static const char* T[] = {"sub", "pub", "pull", "push", "req", "rep", "xsub", "xpub", "dealer", "router", "pair", "unspecified", "", "Push", "pushx", "spub", "stream"}; unsigned t = sym_choice("type", 17);
    static const char* Me[] = {"bind", "connect", "unspecified", "", "Bind"}; unsigned m = sym_choice("method", 5); bool mod = sym_choice("modifier", 2);
    Channel c = good(); c.UpdateType(T[t]); c.UpdateMethod(Me[m]); c.UpdateAddress(mod ? "@tcp://*:1" : "tcp://*:1");
    bool ok = t < 11 && (m < 2 || mod); int r = validate(c); CHECK(r == (ok ? 1 : 2), "a channel is accepted exactly for the known socket types and methods, other configurations are refused");
    if (ok) REACH("valid"); else REACH("refused");
    if (ok) { CHECK(validate(c) == 1, "validating again succeeds"); c.Invalidate(); CHECK(!c.IsValid(), "an invalidated channel is not valid"); CHECK(validate(c) == 1, "validating again succeeds"); }
#elif WHAT == 2
    static const char* E[] = {"tcp://h:1", "tcp://*:1", "tcp://h", "tcp://", "tcp:/h:1", "ipc://", "ipc://x", "inproc://", "inproc://x", "verbs://", "verbs://x", "http://x:1", "", "x", "tcp", "ipc", "shm://a", "tcp://:"};
    auto ep = [&](const char* nm) { unsigned mod = sym_choice("modifier", 4); return string(mod == 0 ? "" : mod == 1 ? "@" : mod == 2 ? "+" : ">") + E[sym_choice(nm, 18)]; };
    string a = ep("first"); bool two = sym_choice("two", 2); string b = two ? ep("second") : "", addr = a + (two ? "," + b : ""); bool hasMethod = sym_choice("method", 2);
    Channel c = good(); c.UpdateMethod(hasMethod ? "connect" : "unspecified"); c.UpdateAddress(addr);
    auto mod = [](const string& s) { return !s.empty() && (s[0] == '@' || s[0] == '+' || s[0] == '>'); };
    int expect; // endpoints are judged in order
    if (addr.empty()) expect = 0;
    else { expect = 1; for (int i = 0; i < (two ? 2 : 1) && expect == 1; ++i) { const string& e = i ? b : a; if (!mod(e) && !hasMethod) expect = 2; else if (!okEndpoint(e)) expect = 0; } }
    int r = validate(c); CHECK((r == 1) == (expect == 1), "an address is accepted exactly when each of its endpoints has a known protocol, the parts this needs and a method"); CHECK(r == expect, "a missing connection method is refused with an exception, a malformed address is reported as invalid");
    if (r == 1) REACH("valid"); else if (r == 0) REACH("invalid"); else REACH("refused");
    c.UpdateAddress("unspecified"); CHECK(validate(c) == 0, "an unspecified address is invalid");
#elif WHAT == 3
    Channel c = good(); int v = sym_i32("size"); unsigned k = sym_choice("setting", 10); bool neg = v < 0;
    switch (k) { case 0: c.UpdateSndBufSize(v); break; case 1: c.UpdateRcvBufSize(v); break; case 2: c.UpdateSndKernelSize(v); break; case 3: c.UpdateRcvKernelSize(v); break; case 4: c.UpdateRateLogging(v); break;
        case 5: c.UpdateLinger(v); break; case 6: c.UpdateSndTimeout(v); break; case 7: c.UpdateRcvTimeout(v); break; case 8: c.UpdatePortRangeMin(v); break; default: c.UpdatePortRangeMax(v); }
    int r = validate(c); bool limited = k < 5;
    CHECK(r == (limited && neg ? 2 : 1), "a negative size or logging interval is refused, every other value is accepted"); if (r == 1) REACH("valid"); else REACH("refused");
#elif WHAT == 4
    Cfg f = symbolic(); Channel c; setAll(c, f); compare(c, f, "a setting reads back as set"); CHECK(!c.IsValid(), "a changed channel is not valid");
    unsigned how = sym_choice("how", 6); auto fac = std::make_shared<mock::Factory>(Transport::ZMQ);
    Channel v = good(); v.Validate(); CHECK(v.IsValid(), "");
    if (how == 0) { Channel d(c); compare(d, f, "a copied channel has the settings of the original"); CHECK(!d.IsValid(), "a copied channel needs validation"); }
    else if (how == 1) { Channel d(c, "other[1]"); f.name = "other[1]"; compare(d, f, "a channel copied with a new name has the settings of the original and that name"); CHECK(d.GetPrefix() == "other" && d.GetIndex() == "1", "prefix and index are the parts of the name"); CHECK(!d.IsValid(), "a copied channel needs validation"); }
    else if (how == 2) { v = c; compare(v, f, "an assigned channel has the settings of the original"); CHECK(!v.IsValid(), "an assigned channel needs validation"); v = *&v; compare(v, f, "self assignment changes nothing"); }
    else if (how == 3) { Channel d(std::move(c)); compare(d, f, "a moved channel keeps its settings"); }
    else if (how == 4) { Channel d; d = std::move(c); compare(d, f, "a moved channel keeps its settings"); }
    else { Channel d(v); CHECK(v.IsValid() && !d.IsValid(), "a copied channel needs validation, the original stays valid"); Channel s("n", "push", fac); CHECK(s.GetTransportType() == Transport::ZMQ && s.Transport() == fac.get(), "a channel created with a transport uses it"); Channel e(s); CHECK(e.Transport() == nullptr && e.GetNumberOfConnectedPeers() == 0, "a copy does not share the socket or the transport"); CHECK(s.GetSocket().GetId() == "n", "the original keeps its socket"); }
    REACH("copied");
    // every setter invalidates
    Channel w = good(); w.Validate(); unsigned k = how == 0 ? sym_choice("setter", 16) : 0;
    switch (k) { case 0: w.UpdateName("x"); break; case 1: w.UpdateType("pull"); break; case 2: w.UpdateMethod("connect"); break; case 3: w.UpdateAddress("ipc://x"); break; case 4: w.UpdateTransport("shmem"); break; case 5: w.UpdateSndBufSize(1); break; case 6: w.UpdateRcvBufSize(1); break; case 7: w.UpdateSndKernelSize(1); break; case 8: w.UpdateRcvKernelSize(1); break; case 9: w.UpdateSndTimeout(1); break; case 10: w.UpdateRcvTimeout(1); break; case 11: w.UpdateLinger(1); break; case 12: w.UpdateRateLogging(2); break; case 13: w.UpdatePortRangeMin(1); break; case 14: w.UpdatePortRangeMax(1); break; default: w.UpdateAutoBind(false); }
    CHECK(!w.IsValid(), "a changed channel is not valid"); CHECK(validate(w) == 1, "a changed channel can be validated again");
#elif WHAT == 5
    // to properties and back
    Cfg f = symbolic(); f.transport = sym_choice("transport", 2) ? "shmem" : "default"; Channel c; setAll(c, f); ProgOptions& o = *new ProgOptions(); unsigned n = sym_choice("channels", 3), other = sym_choice("others", 2);
    Channel plain("pull", "connect", "ipc://y"); for (unsigned i = 0; i < n; ++i) o.AddChannel("data", plain);
    if (other) { o.AddChannel("data2", plain); o.AddChannel("dat", plain); }
    o.AddChannel("data", c);
    auto info = o.GetChannelInfo(); CHECK(info.size() == (other ? 3u : 1u) && info.at("data") == (int)n + 1, "channel information counts the sub-channels of every channel");
    f.name = "data[" + std::to_string(n) + "]";
    Channel d("data", (int)n, o.GetPropertiesStartingWith("chans.data." + std::to_string(n) + ".")); compare(d, f, "a channel added to the configuration and created from it again has the same settings");
    Channel e("data", 7, Properties()); Cfg def; def.name = "data[7]"; def.type = def.method = def.address = "unspecified"; def.transport = "default"; int dv[] = {1000, 1000, 0, 0, -1, -1, 500, 1, 22000, 23000}; for (int i = 0; i < 10; ++i) def.v[i] = dv[i];
    compare(e, def, "missing properties give the documented defaults"); compare(Channel("data[7]"), def, "a new channel has the documented defaults");
    Properties p; p["chans.data.0.rcvBufSize"] = f.v[1]; p["chans.data.1.sndBufSize"] = 3; p["chans.other.0.linger"] = 4; Channel g("data", 0, p); def.name = "data[0]"; def.v[1] = f.v[1]; compare(g, def, "a channel takes its own properties only");
    REACH("props");
#elif WHAT == 6
    Cfg f = symbolic(); f.v[2] = (int)sym_int("sndK", 2); f.v[3] = (int)sym_int("rcvK", 2); Channel c; setAll(c, f); auto fac = std::make_shared<mock::Factory>(Transport::SHM); c.InitTransport(fac); CHECK(c.GetTransportType() == Transport::SHM, "a channel has the type of its transport");
    c.Init(); auto* s = (mock::Sock*)&c.GetSocket(); CHECK(s->type == f.type && s->name == f.name, "the socket is created with the type and name of the channel");
    CHECK(s->opt["linger"] == f.v[6] && s->opt["snd-hwm"] == f.v[0] && s->opt["rcv-hwm"] == f.v[1], "linger and buffer sizes are applied to the socket of their direction");
    CHECK(s->get("snd-size") == (f.v[2] ? f.v[2] : -999) && s->get("rcv-size") == (f.v[3] ? f.v[3] : -999), "kernel sizes are applied exactly when set"); REACH("init");
    CHECK(c.Bind("tcp://*:7") && c.GetMethod() == "bind" && c.GetAddress() == "tcp://*:7" && s->bound.back() == "tcp://*:7", "Bind binds to the given address and remembers it"); CHECK(c.Connect("ipc://q") && c.GetMethod() == "connect" && c.GetAddress() == "ipc://q" && s->connected.back() == "ipc://q", "Connect connects to the given address and remembers it");
    CHECK(c.NewMessage(5)->GetSize() == 5 && fac->created == 1, "messages are created by the transport of the channel");
#else
    // default and explicit timeouts, results passed through
    auto fac = std::make_shared<mock::Factory>(Transport::ZMQ); Channel c("data[0]", "push", fac); int st = sym_i32("snd"), rt = sym_i32("rcv"), ex = sym_i32("explicit"); c.UpdateSndTimeout(st); c.UpdateRcvTimeout(rt); auto* s = (mock::Sock*)&c.GetSocket();
    int64_t res = (int64_t)sym_u64("result"); s->forceResult = true; s->nextResult = res; bool parts = sym_choice("parts", 3); MessagePtr m = fac->CreateMessage(3); Parts p; p.AddPart(fac->CreateMessage(2)); std::vector<MessagePtr> v;
    auto snd = [&](auto... t) { return parts == 0 ? c.Send(m, t...) : parts == 1 ? c.Send(p, t...) : c.Send(v, t...); }; auto rcv = [&](auto... t) { return parts == 0 ? c.Receive(m, t...) : parts == 1 ? c.Receive(p, t...) : c.Receive(v, t...); };
    CHECK(snd() == res && s->lastTimeout == st, "without a timeout a send uses the send timeout of the channel and returns the result of the transport"); CHECK(rcv() == res && s->lastTimeout == rt, "without a timeout a receive uses the receive timeout of the channel and returns the result of the transport");
    CHECK(snd(ex) == res && s->lastTimeout == ex, "an explicit timeout overrides the default"); CHECK(rcv(ex) == res && s->lastTimeout == ex, "an explicit timeout overrides the default"); CHECK(s->sends == 2 && s->receives == 2, "one transfer per call"); REACH("passed");
#endif
}
