//@ property P28
//@ sources fairmq/Device.cxx fairmq/Channel.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/StateMachine.cxx fairmq/States.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds up to 3 (quick) or 4 (thorough) queued transfers per input, one or two inputs, up to three output channels, sub-channels, one to three parts of any content, message or multipart mode, sending interrupted at any transfer, iteration limits 0 to 3
//@ variant proxy -DWHAT=0
//@ variant merger -DWHAT=1
//@ variant splitter -DWHAT=2
//@ variant multiplier -DWHAT=3
//@ variant sampler -DWHAT=4
//@ variant sink -DWHAT=5
//@ require passed@proxy,merger,splitter,multiplier cut@proxy,merger two@merger,splitter,multiplier limited@sampler,sink unlimited@sampler,sink multi
#include <harness/device.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Splitter.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Sink.h>
#include <set>
using namespace fair::mq; using std::string; using std::vector;
#ifdef THOROUGH
const int Q = 4;
#else
const int Q = 3;
#endif
#if WHAT == 0
using Base = Proxy;
#elif WHAT == 1
using Base = Merger;
#elif WHAT == 2
using Base = Splitter;
#elif WHAT == 3
using Base = Multiplier;
#elif WHAT == 4
using Base = BenchmarkSampler;
#else
using Base = Sink;
#endif
// a transfer is described by its input, its number, its number of parts and one byte of content
struct Xfer { int in, no, parts; uint8_t byte; };
static vector<Xfer> inputs[2]; static int nIn = 1, nOut[3] = {1, 1, 1}, nOutChan = 1; static bool multi; static vector<vector<string>> outs; static int sent = 0, cutAt = -1, received = 0; static bool wasCut = false; static int sentLimit = -1; static Device* dev;
static const char* outName(int c) { return c == 2 ? "out3" : c ? "out2" : "out"; }
static string show(const Xfer& x) { string s; for (int p = 0; p < x.parts; ++p) s += std::to_string(p) + ":" + std::to_string(x.in) + "." + std::to_string(x.no) + ";"; return s; }
struct Dev : Base
{
    void PostRun() override
    {
        for (int c = 0; c < nOutChan && WHAT < 5; ++c) for (int i = 0; i < nOut[c]; ++i) { auto* s = (mock::Sock*)&GetChannel(outName(c), i).GetSocket(); outs.emplace_back(); for (auto& m : s->out.q) { string t; int p = 0; for (auto& part : m) { if (WHAT == 4) { t += std::to_string(part->GetSize()) + ";"; continue; } auto* d = (uint8_t*)part->GetData(); CHECK(part->GetSize() == 4 && d[0] == p, "parts are passed on complete and in order"); bool found = false; for (auto& x : inputs[d[1] & 1]) if (x.no == d[2]) { found = true; CHECK(d[3] == x.byte, "content is passed on unchanged"); } CHECK(found, "only what was received is passed on"); t += std::to_string(p++) + ":" + std::to_string(d[1]) + "." + std::to_string(d[2]) + ";"; } outs.back().push_back(t); } }
        if (WHAT != 4) for (int i = 0; i < nIn; ++i) received += (int)(inputs[i].size() - ((mock::Sock*)&GetChannel("in", i).GetSocket())->in.q.size());
    }
};
extern "C" void harness()
{
    ProgOptions& o = *new ProgOptions(); o.SetProperty<string>("id", "d"); o.SetProperty<string>("session", "s"); sym_mode("limit-violation", 1);
    multi = sym_choice("multipart", 2); if (multi) REACH("multi");
    if (WHAT == 1) nIn = 1 + (int)sym_choice("inputs", 2); if (WHAT == 2 || WHAT == 3) nOut[0] = 1 + (int)sym_choice("outputs", 3); if (WHAT == 3) { nOutChan = 1 + (int)sym_choice("output channels", 3); if (nOutChan >= 2) nOut[1] = 1 + (int)sym_choice("outputs of the second", 2); if (nOutChan == 3) nOut[2] = 1 + (int)sym_choice("outputs of the third", 2); } if (nIn * nOut[0] * nOutChan > 1) REACH("two");
    for (int i = 0; i < nIn && WHAT != 4; ++i) { Channel c("pull", "bind", "tcp://*:" + std::to_string(5 + i)); c.UpdateRateLogging(0); o.AddChannel("in", c); int n = (int)sym_choice("queued", Q + 1); for (int k = 0; k < n; ++k) inputs[i].push_back({i, k, multi ? (nIn == 2 && k ? 2 - k % 2 : 1 + (int)sym_choice("parts", 3 - (n > 1))) : 1, sym_u8("byte")}); }
    for (int c = 0; c < nOutChan && WHAT < 5; ++c) for (int i = 0; i < nOut[c]; ++i) { Channel ch("push", "connect", "tcp://localhost:" + std::to_string(10 + c * 5 + i)); ch.UpdateRateLogging(0); o.AddChannel(outName(c), ch); }
    o.SetProperty<bool>("multipart", multi); o.SetProperty<string>("in-channel", "in"); uint64_t maxIter = WHAT > 3 ? sym_choice("max-iterations", 4) : 0;
    if (WHAT == 3) { vector<string> v{"out"}; if (nOutChan >= 2) v.push_back("out2"); if (nOutChan == 3) v.push_back("out3"); o.SetProperty<vector<string>>("out-channel", v); } else o.SetProperty<string>("out-channel", "out");
    o.SetProperty<uint64_t>("max-iterations", maxIter); o.SetProperty<uint64_t>("max-file-size", 0); o.SetProperty<string>("out-filename", ""); o.SetProperty<bool>("memset", true); int np = WHAT == 4 ? 1 + (int)sym_choice("parts", 2) : 1; o.SetProperty<size_t>("num-parts", np); o.SetProperty<size_t>("msg-size", 6); o.SetProperty<size_t>("msg-alignment", 0); o.SetProperty<float>("msg-rate", 0);
    mock::onBind() = [](mock::Sock* s, const string& a) { int i = atoi(a.c_str() + 8) - 5; for (auto& x : inputs[i]) { vector<MessagePtr> v; for (int p = 0; p < x.parts; ++p) { auto m = s->f->CreateMessage(4); auto* d = (uint8_t*)m->GetData(); d[0] = p; d[1] = i; d[2] = x.no; d[3] = x.byte; v.push_back(std::move(m)); } s->in.q.push_back(std::move(v)); } };
    if (WHAT < 2) { cutAt = (int)sym_choice("interrupted at", Q * nIn + 1) - 1; } if (WHAT == 4) sentLimit = maxIter ? 50 : 5;
    mock::onSend() = [](mock::Sock*) -> int64_t { int n = sent++; if (n == cutAt || (WHAT == 4 && n == sentLimit)) { wasCut = true; bool r = dev->ChangeState(Transition::Stop); CHECK(r, "a running device can be stopped"); return (int64_t)TransferCode::interrupted; } return 0; };
    static bool idle = false; Dev* dp = new Dev; Dev& d = *dp; dev = dp; d.SetConfig(o);
    mock::onIdle() = [&] { idle = true; bool r = d.ChangeState(Transition::Stop); CHECK(r, "a running device can be stopped"); return r; };
    static bool exiting = false; static State before = State::Undefined; bool err = false;
    d.SubscribeToStateChange("ctrl", [&](State s) {
        auto go = [&](Transition t) { CHECK(d.ChangeState(t), "a legal transition is accepted"); };
        switch (s) {
        case State::Idle: go(exiting ? Transition::End : Transition::InitDevice); break; case State::InitializingDevice: go(Transition::CompleteInit); break; case State::Initialized: go(Transition::Bind); break; case State::Bound: go(Transition::Connect); break;
        case State::DeviceReady: go(exiting ? Transition::ResetDevice : Transition::InitTask); break;
        case State::Ready: if (before != State::Running) go(Transition::Run); else { exiting = true; go(Transition::ResetTask); } break;
        default: break;
        }
        before = s;
    });
    try { d.RunStateMachine(); } catch (std::exception&) { err = true; }
    CHECK(!err && d.GetCurrentState() == State::Exiting, "the device ends running when asked to");
    int total = (int)(inputs[0].size() + inputs[1].size());
#if WHAT < 2
    if (!wasCut) { CHECK(idle && received == total, "everything waiting is received until the device is stopped"); REACH("passed"); } else { REACH("cut"); CHECK(received == cutAt + 1, "after an interrupted transfer nothing more is received"); }
    int next[2] = {}; CHECK((int)outs[0].size() == (wasCut ? cutAt : received), "every received transfer is passed on once, unless sending was interrupted");
    for (auto& t : outs[0]) { bool ok = false; for (int i = 0; i < nIn && !ok; ++i) if (next[i] < (int)inputs[i].size() && t == show(inputs[i][next[i]])) { ++next[i]; ok = true; } CHECK(ok, "transfers of an input are passed on in order, once and with all their parts"); }
#elif WHAT == 2
    CHECK(received == total, "everything waiting is received until the device is stopped"); vector<vector<string>> want(nOut[0]); for (int k = 0; k < total; ++k) want[k % nOut[0]].push_back(show(inputs[0][k])); CHECK(outs == want, "transfers are passed on to the outputs in turn, once and with all their parts"); REACH("passed");
#elif WHAT == 3
    CHECK(received == total, "everything waiting is received until the device is stopped"); vector<string> want; for (auto& x : inputs[0]) want.push_back(show(x)); CHECK((int)outs.size() == nOut[0] + (nOutChan >= 2 ? nOut[1] : 0) + (nOutChan == 3 ? nOut[2] : 0), "internal"); for (auto& v : outs) CHECK(v == want, "every transfer is passed on to every output, once and with all its parts"); REACH("passed");
#elif WHAT == 4
    size_t n = maxIter ? maxIter : sentLimit; CHECK(outs[0].size() == n && wasCut == (maxIter == 0), "the sampler sends the configured number of transfers, or until stopped"); if (maxIter) REACH("limited"); else REACH("unlimited"); string one = "6;"; if (multi && np == 2) one += "6;"; for (auto& t : outs[0]) CHECK(t == one, "every transfer has the configured parts and size");
#else
    int n = maxIter && (int)maxIter < total ? (int)maxIter : total; CHECK(received == n, "the sink receives the configured number of transfers, or until stopped"); if (maxIter && (int)maxIter <= total) REACH("limited"); else REACH("unlimited");
#endif
    delete dp; CHECK(mock::live() == 0, "every message is released once");
}
