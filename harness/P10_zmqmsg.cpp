//@ property P10
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx
//@ libs boost_container
//@ bounds histories of 3 (quick) or 4 (thorough) operations - rebuild in each form, new used size, copy, unmanaged region message, receive - over two messages with sizes 0..100 around the small-message limit, alignments 1..4096 and symbolic contents; aligned allocations of every 64-bit size and power of two alignment
//@ variant ops -DWHAT=0 +quick=60 +thorough=600
//@ variant create -DWHAT=1 +quick=40
//@ variant sizes -DWHAT=2 +quick=40
//@ variant receive -DWHAT=3 +quick=60
//@ require done@ops,create,receive freed@ops grow@ops shared@ops region@create,ops huge@sizes reused@sizes served@sizes realigned@receive
#include <fairmq/TransportFactory.h>
#include <fairmq/Transports.h>
#include <fairmq/zeromq/Message.h>
#include <fairmq/zeromq/Socket.h>
#include <fairmq/zeromq/UnmanagedRegion.h>
#include <rt/rt.h>
#include <rt/rtzmq.h>
#include <cstring>
#include <vector>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const unsigned OPS = 4;
#else
const unsigned OPS = 3;
#endif
struct Buf { char* data; int freed; void* hint; };
static vector<Buf*>& bufs() { static vector<Buf*> v; return v; }
static void release(void* data, void* hint)
{
    Buf* b = (Buf*)hint; CHECK(b->data == data, "the deallocation function gets the buffer and the hint given with it");
    ++b->freed; CHECK(b->freed == 1, "the deallocation function is called once"); delete[] b->data;
}
struct Slot { MessagePtr m; vector<uint8_t> want; size_t align = 0; Buf* buf = nullptr; };
static Slot* S; const int N = 2;
static int created = 0;
static vector<uint8_t> bytes(size_t n) { vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(i * 7 + created * 31); if (n) sym_bytes(v.data(), n < 4 ? n : 4, "content"); if (n > 8) sym_bytes(v.data() + n - 2, 2, "content end"); ++created; return v; }
static void fill(Slot& s, size_t n) { s.want = bytes(n); if (n) { CHECK(sym_ptr_ok(s.m->GetData(), n), "the whole buffer of a message is usable"); memcpy(s.m->GetData(), s.want.data(), n); } }
static void verify()
{
    for (int i = 0; i < N; ++i) {
        Slot& s = S[i]; if (!s.m) continue;
        CHECK(s.m->GetSize() == s.want.size(), "a message has the size it was given");
        if (s.want.empty()) continue;
        void* d = s.m->GetData();
        CHECK(d && sym_ptr_ok(d, s.want.size()), "the whole buffer of a message is usable");
        CHECK(!memcmp(d, s.want.data(), s.want.size()), "a message keeps its content");
        if (s.align) CHECK((uintptr_t)d % s.align == 0, "the data is aligned as requested");
    }
    for (Buf* b : bufs()) { int users = 0; for (int i = 0; i < N; ++i) users += S[i].m && S[i].buf == b; CHECK(b->freed == (users ? 0 : 1), users ? "a buffer is not released while a message uses it" : "a buffer is released when its last message is gone"); if (!users) REACH("freed"); }
}
static const size_t sizes[] = {33, 100, 34, 1, 0}; static const size_t aligns[] = {64, 1, 4096, 16, 0};
static void ext(Slot& s, void (*make)(Slot&, void*, size_t, Buf*))
{
    size_t n = sizes[sym_choice("external size", 2) * 3]; vector<uint8_t> v = bytes(n); Buf* b = new Buf{new char[n + 1], 0, nullptr}; memcpy(b->data, v.data(), n); bufs().push_back(b);
    s.want = v; s.align = 0; Buf* old = s.buf; (void)old; s.buf = b; make(s, b->data, n, b);
}
static uint64_t heap0;
struct Reg { zmq::Context ctx{1}; char* got = nullptr; size_t gotSize = 0; void* gotHint = nullptr; int calls = 0; UnmanagedRegionPtr r;
    Reg(bool bulk) { r = std::make_unique<zmq::UnmanagedRegion>(ctx, 64, 5, bulk ? RegionCallback() : RegionCallback([this](void* d, size_t n, void* h) { got = (char*)d; gotSize = n; gotHint = h; ++calls; }), bulk ? RegionBulkCallback([this](const vector<RegionBlock>& v) { CHECK(v.size() == 1, "one block is acknowledged"); got = (char*)v[0].ptr; gotSize = v[0].size; gotHint = v[0].hint; ++calls; }) : RegionBulkCallback(), nullptr, RegionConfig());
        ctx.AddRegion(false, r->GetId(), r->GetData(), r->GetSize(), 5, RegionEvent::created); } };
static void regionMsg(Slot& s, bool bulk)
{
    Reg* g = new Reg(bulk); size_t off = sym_choice("offset", 2) * 24, n = sym_choice("region size", 2) ? 40 : 3; vector<uint8_t> v = bytes(n); memcpy((char*)g->r->GetData() + off, v.data(), n);
    s.want = v; s.align = 0; s.buf = nullptr;
    s.m = std::make_unique<zmq::Message>(g->r, (char*)g->r->GetData() + off, n, (void*)(uintptr_t)0x77); REACH("region");
    CHECK(g->calls == 1 && g->got == (char*)g->r->GetData() + off && g->gotSize == n && g->gotHint == (void*)0x77, "a region block is acknowledged once with its address, size and hint");
    CHECK(s.m->GetData() < g->r->GetData() || s.m->GetData() >= (char*)g->r->GetData() + 64, "an acknowledged block is not used any more");
    memset(g->r->GetData(), 0, 64); g->r.reset(); CHECK(g->calls == 1, "a region block is acknowledged once"); delete g;
}
static void finish()
{
    for (int i = 0; i < N; ++i) { S[i].m.reset(); S[i].want.clear(); vector<uint8_t>().swap(S[i].want); S[i].buf = nullptr; }
    verify(); for (Buf* b : bufs()) delete b; bufs().clear();
    CHECK(rt_zmq_messages() == 0, "every message buffer is released");
    CHECK(sym_heap_live() == heap0, "destroying the messages releases everything they used");
    REACH("done");
}
extern "C" void harness()
{
    S = new Slot[N]; bufs().reserve(8);
#if WHAT == 2
    uint64_t size = sym_u64("size"), log = sym_int("log2 of the alignment", 4); sym_assume(log <= 12); size_t al = (size_t)1 << sym_conc(log);
    bool small = sym_choice("range", 2); if (small) sym_assume(size <= 70); else sym_assume(size > ((uint64_t)1 << 48));
    sym_mode("conc-max", 128);
    sym_mode("alloc-max", (uint64_t)1 << 40);
    if (small) size = sym_conc(size); else if (sym_choice("close to the limit", 2)) { sym_assume(size > UINT64_MAX - 3); size = sym_conc(size); } else size = (uint64_t)1 << 50;
    unsigned form = sym_choice("form", 4); zmq::Message* m = nullptr;
    try {
        if (form == 0) m = new zmq::Message(size, Alignment{al}); else if (form == 1) m = new zmq::Message(size);
        else { m = new zmq::Message((size_t)40); memcpy(m->GetData(), "0123456789012345678901234567890123456789", 40); if (form == 2) m->Rebuild(size, Alignment{al}); else m->Rebuild(size); }
        CHECK(small, "a message of a size that cannot be had is refused");
        CHECK(m->GetSize() == size, "a message has the size it was given");
        if (size) { CHECK(sym_ptr_ok(m->GetData(), size), "the whole buffer of a message is usable"); if (!(form & 1)) CHECK((uintptr_t)m->GetData() % al == 0, "the data is aligned as requested"); }
        REACH("served");
    } catch (const std::exception& e) {
        CHECK(!small, "a message of moderate size is created"); REACH("huge");
        if (m) { CHECK(m->GetSize() == 0 || m->GetSize() == 40, "a message stays usable after a refused rebuild"); m->Rebuild((size_t)50, Alignment{al}); CHECK(m->GetSize() == 50 && sym_ptr_ok(m->GetData(), 50), "a message stays usable after a refused rebuild"); REACH("reused"); }
    }
    delete m; CHECK(rt_zmq_messages() == 0, "every message buffer is released");
#elif WHAT == 3
    // receiving into messages that request an alignment and had other content before
    zmq::Context* ctx = new zmq::Context(1);
    {
        zmq::Socket a(*ctx, "push", "a", "d"), b(*ctx, "pull", "b", "d"); CHECK(a.Bind("inproc://x") && b.Connect("inproc://x"), "sockets connect");
        Slot& s = S[0];
        size_t al = aligns[sym_choice("alignment", 5)]; unsigned before = sym_choice("previous content", 3); s.align = al;
        if (before == 0) s.m = std::make_unique<zmq::Message>(Alignment{al}); else if (before == 1) s.m = std::make_unique<zmq::Message>((size_t)40, Alignment{al}); else { s.m = std::make_unique<zmq::Message>((size_t)40); s.m->Rebuild(Alignment{al}); }
        for (unsigned k = 0; k < 2; ++k) {
            size_t n = sizes[sym_choice("size", 5)]; MessagePtr t; bool view = n > 1 && sym_choice("reduced", 2);
            size_t made = view ? n + 20 : n; unsigned how = sym_choice("made", 3);
            vector<uint8_t> v = bytes(made);
            if (how == 0) t = std::make_unique<zmq::Message>(made); else if (how == 1) t = std::make_unique<zmq::Message>(made, Alignment{8});
            if (how < 2) { if (made) memcpy(t->GetData(), v.data(), made); }
            else { Buf* bf = new Buf{new char[made + 1], 0, nullptr}; memcpy(bf->data, v.data(), made); bufs().push_back(bf); t = std::make_unique<zmq::Message>(bf->data, made, release, bf); s.buf = nullptr; }
            if (view) { CHECK(t->SetUsedSize(n), "the used size can be reduced"); v.resize(n); }
            if (!k) { MessagePtr c = std::make_unique<zmq::Message>(); c->Copy(*t); t = std::move(c); }
            CHECK(a.Send(t, 0) == (int64_t)n, "sending returns the size"); CHECK(t->GetSize() == 0, "a sent message is empty");
            CHECK(b.Receive(s.m, 0) == (int64_t)n, "receiving returns the size");
            s.want = v; s.buf = how == 2 ? bufs().back() : nullptr;
            CHECK(s.m->GetSize() == n, "a message has the size that was sent");
            if (n) { CHECK(!memcmp(s.m->GetData(), v.data(), n), "a message arrives with its content"); if (al) { CHECK((uintptr_t)s.m->GetData() % al == 0, "the data is aligned as requested"); if (al == 4096) REACH("realigned"); } }
        }
        s.m.reset(); s.buf = nullptr; for (Buf* b : bufs()) CHECK(b->freed == 1, "a buffer is released when its last message is gone");
    }
    delete ctx; CHECK(rt_zmq_messages() == 0, "every message buffer is released"); REACH("done");
#else
    heap0 = sym_heap_live();
    if (WHAT == 1) {
        Slot& s = S[0]; unsigned c = sym_choice("creation", 7); size_t n = sizes[sym_choice("size", 5)], al = aligns[sym_choice("alignment", 5)];
        switch (c) {
        case 0: s.m = std::make_unique<zmq::Message>(); break;
        case 1: s.m = std::make_unique<zmq::Message>(Alignment{al}); break;
        case 2: s.m = std::make_unique<zmq::Message>(n); fill(s, n); break;
        case 3: s.m = std::make_unique<zmq::Message>(n, Alignment{al}); s.align = al; fill(s, n); break;
        case 4: ext(s, [](Slot& s, void* d, size_t n, Buf* b) { s.m = std::make_unique<zmq::Message>(d, n, release, b); }); break;
        default: regionMsg(s, c == 5); break;
        }
        verify();
        unsigned k = sym_choice("used size", 4); size_t old = s.want.size(), to = k == 0 ? old / 2 : k == 1 ? (old ? old - 1 : 0) : k == 2 ? old : old + 1;
        bool r = s.m->SetUsedSize(to); CHECK(r == (to <= old), "the used size can be reduced and not increased"); if (r) s.want.resize(to);
        verify(); finish();
        return;
    }
    S[0].m = std::make_unique<zmq::Message>(); S[1].m = std::make_unique<zmq::Message>((size_t)40); fill(S[1], 40); verify();
    for (unsigned i = 0; i < OPS; ++i) {
        unsigned op = sym_choice("operation", 8), w = sym_choice("message", N); Slot &s = S[w], &o = S[1 - w]; size_t n = i == 0 ? sizes[sym_choice("size", 3)] : 50 + 10 * i;
        switch (op) {
        case 0: s.m->Rebuild(); s.want.clear(); s.align = 0; s.buf = nullptr; break;
        case 1: s.m->Rebuild(n); s.align = 0; s.buf = nullptr; fill(s, n); break;
        case 2: s.m->Rebuild(n, Alignment{64}); s.align = 64; s.buf = nullptr; fill(s, n); break;
        case 3: ext(s, [](Slot& s, void* d, size_t n, Buf* b) { s.m->Rebuild(d, n, release, b); }); break;
        case 4: { unsigned k = sym_choice("used size", 4); size_t old = s.want.size(), to = k == 0 ? 0 : k == 1 ? old / 2 : k == 2 ? (old ? old - 1 : 0) : old + 1; bool r = s.m->SetUsedSize(to); CHECK(r == (to <= old), "the used size can be reduced and not increased"); if (r) s.want.resize(to); else REACH("grow"); break; }
        case 5: s.m->Copy(*o.m); s.want = o.want; s.align = 0; s.buf = o.buf; if (o.buf) REACH("shared"); break;
        case 6: if (i == OPS - 1) { regionMsg(s, false); } break;
        case 7: s.m->Rebuild(Alignment{16}); s.want.clear(); s.align = 0; s.buf = nullptr; break;
        }
        verify();
    }
    finish();
#endif
}
