//@ property P06
//@ sources @rt/zmq.cpp fairmq/MemoryResources.cxx fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/shmem/Common.cxx fairmq/shmem/Monitor.cxx
//@ libs boost_container boost_program_options boost_filesystem boost_regex
//@ bounds histories of 3 (quick; 2 for simple_seq_fit and in debug mode) or 4 (thorough) operations - rebuild in each form, new used size, copy, destruction - over two messages (a third one in thorough) of one session with sizes 0..300, alignments 0..4096 (the layout of a buffer: up to 2^21) and symbolic contents, for both allocation algorithms; creation of every 64-bit size; exhausted segments with 1..3 attempts
//@ variant rbtree -DWHAT=0 -DSIMPLE=0 +quick=60 +thorough=600
//@ variant simple -DWHAT=0 -DSIMPLE=1 +quick=60 +thorough=600
//@ variant create -DWHAT=1 -DSIMPLE=0 +quick=40
//@ variant createsimple -DWHAT=1 -DSIMPLE=1 +quick=40
//@ variant layout -DWHAT=2 -DSIMPLE=0 +quick=60
//@ variant full -DWHAT=3 -DSIMPLE=0 +quick=60
//@ variant counters -DWHAT=0 -DSIMPLE=0 -DFAIRMQ_DEBUG_MODE +quick=30 +thorough=200
//@ require done@rbtree,simple,create,createsimple,full,counters freed@rbtree,simple shared@rbtree,simple grow@rbtree,simple aligned@create,createsimple huge@create laid@layout refused@full retried@full interrupted@full
#include <harness/shm.h>
#include <cstring>
#include <thread>
using namespace fair::mq; using std::vector; using std::size_t;
#ifdef THOROUGH
const bool DEEP = true;
#else
const bool DEEP = false;
#endif
#ifdef THOROUGH
const unsigned OPS = 4;
#elif defined(FAIRMQ_DEBUG_MODE) || SIMPLE
const unsigned OPS = 2;
#else
const unsigned OPS = 3;
#endif
const int N = 2;
struct Body { vector<uint8_t> bytes; };
struct Slot { MessagePtr m; std::shared_ptr<Body> body; size_t size = 0, align = 0; };
static Slot* S; static shm::Seg* seg; static int serial = 0, freed = 0, wantFreed = 0;
static vector<uint8_t> bytes(size_t n) { vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(i * 5 + serial * 37); ++serial; if (n) sym_bytes(v.data(), n < 4 ? n : 4, "content"); if (n > 8) sym_bytes(v.data() + n - 2, 2, "content end"); return v; }
static void fill(Slot& s, size_t n, size_t al)
{
    s.align = al; s.size = n; s.body.reset(); CHECK(s.m->GetSize() == n, "a message has the size it was given");
    if (!n) return;
    void* d = s.m->GetData(); CHECK(d && seg->inside(d, n), "the buffer of a message lies in the managed segment");
    s.body = std::make_shared<Body>(Body{bytes(n)}); memcpy(d, s.body->bytes.data(), n);
}
static void releaser(void* p, void* hint) { ++freed; CHECK(hint == (void*)0x55, "the deallocation function gets its hint"); delete[] (char*)p; }
static void external(Slot& s, TransportFactory* f, size_t n)
{
    auto v = bytes(n); char* d = new char[n + 1]; memcpy(d, v.data(), n); ++wantFreed;
    if (f) s.m = f->CreateMessage(d, n, releaser, (void*)0x55); else s.m->Rebuild(d, n, releaser, (void*)0x55);
    CHECK(freed == wantFreed, "a buffer given with a deallocation function is released exactly once"); s.size = n; s.align = 0; s.body = n ? std::make_shared<Body>(Body{v}) : nullptr;
}
static void verify()
{
    bool live = false;
    for (int i = 0; i < N; ++i) {
        Slot& s = S[i]; if (!s.m) continue;
        CHECK(s.m->GetSize() == s.size, "a message has the size it was given");
        auto* sm = static_cast<shmem::Message*>(s.m.get());
        if (!s.body) { if (!s.size) CHECK(sm->GetRefCount() <= 1, "an empty message is not shared"); continue; }
        live = true;
        CHECK(sm->GetRefCount() == s.body.use_count(), "the reference count is the number of messages that share the buffer");
        if (!s.size) continue;
        void* d = s.m->GetData();
        CHECK(d && seg->inside(d, s.size), "the buffer of a message lies in the managed segment");
        CHECK(!memcmp(d, s.body->bytes.data(), s.size), "a message keeps its content");
        if (s.align) CHECK((uintptr_t)d % s.align == 0, "the data is aligned as requested");
    }
    CHECK((seg->free() == seg->initial) == !live, "a buffer is returned to the segment exactly when its last message is gone"); if (!live) REACH("freed");
    CHECK(seg->sane(), "the segment stays consistent");
}
static void used(Slot& s, size_t to)
{
    bool r = s.m->SetUsedSize(to); CHECK(r == (to <= s.size), "the used size can be reduced and not increased"); if (!r) { REACH("grow"); return; }
    s.size = to; if (!to) s.body.reset();
}
static const size_t sizes[] = {100, 1, 0, 300, 17}, aligns[] = {64, 0, 1, 4096, 16};
extern "C" void harness()
{
    rt_timeouts(false); rt_deadlock("deadlock: every thread is blocked");
    S = new Slot[N];
#if WHAT == 2
    // the header in front of every buffer, for every position, alignment and size
    unsigned log = sym_choice("log2 of the alignment", 22); size_t al = (size_t)1 << log; if (al < alignof(std::max_align_t)) al = alignof(std::max_align_t);
    size_t pos = 16 * sym_choice("position", 16) + 2000 * sym_choice("page", 2);
    static char* arena = (char*)aligned_alloc(4096, 8192 + (2 << 21)); char* p = arena + pos;
    uint64_t size = sym_u64("size"); sym_assume(size < ((uint64_t)1 << 62));
    size_t full = shmem::ShmHeader::FullSize(size, al);
    CHECK(full >= size, "the buffer size includes the header"); sym_assume(full < ((uint64_t)1 << 62));
    shmem::ShmHeader::Construct(p, al);
    char* u = shmem::ShmHeader::UserPtr(p);
    CHECK((uintptr_t)u % al == 0, "the data is aligned as requested");
    char* h = (char*)&shmem::ShmHeader::RefCountPtr(p);
    CHECK(h >= p && h + 2 <= u && (uintptr_t)h % 2 == 0, "the header lies before the data"); CHECK((uint64_t)(u - p) + size <= full, "header and data fit the allocation");
    CHECK(u == p + shmem::ShmHeader::UserOffset(p), "offset and address of the data agree");
    CHECK(shmem::ShmHeader::RefCount(p) == 1, "a new buffer has one user"); CHECK(shmem::ShmHeader::IncrementRefCount(p) == 1 && shmem::ShmHeader::DecrementRefCount(p) == 2 && shmem::ShmHeader::RefCount(p) == 1 && shmem::ShmHeader::UserPtr(p) == u, "reference counting does not disturb the layout");
    REACH("laid");
#elif WHAT == 3
    auto& o = shm::options(4096); unsigned mode = sym_choice("attempts", 4);        // 1, 3, unlimited, unlimited (explicit)
    if (mode == 1) o.SetProperty<int>("bad-alloc-max-attempts", 3); else if (mode == 2) o.SetProperty<int>("bad-alloc-max-attempts", -1); else if (mode == 3) o.SetProperty<bool>("shm-throw-bad-alloc", false);
    o.SetProperty<int>("bad-alloc-attempt-interval", 20);
    {
        shmem::TransportFactory f("d", &o); seg = new shm::Seg();
        size_t big = 1900; auto a = f.CreateMessage(big); size_t before = seg->free();
        MessagePtr e = f.CreateMessage(); auto kept = f.CreateMessage(50); before = seg->free();
        unsigned event = sym_choice("while waiting", 3); int64_t at = 5 + 10 * (int64_t)sym_choice("when", 6);   // 0 nothing, 1 memory is released, 2 interrupt
        if (mode >= 2 && event == 0) event = 1;
        std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(at)); if (event == 1) a.reset(); else if (event == 2) f.Interrupt(); });
        int64_t t0 = rt_now(); bool ok = false, rebuild = sym_choice("rebuild", 2); size_t need = 1850; char* ext = nullptr;
        bool viaData = sym_choice("from data", 2); if (viaData) { ext = new char[need]; memset(ext, 7, need); }
        try {
            if (rebuild) { if (viaData) { e->Rebuild(ext, need, releaser, (void*)0x55); } else e->Rebuild(need); } else { if (viaData) e = f.CreateMessage(ext, need, releaser, (void*)0x55); else e = f.CreateMessage(need); }
            ok = true;
        } catch (const MessageBadAlloc&) {}
        int64_t ms = (rt_now() - t0) / 1000000; t.join(); int attempts = mode == 0 ? 1 : mode == 1 ? 3 : 1000;
        // attempts happen at 0, 20, 40, ... ms
        int64_t lastTry = mode >= 2 ? INT64_MAX : (int64_t)(attempts - 1) * 20;
        if (event == 1 && at < lastTry) { CHECK(ok, "an allocation succeeds when memory is released between the attempts"); CHECK(ms >= at && ms <= at + 25, "attempts are made at the configured interval"); REACH("retried"); }
        else if (event == 2 && at < lastTry) { CHECK(!ok, "an allocation that cannot be served fails"); CHECK(ms >= at && ms <= at + 25, "interrupting ends the attempts"); REACH("interrupted"); }
        else if (at > lastTry) { CHECK(!ok, "an allocation that cannot be served fails"); CHECK(ms >= lastTry && ms <= lastTry + 25, "the configured number of attempts is made"); }
        if (ok) { CHECK(e->GetSize() == need && seg->inside(e->GetData(), need), "a message has the size it was given"); CHECK(freed == (viaData ? 1 : 0), "a buffer given with a deallocation function is released exactly once"); if (viaData) CHECK(((char*)e->GetData())[need - 1] == 7, "a message keeps its content"); }
        else { REACH("refused"); CHECK(e->GetSize() == 0, "a message that could not be rebuilt is empty"); CHECK(freed == 0, "a buffer that was not taken over stays with the caller"); if (event != 1) CHECK(seg->free() == before, "a failed allocation uses no memory"); delete[] ext; }
        e.reset(); kept.reset(); a.reset(); CHECK(seg->free() == seg->initial && seg->sane(), "a buffer is returned to the segment exactly when its last message is gone"); delete seg;
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); REACH("done");
#else
    auto& o = shm::options(16384, SIMPLE);
    {
        shmem::TransportFactory f("d", &o); seg = new shm::Seg(SIMPLE);
        if (WHAT == 1) {
            Slot& s = S[0]; unsigned c = sym_choice("creation", 9); size_t n = c > 1 && c < 7 ? sizes[sym_choice("size", 5)] : 0, al = c == 1 || c == 3 || c == 5 || c >= 7 ? aligns[sym_choice("alignment", 5)] : 0;
            switch (c) {
            case 0: s.m = f.CreateMessage(); break;
            case 1: s.m = f.CreateMessage(Alignment{al}); break;
            case 2: s.m = f.CreateMessage(n); fill(s, n, 0); break;
            case 3: s.m = f.CreateMessage(n, Alignment{al}); fill(s, n, al); if (n && al == 4096) REACH("aligned"); break;
            case 4: external(s, &f, n); break;
            case 5: s.m = f.CreateMessage(n); fill(s, n, 0); s.m->Rebuild(n + 1, Alignment{al}); fill(s, n + 1, al); break;
            case 6: s.m = f.CreateMessage(); external(s, nullptr, n); break;
            default: {
                uint64_t size = sym_u64("huge size"); sym_assume(size > 16384); unsigned k = sym_choice("range", 3);
                if (k == 0) { sym_assume(size > UINT64_MAX - 64); size = sym_conc(size); } else if (k == 1) size = (uint64_t)1 << 63; else size = 16385 + al;
                s.m = f.CreateMessage(); bool thrown = false;
                try { if (c == 7) s.m = f.CreateMessage(size, Alignment{al}); else s.m->Rebuild(size, Alignment{al}); } catch (const MessageBadAlloc&) { thrown = true; }
                CHECK(thrown, "a message larger than the segment is refused"); CHECK(s.m->GetSize() == 0, "a message that could not be rebuilt is empty"); REACH("huge");
            } }
            verify();
            unsigned k = sym_choice("used size", 4); size_t old = s.size; used(s, k == 0 ? old / 2 : k == 1 ? (old ? old - 1 : 0) : k == 2 ? old : old + 1);
            verify(); s.m.reset(); s.body.reset(); verify();
        } else {
            S[0].m = f.CreateMessage(40); fill(S[0], 40, 0); S[1].m = f.CreateMessage(); verify();
            for (unsigned i = 0; i < OPS; ++i) {
                unsigned op = sym_choice("operation", DEEP ? 8 : 7), w = sym_choice("message", N); Slot &s = S[w], &t = S[1 - w]; size_t n = i == 0 ? sizes[sym_choice("size", DEEP ? 3 : 2)] : 60 + 20 * i;
                if (!s.m && op != 6) { s.m = f.CreateMessage(n); fill(s, n, 0); }
                switch (op) {
                case 0: s.m->Rebuild(); s.size = 0; s.body.reset(); break;
                case 1: s.m->Rebuild(n); fill(s, n, 0); break;
                case 2: s.m->Rebuild(n, Alignment{256}); fill(s, n, 256); break;
                case 3: external(s, nullptr, n); break;
                case 4: { unsigned k = sym_choice("used size", 4); used(s, k == 0 ? 0 : k == 1 ? s.size / 3 : k == 2 ? (s.size ? s.size - 1 : 0) : s.size + 1); break; }
                case 5: if (t.m) { s.m->Copy(*t.m); s.size = t.size; s.body = t.body; s.align = t.align; if (t.body) REACH("shared"); } break;
                case 7: s.m->Rebuild(Alignment{16}); s.size = 0; s.body.reset(); break;
                case 6: s.m.reset(); s.size = 0; s.body.reset(); break;
                }
                verify();
            }
            for (int i = 0; i < N; ++i) { S[i].m.reset(); S[i].body.reset(); verify(); }
        }
        CHECK(freed == wantFreed, "a buffer given with a deallocation function is released exactly once");
#ifdef FAIRMQ_DEBUG_MODE
        bool lost = false; try { f.Reset(); } catch (const MessageError&) { lost = true; } CHECK(!lost, "no message counts as lost when every message is gone");
#endif
        delete seg;
    }
    CHECK(rt_shm_count("fmq_") == 0, "the last user of the session removes its objects"); REACH("done");
#endif
}
