//@ property P20
//@ sources fairmq/MemoryResources.cxx
//@ bounds every history of 5 (quick) or 6 (thorough) allocations, releases, getMessage and setMessage calls with up to 5 buffers, sizes 1..64 and alignments 1..64; pmr vectors of up to 6 elements of 1, 4 and 8 bytes handed over by getMessage with and without a foreign target resource
//@ variant history -DWHAT=0 +quick=90 +thorough=900
//@ variant vector -DWHAT=1
//@ require taken@history freed@history set@history unknown@history zerocopy@vector copied@vector none@vector
#include "mock.h"
#include <fairmq/MemoryResources.h>
#include <fairmq/MemoryResourceTools.h>
#include <vector>
#include <memory_resource>
using namespace fair::mq;
#ifdef THOROUGH
const int NOPS = 6;
#else
const int NOPS = 5;
#endif
struct Plain : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t) override { return malloc(n); }
    void do_deallocate(void* p, size_t, size_t) override { free(p); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Plain plain;
extern "C" void harness()
{
#if WHAT == 0
    {
        mock::Factory f; ChannelResource& r = *f.GetMemoryResource();
        void* buf[8]; int n = 0; unsigned char tag[8]; size_t len[8]; unsigned char nextTag = 1;
        CHECK(r.getTransportFactory() == &f, "the resource belongs to its transport");
        for (int i = 0; i < NOPS; ++i) {
            unsigned op = sym_choice("op", 5);
            if (op == 0) {
                static const size_t SZ[] = {1, 24, 64}, AL[] = {1, 8, 64}; unsigned k = sym_choice("size", 3);
                void* p = r.allocate(SZ[k], AL[k]);
                CHECK(p != nullptr && ((uintptr_t)p % AL[k]) == 0, "an allocation has the requested alignment");
                CHECK(sym_ptr_ok(p, SZ[k]), "an allocation has the requested size");
                for (int j = 0; j < n; ++j) CHECK((char*)p + SZ[k] <= (char*)buf[j] || (char*)buf[j] + len[j] <= (char*)p, "allocations do not overlap");
                memset(p, nextTag, SZ[k]); buf[n] = p; len[n] = SZ[k]; tag[n++] = nextTag++;
            } else if (op == 1) { if (!n) continue; int j = (int)sym_choice("which", n); r.deallocate(buf[j], len[j], 1); buf[j] = buf[n - 1]; tag[j] = tag[n - 1]; len[j] = len[n - 1]; --n; REACH("freed"); }
            else if (op == 2) {
                if (!n) continue; int j = (int)sym_choice("which", n); MessagePtr m = r.getMessage(buf[j]);
                CHECK(m && m->GetData() == buf[j] && m->GetSize() == len[j], "getMessage hands out the message that holds the buffer");
                CHECK(((unsigned char*)buf[j])[0] == tag[j] && ((unsigned char*)buf[j])[len[j] - 1] == tag[j], "the content is preserved");
                CHECK(r.getMessage(buf[j]) == nullptr, "a message is handed out once");
                if (sym_choice("back", 2)) { CHECK(r.setMessage(std::move(m)) == buf[j], "setMessage takes the buffer back"); REACH("set"); }
                else { buf[j] = buf[n - 1]; tag[j] = tag[n - 1]; len[j] = len[n - 1]; --n; }
                REACH("taken");
            } else if (op == 3) { int x; CHECK(r.getMessage(&x) == nullptr && r.getMessage(nullptr) == nullptr, "there is no message for a foreign pointer"); REACH("unknown"); }
            else { auto m = f.CreateMessage(16); memset(m->GetData(), nextTag, 16); void* p = r.setMessage(std::move(m)); buf[n] = p; len[n] = 16; tag[n++] = nextTag++; REACH("set"); }
            CHECK(r.getNumberOfMessages() == (size_t)n, "the number of messages is the number of live buffers");
            CHECK(mock::live() == n, "messages live exactly as long as their buffers");
        }
        for (int j = 0; j < n; ++j) CHECK(((unsigned char*)buf[j])[0] == tag[j] && ((unsigned char*)buf[j])[len[j] - 1] == tag[j], "the content of live buffers is preserved");
    }
    CHECK(mock::live() == 0, "no message outlives its resource");
    {
        bool thrown = false; try { ChannelResource bad(nullptr); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "a resource needs a transport");
    }
#else
    {
        mock::Factory f, g; unsigned n = sym_choice("elements", 7), reserve = sym_choice("reserve", 2), mode = sym_choice("target", 5), ty = sym_choice("type", 3);
        char raw[48]; sym_bytes(raw, sizeof raw, "content");
        auto run = [&](auto zero) {
            using T = decltype(zero);
            std::pmr::memory_resource* src = mode >= 3 ? (std::pmr::memory_resource*)&plain : (std::pmr::memory_resource*)f.GetMemoryResource();
            MessagePtr m; bool thrown = false; void* data;
            {
                std::pmr::vector<T> v(std::pmr::polymorphic_allocator<T>{src});
                if (reserve) v.reserve(16);
                for (unsigned i = 0; i < n; ++i) { T t; memcpy(&t, raw + i * sizeof(T), sizeof(T)); v.push_back(t); }
                data = v.data();
                MemoryResource* target = mode == 0 || mode == 3 ? nullptr : mode == 1 ? (MemoryResource*)f.GetMemoryResource() : (MemoryResource*)g.GetMemoryResource();
                try { m = getMessage(std::move(v), target); } catch (std::runtime_error&) { thrown = true; }
                CHECK(v.empty(), "the container is taken over");
            }
            CHECK(thrown == (mode == 3), "a container without resource needs a target resource");
            if (thrown) { REACH("none"); return; }
            CHECK(m != nullptr && m->GetSize() == n * sizeof(T), "the message has the size of the used part of the container");
            CHECK(n == 0 || memcmp(m->GetData(), raw, n * sizeof(T)) == 0, "the message has the content of the container");
            if (mode < 2 && data) { CHECK(m->GetData() == data, "a container in message memory is handed over without a copy"); REACH("zerocopy"); }
            if (mode >= 2) { CHECK(m->GetTransport() == &g, "the message belongs to the target transport"); REACH("copied"); }
            CHECK(mock::live() == 1, "exactly one message remains");
            CHECK(f.GetMemoryResource()->getNumberOfMessages() == 0 && g.GetMemoryResource()->getNumberOfMessages() == 0, "the resource gives up the buffer");
        };
        if (ty == 0) run((char)0); else if (ty == 1) run((uint32_t)0); else run((uint64_t)0);
    }
    CHECK(mock::live() == 0, "every message is released exactly once");
#endif
}
