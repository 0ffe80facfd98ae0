//@ property P31
//@ bounds limits 0..3, every history of up to 7 (quick) or 9 (thorough) constructions and destructions in any order; two tags
//@ require refused allowed again
#include <stdexcept>
#include <ostream>
#include <fairmq/tools/InstanceLimit.h>
#include <rt/rt.h>
#include <memory>
using namespace fair::mq::tools;
struct TagA { friend std::ostream& operator<<(std::ostream& o, const TagA&) { return o << "A"; } };
struct TagB { friend std::ostream& operator<<(std::ostream& o, const TagB&) { return o << "B"; } };
#ifdef THOROUGH
const int NOPS = 9;
#else
const int NOPS = 7;
#endif
template<int Max> void run()
{
    using A = InstanceLimiter<TagA, Max>; using B = InstanceLimiter<TagB, 1>;
    std::unique_ptr<A> a[8]; int n = 0; bool refused = false;
    B other; CHECK(other.GetCount() == 1, "counts are per tag");
    for (int i = 0; i < NOPS; ++i) {
        if (sym_choice("op", 2) == 0) {
            bool thrown = false; int slot = 0; while (slot < 8 && a[slot]) ++slot;
            if (slot == 8) sym_end();
            try { a[slot].reset(new A()); } catch (std::runtime_error&) { thrown = true; }
            CHECK(thrown == (n >= Max), "construction fails exactly when the limit of live instances is reached");
            if (thrown) { REACH("refused"); refused = true; } else { ++n; REACH("allowed"); if (refused) REACH("again"); }
        } else { int live[8], k = 0; for (int s = 0; s < 8; ++s) if (a[s]) live[k++] = s; if (!k) continue; a[live[sym_choice("which", k)]].reset(); --n; }
        for (auto& x : a) if (x) CHECK(x->GetCount() == n, "the count is the number of live instances");
        CHECK(other.GetCount() == 1, "counts are per tag");
    }
    for (auto& x : a) x.reset();
    bool ok = true; try { if (Max > 0) A again; } catch (std::runtime_error&) { ok = false; } CHECK(ok, "after releasing all instances a new one is allowed");
}
extern "C" void harness()
{
    switch (sym_choice("max", 4)) { case 0: run<0>(); break; case 1: run<1>(); break; case 2: run<2>(); break; default: run<3>(); }
}
