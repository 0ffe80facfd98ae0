//@ property P19
//@ bounds every history of 4 (quick) or 5 (thorough) operations (add one/two/three parts, add another Parts, move in and out, clear) over two Parts objects with up to 9 parts
//@ variant history -DWHAT=0 +quick=90 +thorough=900
//@ variant ctor -DWHAT=1
//@ require merged moved cleared outofrange@history order
#include "mock.h"
using namespace fair::mq;
#ifdef THOROUGH
const int NOPS = 5;
#else
const int NOPS = 4;
#endif
static int nextId = 1;
static int idOf(const Message& m) { return *(const int*)m.GetData(); }
static MessagePtr mk(mock::Factory& f) { auto m = f.CreateMessage(sizeof(int)); *(int*)m->GetData() = nextId++; return m; }
struct Model { int id[24]; int n = 0; };
static void same(Parts& p, const Model& m)
{
    CHECK(p.Size() == (size_t)m.n, "the number of parts is the number added and not taken");
    CHECK(p.Empty() == (m.n == 0), "Empty tells whether there are parts");
    int i = 0;
    for (auto& x : p) { CHECK(x != nullptr && idOf(*x) == m.id[i], "parts keep the order in which they were added"); ++i; }
    for (i = 0; i < m.n; ++i) {
        CHECK(idOf(p[i]) == m.id[i], "operator[] returns the i-th part"); CHECK(idOf(*p.At(i)) == m.id[i], "At returns the i-th part");
        const Parts& c = p; CHECK(&c[i] == &p[i] && &c.At(i) == &p.At(i), "const access is the same part");
    }
    const Parts& c = p;
    CHECK(c.cend() - c.cbegin() == m.n && c.end() - c.begin() == m.n, "iteration covers all parts");
    REACH("order");
}
extern "C" void harness()
{
    mock::Factory f;
#if WHAT == 0
    {
        Parts P[2]; Model M[2];
        for (int i = 0; i < NOPS; ++i) {
            unsigned op = sym_choice("op", 8); unsigned w = sym_choice("which", 2); Parts& p = P[w]; Model& m = M[w]; Parts& o = P[1 - w]; Model& om = M[1 - w];
            switch (op) {
                case 0: { m.id[m.n++] = nextId; p.AddPart(mk(f)); break; }
                case 1: { int a = nextId; auto x = mk(f); auto y = mk(f); p.AddPart(std::move(x), std::move(y)); m.id[m.n++] = a; m.id[m.n++] = a + 1; break; }
                case 2: { for (int k = 0; k < om.n; ++k) m.id[m.n++] = om.id[k]; om.n = 0; p.AddPart(std::move(o)); REACH("merged"); o.Clear(); break; }
                case 3: { p = std::move(o); m = om; om.n = 0; o.Clear(); REACH("moved"); break; }
                case 4: { p.Clear(); m.n = 0; REACH("cleared"); break; }
                case 5: { if (!m.n) break; MessagePtr x = std::move(p.At(0)); CHECK(idOf(*x) == m.id[0], "a part can be taken out"); p.fParts.erase(p.fParts.begin()); for (int k = 1; k < m.n; ++k) m.id[k - 1] = m.id[k]; --m.n; break; }
                case 6: { bool t = false; try { p.At(m.n); } catch (std::out_of_range&) { t = true; } CHECK(t, "At rejects an index past the end"); REACH("outofrange"); break; }
                case 7: { Parts t; t.AddPart(mk(f)); m.id[m.n++] = nextId - 1; int a = nextId; m.id[m.n++] = a; auto x = mk(f); p.AddPart(std::move(t)); p.AddPart(std::move(x)); break; }
            }
            if (m.n > 9 || om.n > 9) sym_end();
        }
        same(P[0], M[0]); same(P[1], M[1]);
        CHECK(mock::live() == M[0].n + M[1].n, "no part is lost or duplicated");
    }
    CHECK(mock::live() == 0, "every part is released exactly once");
#else
    {
        unsigned n = sym_choice("n", 4); Model m; int a = nextId;
        auto x = mk(f), y = mk(f), z = mk(f);
        for (unsigned i = 0; i < n; ++i) m.id[m.n++] = a + i;
        if (n == 0) { Parts p; same(p, m); }
        else if (n == 1) { Parts p(std::move(x)); same(p, m); Parts q(std::move(p)); same(q, m); REACH("moved"); }
        else if (n == 2) { Parts p(std::move(x), std::move(y)); same(p, m); Parts q; q.AddPart(std::move(p)); same(q, m); REACH("merged"); }
        else { Parts p(std::move(x), std::move(y), std::move(z)); same(p, m); p.Clear(); m.n = 0; same(p, m); REACH("cleared"); }
    }
    CHECK(mock::live() == 0, "every part is released exactly once");
    REACH("merged"); REACH("moved"); REACH("cleared");
#endif
}
