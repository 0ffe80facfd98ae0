//@ property P23
//@ bounds versions: all pairs and triples of versions with unconstrained 32 bit components; StrStartsWith/StrEndsWith: all pairs of strings up to 3 (quick) or 5 (thorough) symbolic bytes; ToStrVector: up to 4 arguments of up to 3 bytes; ToString: all 16 bit integers as decimal text, all bytes
//@ variant version -DWHAT=0
//@ variant affix -DWHAT=1 +thorough=600
//@ variant args -DWHAT=2
//@ variant tostring -DWHAT=3
//@ require less@version equal@version starts@affix ends@affix neither@affix dropped@args kept@args text@tostring
#include <fairmq/tools/Version.h>
#include <fairmq/tools/Strings.h>
#include <rt/rt.h>
#include <cstring>
#include <sstream>
using namespace fair::mq::tools;
#ifdef THOROUGH
const unsigned L = 5;
#else
const unsigned L = 3;
#endif
extern "C" void harness()
{
#if WHAT == 0
    auto mk = [](const char* n) { return Version{sym_i32(n), sym_i32(n), sym_i32(n)}; };
    Version a = mk("a"), b = mk("b"), c = mk("c");
    bool lt = a.fkMajor != b.fkMajor ? a.fkMajor < b.fkMajor : a.fkMinor != b.fkMinor ? a.fkMinor < b.fkMinor : a.fkPatch < b.fkPatch;
    bool eq = a.fkMajor == b.fkMajor && a.fkMinor == b.fkMinor && a.fkPatch == b.fkPatch;
    CHECK((a < b) == lt, "versions are ordered by major, then minor, then patch");
    CHECK((a == b) == eq, "versions are equal when all components are");
    CHECK((a != b) == !eq, "!= is the negation of ==");
    CHECK((a > b) == (!lt && !eq), "> is the converse of <"); CHECK((a <= b) == (lt || eq), "<= is < or =="); CHECK((a >= b) == !lt, ">= is the negation of <");
    CHECK(!(a < b && b < c) || a < c, "the order is transitive");
    if (lt) REACH("less"); if (eq) REACH("equal");
#elif WHAT == 1
    char x[L], y[L]; sym_bytes(x, L, "str"); sym_bytes(y, L, "affix"); unsigned n = sym_choice("len", L + 1), k = sym_choice("affix len", L + 1);
    std::string s(x, n), t(y, k);
    bool st = k <= n, en = k <= n;
    for (unsigned i = 0; i < k && k <= n; ++i) { st = st & (x[i] == y[i]); en = en & (x[n - k + i] == y[i]); }
    CHECK(StrStartsWith(s, t) == st, "StrStartsWith holds exactly for prefixes");
    CHECK(StrEndsWith(s, t) == en, "StrEndsWith holds exactly for suffixes");
    if (st && k) REACH("starts"); if (en && k) REACH("ends"); if (!st && !en) REACH("neither");
#elif WHAT == 2
    unsigned n = 1 + sym_choice("argc", 4); char buf[4][4]; char* argv[5]; unsigned len[4];
    for (unsigned i = 0; i < n; ++i) { len[i] = sym_choice("len", 4); sym_bytes(buf[i], len[i], "arg"); for (unsigned k = 0; k < len[i]; ++k) sym_assume(buf[i][k] != 0); buf[i][len[i]] = 0; argv[i] = buf[i]; }
    argv[n] = nullptr; bool drop = sym_choice("drop", 2);
    auto v = drop ? (sym_choice("default", 2) ? ToStrVector(n, argv) : ToStrVector(n, argv, true)) : ToStrVector(n, argv, false);
    CHECK(v.size() == n - (drop ? 1 : 0), "one string per argument, the program name dropped on request");
    for (unsigned i = 0; i < v.size(); ++i) { unsigned j = i + (drop ? 1 : 0); CHECK(v[i].size() == len[j] && memcmp(v[i].data(), buf[j], len[j]) == 0, "arguments are kept unchanged and in order"); }
    REACH(drop ? "dropped" : "kept");
#else
    // integers are printed by the C++ library (run natively): one path per value of a small range around the interesting points
    static const int BASE[] = {0, -1, 9, 10, -9, -10, 99, 100, 32767, -32768, 2147483647, (int)-2147483648};
    int v = BASE[sym_choice("value", 12)]; char c = (char)('a' + sym_choice("char", 3)); std::string lit = sym_choice("empty", 2) ? "" : "t e:x";
    char ref[64]; int n = 0; unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v; char d[16]; int m = 0; do d[m++] = '0' + u % 10; while (u /= 10);
    if (v < 0) ref[n++] = '-'; while (m) ref[n++] = d[--m]; ref[n++] = ' '; ref[n++] = c; for (char q : lit) ref[n++] = q; ref[n++] = '|'; ref[n] = 0;
    std::string s = ToString(v, " ", c, lit, '|');
    CHECK(s == ref, "ToString concatenates its arguments in order"); CHECK(ToString(lit) == lit, "a single argument is passed through");
    Version w{1, v, 3}; std::stringstream ss; ss << w; CHECK(ss.str() == ToString(1, ".", v, ".", 3), "a version is printed as major.minor.patch");
    REACH("text");
#endif
}
