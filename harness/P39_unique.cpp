//@ property P39
//@ sources fairmq/tools/Unique.cxx
//@ libs
//@ bounds every sequence of two ids made from 2 x 16 symbolic random bytes, with short reads at any of the first 4 reads; the source of randomness missing
//@ require made short missing hashed
#include <engine/sym.h>
#include <rt/rt.h>
#include <fairmq/tools/Unique.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <string>
#include <cstdarg>
using namespace fair::mq::tools; using std::string;
static unsigned char R[64]; static size_t used = 0; static int reads = 0, shortAt = -1, openFiles = 0; static bool missing = false;
static int source(const char* n) { if (strcmp(n, "/dev/urandom") && strcmp(n, "/dev/random")) return -1; if (missing) { errno = ENOENT; return -1; } ++openFiles; return 77; }
extern "C" int open(const char* n, int, ...) { return source(n); }
extern "C" int open64(const char* n, int, ...) { return source(n); }
extern "C" ssize_t read(int fd, void* p, size_t n) { CHECK(fd == 77 && openFiles == 1, "the open source is read"); if (reads++ == shortAt && n > 1) n /= 2; CHECK(used + n <= sizeof R, "the randomness needed is read"); memcpy(p, R + used, n); used += n; return (ssize_t)n; }
static int closeSource(int fd) { if (fd == 77) --openFiles; return 0; }
static void decode(const string& s, const unsigned char* r)
{
    CHECK(s.size() == 36, "an id has 36 characters"); int k = 0; bool ok = true;
    for (int i = 0; i < 16; ++i) {
        if (i == 4 || i == 6 || i == 8 || i == 10) ok &= s[k++] == '-';
        auto v = [&](char c) -> unsigned { bool d = (c >= '0') & (c <= '9'), h = (c >= 'a') & (c <= 'f'); ok &= d | h; return d ? (unsigned)(c - '0') : (unsigned)(c - 'a' + 10); };
        unsigned b = v(s[k]) * 16 + v(s[k + 1]); k += 2; unsigned want = r[i]; if (i == 6) want = (want & 0x0f) | 0x40; if (i == 8) want = (want & 0x3f) | 0x80; ok &= b == want;
    }
    CHECK(ok, "an id is the text of a random UUID, all random bits in it");
}
extern "C" void harness()
{
    rt_close = closeSource; sym_bytes(R, 32, "randomness"); unsigned what = sym_choice("what", 3);
    if (what == 2) { missing = true; bool threw = false; try { Uuid(); } catch (std::exception&) { threw = true; } CHECK(threw, "without randomness there is no id"); REACH("missing"); return; }
    if (what == 1) { for (int i = 0; i < 16; ++i) sym_assume((R[i] == 0) & (R[i + 16] == i)); size_t a = UuidHash(), b = UuidHash(); CHECK(a != b && used >= 32, "different ids have different hashes"); REACH("hashed"); return; }
    shortAt = (int)sym_choice("short read", 5) - 1; string a = Uuid(); CHECK(openFiles <= 1, "sources do not pile up"); decode(a, R); string b = Uuid(); CHECK(openFiles <= 1, "sources do not pile up"); decode(b, R + 16); if (shortAt >= 0 && reads > 2) REACH("short"); REACH("made");
}
