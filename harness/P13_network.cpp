//@ property P13
//@ sources fairmq/tools/Network.cxx
//@ libs
//@ bounds interfaces: every list of up to 3 (quick) or 4 (thorough) entries of the operating system, each with one of three names and an IPv4, IPv6 or no address, with a failure at any point; route: every table of up to 3 (quick) or 4 (thorough) lines with a destination that is the default, another one or malformed, also a missing table, followed by every output of the route command; resolve: every list of up to 2 addresses with symbolic bytes or failure
//@ variant interfaces -DWHAT=0
//@ variant route -DWHAT=1
//@ variant resolve -DWHAT=2
//@ require found@interfaces,route,resolve missing@interfaces,resolve fails@interfaces,route,resolve command@route
#include <engine/sym.h>
#include <fairmq/tools/Network.h>
#include <fstream>
#include <ifaddrs.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <cstring>
#include <iostream>
#include <sstream>
#include <vector>
#include <unistd.h>
using namespace fair::mq::tools; using std::string; using std::vector;
#ifdef THOROUGH
const unsigned N = 4;
#else
const unsigned N = 3;
#endif
static ifaddrs* list = nullptr; static int lists = 0; static bool listFails = false; static int nameFailsAt = -1, named = 0;
extern "C" int getifaddrs(ifaddrs** out) noexcept { if (listFails) return -1; ++lists; *out = list; return 0; }
extern "C" void perror(const char*) {}
extern "C" void freeifaddrs(ifaddrs* l) noexcept { CHECK(l == list && lists == 1, "the list of interfaces is released once"); --lists; }
extern "C" int getnameinfo(const sockaddr* a, socklen_t l, char* h, socklen_t n, char*, socklen_t, int flags)
{
    CHECK(a->sa_family == AF_INET && l >= sizeof(sockaddr_in) && n >= 16, "an address is converted with its own size"); if (named++ == nameFailsAt) return EAI_FAIL;
    CHECK(flags & NI_NUMERICHOST, "the address itself is asked for"); const auto* b = (const unsigned char*)&((const sockaddr_in*)a)->sin_addr; string s; for (int i = 0; i < 4; ++i) s += (i ? "." : "") + std::to_string((unsigned)b[i]); memcpy(h, s.c_str(), s.size() + 1); return 0;
}
// the operating system's routing table and the output of the route command
static string table, output; static bool noTable = false, noCommand = false; static int opened = 0, closed = 0; static size_t outAt = 0; static char handle[64];
static string fileName() { return "/tmp/vp13." + std::to_string(getpid()); }
extern "C" void ifs(std::ifstream* f, const char* name, std::ios_base::openmode m) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
extern "C" void ifs(std::ifstream* f, const char* name, std::ios_base::openmode m) { new (f) std::ifstream; f->open(strcmp(name, "/proc/net/route") ? name : noTable ? "/nonexistent" : fileName().c_str(), m); }
extern "C" FILE* popen(const char*, const char*) { if (noCommand) return nullptr; ++opened; outAt = 0; return (FILE*)handle; }
extern "C" int pclose(FILE* f) { CHECK(f == (FILE*)handle, "the command is closed"); ++closed; return 0; }
static bool eof = false;
extern "C" int feof(FILE*) noexcept { return eof; }
extern "C" char* fgets(char* b, int n, FILE*) { int i = 0; while (i < n - 1 && outAt < output.size()) { b[i++] = output[outAt++]; if (b[i - 1] == '\n') break; } if (!i) { eof = true; return nullptr; } if (outAt == output.size() && b[i - 1] != '\n') eof = true; b[i] = 0; return b; }
static int answer = 0, freed = 0; static addrinfo ai[2]; static sockaddr_in sa[2]; static string asked;
extern "C" int getaddrinfo(const char* h, const char*, const addrinfo* hints, addrinfo** out) { asked = h ? h : ""; CHECK(hints && hints->ai_family == AF_INET, "IPv4 addresses are asked for"); if (answer == 0) return EAI_NONAME; *out = answer == 3 ? nullptr : ai; return 0; }
extern "C" void freeaddrinfo(addrinfo*) noexcept { ++freed; }
extern "C" void harness()
{
    std::cout.setstate(std::ios::failbit);
#if WHAT == 0
    static const char* NM[] = {"lo", "eth0", "eth0:1"}; unsigned n = sym_choice("entries", N + 1); vector<ifaddrs> e(n); vector<sockaddr_in> a4(n); vector<sockaddr_in6> a6(n); std::map<string, string> want; int v4 = 0; listFails = sym_choice("list fails", 2); if (!listFails && n) nameFailsAt = (int)sym_choice("name fails at", n + 1) - 1;
    for (unsigned i = 0; i < n; ++i) {
        memset(&e[i], 0, sizeof e[i]); unsigned k = sym_choice("kind", 3), w = sym_choice("name", 3); e[i].ifa_name = const_cast<char*>(NM[w]); e[i].ifa_next = i + 1 < n ? &e[i + 1] : nullptr;
        memset(&a4[i], 0, sizeof a4[i]); memset(&a6[i], 0, sizeof a6[i]); a4[i].sin_family = AF_INET; a6[i].sin6_family = AF_INET6; a4[i].sin_addr.s_addr = htonl(0x0a000001 + i * 256);
        if (k == 0) { e[i].ifa_addr = (sockaddr*)&a4[i]; want.insert({NM[w], "10.0." + std::to_string(i) + ".1"}); ++v4; } else if (k == 1) e[i].ifa_addr = (sockaddr*)&a6[i];
    }
    list = n ? &e[0] : nullptr; bool fails = listFails || (nameFailsAt >= 0 && nameFailsAt < v4), threw = false; std::map<string, string> got; try { got = getHostIPs(); } catch (std::runtime_error&) { threw = true; }
    CHECK(threw == fails, "a failure of the operating system is reported, and nothing else"); if (!threw) { CHECK(got == want, "every interface with an IPv4 address is listed with its first one"); } else REACH("fails"); CHECK(lists == 0, "the list of interfaces is released once");
    for (auto* q : {"lo", "eth0", "eth0:1", "eth", ""}) { named = 0; string ip = getInterfaceIP(q); CHECK(ip == (fails || !want.count(q) ? "" : want[q]), "the address of an interface is its first IPv4 address, if there is one"); if (ip.empty()) REACH("missing"); else REACH("found"); CHECK(lists == 0, "the list of interfaces is released once"); }
#elif WHAT == 1
    // Iface Destination Gateway ...
    unsigned n = sym_choice("lines", N + 1); noTable = n == 0 && sym_choice("no table", 2); string want; bool stop = false; bool newline = sym_choice("newline at the end", 2); table = "Iface\tDestination\tGateway\tFlags"; 
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = sym_choice("line", 5); string nm = "if" + std::to_string(i), d = k == 0 ? "00000000" : k == 1 ? "0000A8C0" : k == 2 ? "000000000" + string("1") : k == 3 ? "0000000" : ""; if (k == 2) d = "00000001";
        table += "\n" + (k == 4 ? string("garbage") : nm + "\t" + d + "\t0101A8C0\t0003"); if (k == 4) stop = true; if (k == 0 && want.empty() && !stop) want = nm;
    }
    static const char* O[] = {"", "\n", "enp1s0\n", "  wlan0 \n", "ib0", "x"}; unsigned o = sym_choice("output", 7); noCommand = o == 6; if (o < 6) output = O[o]; if (o == 5) { output = string(300, 'y') + "\n"; }
    if (newline) table += "\n"; { FILE* f = fopen(fileName().c_str(), "w"); fwrite(table.data(), 1, table.size(), f); fclose(f); }
    string cmd = o == 2 ? "enp1s0" : o == 3 ? "wlan0" : o == 4 ? "ib0" : o == 5 ? string(300, 'y') : ""; string got; bool threw = false; try { got = getDefaultRouteNetworkInterface(); } catch (DefaultRouteDetectionError&) { threw = true; } unlink(fileName().c_str());
    if (!want.empty()) { CHECK(!threw && got == want && !opened, "the interface of the first default route of the table is found"); REACH("found"); }
    else if (!cmd.empty()) { CHECK(!threw && got == cmd, "without a default route in the table the route command is asked"); REACH("command"); }
    else { CHECK(o == 6 ? got.empty() : threw, "it is reported that there is no default route"); REACH("fails"); }
    CHECK(opened == closed, "the command is closed");
#else
    answer = sym_choice("answer", 4); unsigned char b[4]; sym_bytes(b, 4, "address"); for (int i = 0; i < 4; ++i) sym_assume(b[i] == 0 || b[i] == 7 || b[i] == 10 || b[i] == 99 || b[i] == 100 || b[i] == 255);
    for (int i = 0; i < 2; ++i) { memset(&sa[i], 0, sizeof sa[i]); memset(&ai[i], 0, sizeof ai[i]); sa[i].sin_family = AF_INET; memcpy(&sa[i].sin_addr, b, 4); if (i) sa[i].sin_addr.s_addr = 0x01010101; ai[i].ai_family = AF_INET; ai[i].ai_socktype = SOCK_STREAM; ai[i].ai_addr = (sockaddr*)&sa[i]; ai[i].ai_addrlen = sizeof sa[i]; ai[i].ai_next = i == 0 && answer == 2 ? &ai[1] : nullptr; }
    string got = getIpFromHostname("some.host"); CHECK(asked == "some.host", "the name given is looked up");
    if (answer == 1 || answer == 2) { string w; for (int i = 0; i < 4; ++i) w += (i ? "." : "") + std::to_string((unsigned)b[i]); CHECK(got == w && freed == 1, "the first IPv4 address of a host is found"); REACH("found"); } else { CHECK(got.empty(), "a host without address has none"); if (answer) REACH("missing"); else REACH("fails"); }
#endif
}
