//@ property P37
//@ sources fairmq/ProgOptions.cxx fairmq/Properties.cxx fairmq/EventManager.cxx fairmq/Channel.cxx fairmq/TransportFactory.cxx
//@ libs boost_program_options boost_regex zmq
//@ bounds all 36 property types; symbolic 8-bit character and boolean values, integers at the limits of their type and 0, +-1, floating point and text samples, vectors of 0 to 3 elements; each value set singly, set as one of many, updated and read back as text, by regular expression and with its type
//@ variant types +quick=120 +thorough=600
//@ require scalar vector custom
#include <fairmq/ProgOptions.h>
#include <rt/rt.h>
#include <filesystem>
#include <limits>
#include <cstring>
using namespace fair::mq; using std::string; using std::vector; namespace fs = std::filesystem;
static int typedCalls = 0, textCalls = 0, otherCalls = 0; static string textSeen, keySeen;
static string dig(unsigned __int128 v) { string s; do s.insert(s.begin(), char('0' + (int)(v % 10))); while (v /= 10); return s; }
template<class T> string txt(const T& v) // independent of the code under check
{
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return string(1, v);
    else if constexpr (std::is_same_v<T, string>) return v;
    else if constexpr (std::is_same_v<T, const char*>) return v;
    else if constexpr (std::is_same_v<T, fs::path>) return "\"" + v.string() + "\"";
    else if constexpr (std::is_floating_point_v<T>) return v == T(0) ? "0" : v == T(1.5) ? "1.5" : v == T(-2.25) ? "-2.25" : "1e+10";
    else return v < 0 ? "-" + dig(-(__int128)v) : dig(v);
}
template<class T> T value(const char* nm)
{
    if constexpr (std::is_same_v<T, bool>) return sym_conc(sym_bool(nm)) & 1;
    else if constexpr (std::is_same_v<T, string>) { static const char* S[] = {"", "text", "a, b"}; return S[sym_choice(nm, 3)]; }
    else if constexpr (std::is_same_v<T, fs::path>) { static const char* S[] = {"/tmp/x", "y"}; return S[sym_choice(nm, 2)]; }
    else if constexpr (std::is_floating_point_v<T>) { static const T S[] = {T(0), T(1.5), T(-2.25), T(1e10)}; return S[sym_choice(nm, 4)]; }
    else if constexpr (std::is_same_v<T, char>) return (char)sym_u8(nm);
    else if constexpr (sizeof(T) == 1) return (T)sym_conc(sym_u8(nm));
    else { unsigned c = sym_choice(nm, 5); return c == 0 ? std::numeric_limits<T>::max() : c == 1 ? std::numeric_limits<T>::min() : c == 2 ? T(0) : c == 3 ? T(1) : T(-1); }
}
template<class T> bool same(const T& a, const T& b) { return a == b; }
static ProgOptions* o;
template<class T, class N = T> void drive(const T& v, const string& expect, const char* label)
{
    typedCalls = textCalls = otherCalls = 0;
    unsigned how = sym_choice("how", sizeof(T) == 1 && !std::is_same_v<T, bool> ? 2 : 4);
    if (how >= 2) { o->SetProperty<T>("p", T(v)); o->SetProperty("q", 1); }
    static N got; got = N();
    o->Subscribe<N>("me", [](string k, N x) { ++typedCalls; keySeen = k; got = x; });
    if constexpr (!std::is_same_v<N, int>) o->Subscribe<int>("other", [](string k, int) { if (k == "p") ++otherCalls; });
    if constexpr (!std::is_same_v<N, string>) o->Subscribe<string>("other", [](string, string) { ++otherCalls; });
    if constexpr (!std::is_same_v<N, vector<int>>) o->Subscribe<vector<int>>("other", [](string, vector<int>) { ++otherCalls; });
    o->SubscribeAsString("me", [](string k, string s) { if (k == "p") { ++textCalls; textSeen = s; } });
    Properties in; in["p"] = v; if (!std::is_same_v<N, int>) in["q"] = 5;
    if (how == 0) o->SetProperty<T>("p", T(v)); else if (how == 1) o->SetProperties(in); else if (how == 2) CHECK(o->UpdateProperty<T>("p", T(v)), "updating an existing property succeeds"); else CHECK(o->UpdateProperties(in), "updating existing properties succeeds");
    if (!(std::is_same_v<T, const char*> && (how == 0 || how == 2))) { CHECK(typedCalls == 1 && keySeen == "p", "a change is announced once to subscribers of the type"); CHECK(same(got, N(v)), "the announced value is the value set"); }
    CHECK(otherCalls == 0, "a change is not announced to subscribers of other types");
    CHECK(textCalls == 1 && textSeen == expect, "a change is announced once as text with the value's text");
    const ProgOptions& c = *o;
    CHECK(same(N(c.GetProperty<T>("p")), N(v)), "the value read back is the value set");
    CHECK(c.GetPropertyAsString("p") == expect, "the text of a property is the text of its value");
    CHECK(c.GetPropertiesAsString("p").at("p") == expect && c.GetPropertiesAsStringStartingWith("p").at("p") == expect, "property queries give the text of each value");
    Property p(v); auto info = PropertyHelper::GetPropertyInfo(p);
    CHECK(info.first == expect && PropertyHelper::ConvertPropertyToString(p) == expect, "converting a property gives its text");
    CHECK(info.second.compare(0, strlen(label), label) == 0, "the type label of a property names its type");
    bool refused = false; try { c.GetProperty<std::pair<int, int>>("p"); } catch (boost::bad_any_cast&) { refused = true; } CHECK(refused, "reading a property as another type is refused");
}
template<class T> void scalar(const char* label) { T v = value<T>("value"); drive<T>(v, txt(v), label); REACH("scalar"); }
template<class T> void vec(const char* label)
{
    unsigned n = sym_choice("elements", 4); vector<T> v; string e;
    for (unsigned i = 0; i < n; ++i) { T x = T(); if (i == 0) { if constexpr (sizeof(T) == 1 && !std::is_same_v<T, bool>) { static const int L[] = {65, 127, -128, 1, 32}; x = T(L[sym_choice("element", 5)]); } else x = value<T>("element"); } if (i == 1) { if constexpr (std::is_arithmetic_v<T>) x = T(1.5) == T(1) ? T(65) : T(1.5); } if constexpr (std::is_same_v<T, char>) if (i == 2) x = 'z'; v.push_back(x); if (i) e += ", "; if constexpr (std::is_same_v<T, bool>) e += x ? "true" : "false"; else e += txt<T>(x); }
    drive<vector<T>>(v, e, label); REACH("vector");
}
struct Custom { int a; bool operator==(const Custom& x) const { return a == x.a; } };
static std::ostream& operator<<(std::ostream& os, const Custom& c) { return os << "<" << c.a << ">"; }
extern "C" void harness()
{
    o = new ProgOptions();
    switch (sym_choice("type", 38)) {
        case 0: scalar<char>("char"); break; case 1: scalar<signed char>("signed char"); break; case 2: scalar<unsigned char>("unsigned char"); break;
        case 3: { const char* s = sym_choice("text", 2) ? "abc" : ""; drive<const char*, string>(s, s, "string"); break; }
        case 4: scalar<string>("string"); break; case 5: scalar<int>("int"); break; case 6: scalar<short>("short"); break; case 7: scalar<long>("long"); break; case 8: scalar<long long>("long long"); break;
        case 9: scalar<unsigned>("unsigned"); break; case 10: scalar<unsigned short>("unsigned short"); break; case 11: scalar<unsigned long>("unsigned long"); break; case 12: scalar<unsigned long long>("unsigned long long"); break;
        case 13: scalar<float>("float"); break; case 14: scalar<double>("double"); break; case 15: scalar<long double>("long double"); break; case 16: scalar<bool>("bool"); break;
        case 17: vec<bool>("vector<bool>"); break; case 18: scalar<fs::path>("std::filesystem::path"); break;
        case 19: vec<char>("vector<char>"); break; case 20: vec<signed char>("vector<signed char>"); break; case 21: vec<unsigned char>("vector<unsigned char>"); break; case 22: vec<string>("vector<string>"); break;
        case 23: vec<int>("vector<int>"); break; case 24: vec<short>("vector<short>"); break; case 25: vec<long>("vector<long>"); break; case 26: vec<long long>("vector<long long>"); break;
        case 27: vec<unsigned>("vector<unsigned>"); break; case 28: vec<unsigned short>("vector<unsigned short>"); break; case 29: vec<unsigned long>("vector<unsigned long>"); break; case 30: vec<unsigned long long>("vector<unsigned long long>"); break;
        case 31: vec<float>("vector<float>"); break; case 32: vec<double>("vector<double>"); break; case 33: vec<long double>("vector<long double>"); break; case 34: vec<fs::path>("vector<std::filesystem::path>"); break;
        case 35: PropertyHelper::AddType<Custom>("custom"); drive<Custom>(Custom{7}, "<7>", "custom"); REACH("custom"); break;
        case 36: PropertyHelper::AddType<Custom>(); { Property p(Custom{8}); CHECK(PropertyHelper::GetPropertyInfo(p).second.find("Custom") != string::npos, "an unlabelled type gets its own name"); CHECK(PropertyHelper::ConvertPropertyToString(p) == "<8>", "an added type is converted with its own output operator"); } break;
        default: { Property p(std::pair<int, int>(1, 2)); CHECK(PropertyHelper::GetPropertyInfo(p).first == "[unidentified_type]", "an unknown type is reported as unidentified"); bool f = false; try { PropertyHelper::ConvertPropertyToString(p); } catch (std::exception&) { f = true; } CHECK(f, "converting an unknown type fails"); }
    }
}
