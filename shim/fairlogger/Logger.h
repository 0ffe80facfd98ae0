// Stand-in for FairLogger (not installed here): log statements are discarded, their operands are not evaluated.
#pragma once
#include <string>
#include <ostream>
#include <sstream>
#include <iostream>
namespace fair {
enum class Severity : int { nolog, fatal, error, alarm, important, warn, state, info, detail, debug, debug1, debug2, debug3, debug4, trace };
enum class Verbosity : int { verylow, low, medium, high, veryhigh, user1, user2, user3, user4 };
struct NullLog { template<typename T> NullLog& operator<<(const T&) { return *this; } NullLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct VSpec { enum class Info : int { timestamp_s, timestamp_us, severity, process_name, file, file_line, file_line_function }; template<typename... A> static VSpec Make(A...) { return {}; } };
using VerbositySpec = VSpec;
struct Logger {
    // settings in effect, recorded when a check asks for them
    static inline std::string* rec = nullptr;
    static void note(const char* what, const std::string& v) { if (rec) *rec += what + v + ";"; }
    static void SetConsoleSeverity(const std::string& v) { note("severity=", v); }
    static void SetConsoleSeverity(Severity) {}
    static void SetFileSeverity(const std::string& v) { note("file-severity=", v); }
    static void SetFileSeverity(Severity) {}
    static void SetVerbosity(const std::string& v) { note("verbosity=", v); }
    static void SetVerbosity(Verbosity) {}
    static void SetConsoleColor(bool v) { note("color=", v ? "1" : "0"); }
    static void InitFileSink(const std::string& s, const std::string& f, bool = true) { note("log-to-file=", f + "@" + s); }
    static void InitFileSink(Severity, const std::string&, bool = true) {}
    static void CycleConsoleSeverityUp() {}
    static void CycleConsoleSeverityDown() {}
    static void CycleVerbosityUp() {}
    static void CycleVerbosityDown() {}
    static Severity GetConsoleSeverity() { return Severity::info; }
    static Verbosity GetVerbosity() { return Verbosity::low; }
    static bool Logging(Severity) { return false; }
    static bool Logging(const std::string&) { return false; }
    static void DefineVerbosity(const std::string&, VSpec) {}
    static void DefineVerbosity(Verbosity, VSpec) {}
    static void OnFatal(void (*)()) {}
};
}
#ifdef VP_LOG
// log lines are handed to the check: their text, and the floating point numbers in them
struct VpLine { std::string text; double num[8]; int nums = 0; };
void vpLog(const VpLine&);
namespace fair {
struct CapLog
{
    VpLine l; ~CapLog() { vpLog(l); }
    CapLog& operator<<(const std::string& s) { l.text += s; return *this; }
    CapLog& operator<<(const char* s) { l.text += s; return *this; }
    CapLog& operator<<(double d) { if (l.nums < 8) l.num[l.nums++] = d; return *this; }
    template<typename T> CapLog& operator<<(const T&) { return *this; }
    CapLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
}
#define LOG(sev) ::fair::CapLog()
#else
#define LOG(sev) while (false) ::fair::NullLog()
#endif
#define LOGV(sev, v) while (false) ::fair::NullLog()
#define LOGF(...) do { } while (false)
#define LOGP(...) do { } while (false)
#define LOG_IF(sev, c) while (false) ::fair::NullLog()
#define LOGP_IF(...) do { } while (false)
