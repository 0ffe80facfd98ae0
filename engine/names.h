#pragma once
#include <string>
#include <unordered_map>

enum class H : int {
    None = 0,
    SymInt, SymBytes, SymChoice, SymConc, SymAssume, SymCheck, SymFail, SymReach, SymNote, SymEnd, SymMode, SymHeapLive, SymPtrOk,
    SymIsSym, SymHeapId, SymPoison, SymUnpoison, SymThreadNew, SymThreadSwitch, SymThreadSelf, SymIncomplete, SymHbRelease, SymHbAcquire,
    Malloc, Calloc, Realloc, Free, New, NewNothrow, NewAligned, NewAlignedNothrow, AlignedAlloc, PosixMemalign, Delete, UsableSize,
    Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Strcmp, Strncmp, Memchr, Strchr,
    AllocExc, FreeExc, Throw, BeginCatch, EndCatch, Rethrow, GetExcPtr, CurExc, RethrowExc, ExcPtrAddRef, ExcPtrRelease, ExcPtrCtor, ExcPtrDtor, ExcPtrCopy,
    UncaughtExceptions, UncaughtException, InitPrimary, CurExcType, Terminate, Abort, AssertFail, PureVirtual,
    NoopZero, NoopVoid, HashBytes, Exit
};

static inline const std::unordered_map<std::string, H>& interceptTable()
{
    static const std::unordered_map<std::string, H> t = {
        {"sym_int", H::SymInt}, {"sym_bytes", H::SymBytes}, {"sym_choice", H::SymChoice}, {"sym_conc", H::SymConc}, {"sym_assume", H::SymAssume},
        {"sym_check", H::SymCheck}, {"sym_fail", H::SymFail}, {"sym_reach", H::SymReach}, {"sym_note", H::SymNote}, {"sym_end", H::SymEnd},
        {"sym_mode", H::SymMode}, {"sym_heap_live", H::SymHeapLive}, {"sym_ptr_ok", H::SymPtrOk}, {"sym_is_symbolic", H::SymIsSym},
        {"sym_heap_id", H::SymHeapId}, {"sym_poison", H::SymPoison}, {"sym_unpoison", H::SymUnpoison},
        {"sym_thread_new", H::SymThreadNew}, {"sym_thread_switch", H::SymThreadSwitch}, {"sym_thread_self", H::SymThreadSelf}, {"sym_incomplete", H::SymIncomplete}, {"sym_hb_release", H::SymHbRelease}, {"sym_hb_acquire", H::SymHbAcquire},
        {"malloc", H::Malloc}, {"calloc", H::Calloc}, {"realloc", H::Realloc}, {"free", H::Free},
        {"_Znwm", H::New}, {"_Znam", H::New}, {"_ZnwmRKSt9nothrow_t", H::NewNothrow}, {"_ZnamRKSt9nothrow_t", H::NewNothrow},
        {"_ZnwmSt11align_val_t", H::NewAligned}, {"_ZnamSt11align_val_t", H::NewAligned},
        {"_ZnwmSt11align_val_tRKSt9nothrow_t", H::NewAlignedNothrow}, {"_ZnamSt11align_val_tRKSt9nothrow_t", H::NewAlignedNothrow},
        {"aligned_alloc", H::AlignedAlloc}, {"memalign", H::AlignedAlloc}, {"posix_memalign", H::PosixMemalign}, {"malloc_usable_size", H::UsableSize},
        {"_ZdlPv", H::Delete}, {"_ZdaPv", H::Delete}, {"_ZdlPvm", H::Delete}, {"_ZdaPvm", H::Delete}, {"_ZdlPvSt11align_val_t", H::Delete},
        {"_ZdaPvSt11align_val_t", H::Delete}, {"_ZdlPvmSt11align_val_t", H::Delete}, {"_ZdaPvmSt11align_val_t", H::Delete},
        {"_ZdlPvRKSt9nothrow_t", H::Delete}, {"_ZdaPvRKSt9nothrow_t", H::Delete}, {"_ZdlPvSt11align_val_tRKSt9nothrow_t", H::Delete},
        {"memcpy", H::Memcpy}, {"memmove", H::Memmove}, {"memset", H::Memset}, {"memcmp", H::Memcmp}, {"bcmp", H::Bcmp}, {"strlen", H::Strlen},
        {"strcmp", H::Strcmp}, {"strncmp", H::Strncmp}, {"memchr", H::Memchr}, {"strchr", H::Strchr},
        {"__cxa_allocate_exception", H::AllocExc}, {"__cxa_free_exception", H::FreeExc}, {"__cxa_throw", H::Throw}, {"__cxa_begin_catch", H::BeginCatch},
        {"__cxa_end_catch", H::EndCatch}, {"__cxa_rethrow", H::Rethrow}, {"__cxa_get_exception_ptr", H::GetExcPtr},
        {"_ZSt17current_exceptionv", H::CurExc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", H::RethrowExc},
        {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", H::ExcPtrAddRef}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", H::ExcPtrRelease},
        {"_ZNSt15__exception_ptr13exception_ptrC1EPv", H::ExcPtrCtor}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", H::ExcPtrCtor},
        {"_ZNSt15__exception_ptr13exception_ptrD1Ev", H::ExcPtrDtor}, {"_ZNSt15__exception_ptr13exception_ptrD2Ev", H::ExcPtrDtor},
        {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", H::ExcPtrCopy}, {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", H::ExcPtrCopy},
        {"_ZSt19uncaught_exceptionsv", H::UncaughtExceptions}, {"_ZSt18uncaught_exceptionv", H::UncaughtException},
        {"__cxa_init_primary_exception", H::InitPrimary}, {"__cxa_current_exception_type", H::CurExcType},
        {"_ZSt9terminatev", H::Terminate}, {"abort", H::Abort}, {"__assert_fail", H::AssertFail}, {"__cxa_pure_virtual", H::PureVirtual},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", H::AssertFail},
        {"__cxa_atexit", H::NoopZero}, {"atexit", H::NoopZero}, {"__cxa_thread_atexit", H::NoopZero}, {"at_quick_exit", H::NoopZero},
        {"_ZSt11_Hash_bytesPKvmm", H::HashBytes}, {"exit", H::Exit}, {"_exit", H::Exit}, {"_Exit", H::Exit}, {"quick_exit", H::Exit},
    };
    return t;
}
static inline bool isIntercepted(const std::string& n) { return interceptTable().count(n) != 0; }
