// Harness API of the symbolic executor.  The same calls exist natively (replay mode of the engine).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_int(const char* name, unsigned bits);                 // fresh symbolic integer
void sym_bytes(void* p, size_t n, const char* name);               // make n bytes symbolic
unsigned sym_choice(const char* name, unsigned n);                 // 0..n-1, one path per feasible value
uint64_t sym_conc(uint64_t v);                                     // one path per feasible value of v
void sym_assume(bool c);
void sym_check(bool c, const char* msg);                           // the property assertion
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_reach(const char* tag);                                   // vacuity tag
void sym_note(const char* key, uint64_t v);                        // observation, compared in the native replay
void sym_end() __attribute__((noreturn));                          // end of this path (no violation)
void sym_mode(const char* key, uint64_t v);
uint64_t sym_heap_live();                                          // number of live heap blocks allocated by interpreted code
bool sym_ptr_ok(const void* p, size_t n);                          // [p,p+n) is addressable
bool sym_is_symbolic(uint64_t v);
uint64_t sym_heap_id(const void* p);                               // number of the heap block p points into (0: none)
void sym_poison(void* p, size_t n);                                // accesses to the range become violations
void sym_unpoison(void* p, size_t n);
// threads (used by the runtime, not by harnesses)
int sym_thread_new(void (*fn)(void*), void* arg);
void sym_thread_switch(int id);
int sym_thread_self();
void sym_hb_release(const void* key);   // happens-before edges for the data race detector (sym_mode("race", 1))
void sym_hb_acquire(const void* key);
// called before every atomic instruction by instrumentation; implemented in the runtime
void sym_sched_point(const void* addr);
void sym_incomplete(const char* why) __attribute__((noreturn));    // the path leaves the modelled envelope
}
// deterministic: the harness entry point
extern "C" void harness();
static inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_int(n, 8); }
static inline uint16_t sym_u16(const char* n) { return (uint16_t)sym_int(n, 16); }
static inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_int(n, 32); }
static inline int32_t sym_i32(const char* n) { return (int32_t)sym_int(n, 32); }
static inline uint64_t sym_u64(const char* n) { return sym_int(n, 64); }
static inline bool sym_bool(const char* n) { return sym_int(n, 1) & 1; }
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c, msg) sym_check((c), msg)
#define REACH(t) sym_reach(t)
