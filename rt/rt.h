// Environment model used under both the symbolic executor and the native replay.
#pragma once
#include "../engine/sym.h"
#include <cstdint>
#include <cstddef>
void rt_preempt(int budget);                 // number of preemptive context switches explored (default 0)
void rt_deadlock(const char* violationMsg);  // message reported when every thread is blocked (nullptr: the path just ends)
void rt_clock_step(int64_t ns);              // virtual time consumed by each clock query (default 1000)
int64_t rt_now();
void rt_advance(int64_t ns);
void rt_spurious(int n);                     // number of spurious condition variable wakeups explored
int rt_blocked();                            // number of threads that are blocked (not runnable, not finished)
int rt_alive();                              // threads not finished, without the caller
bool rt_timeouts(bool on);                   // whether timed waits may time out while other threads can run; else only the earliest one does, when none can
bool rt_order(bool any);                      // whether every ready thread is considered when one blocks; else round robin
void rt_yield();                             // a point where any other runnable thread may be scheduled (free of budget)
void rt_random(uint32_t (*f)());             // source for std::random_device
void rt_checkpoint();                        // explicit preemption point
bool rt_wait(const void* key, int64_t ns);    // block until rt_notify(key) or, for ns >= 0, the timeout; returns whether it timed out
void rt_notify(const void* key);             // wake every thread blocked on key
void rt_shm_reset();
int rt_shm_count(const char* prefix);        // number of existing shared memory objects whose name starts with prefix
bool rt_shm_exists(const char* name);
void rt_shm_limit(size_t bytes);             // shared memory objects cannot be made larger than this (ENOSPC)
void rt_mlock_fails(bool fails);
bool rt_sem_exists(const char* name);        // named semaphore (Boost's named_mutex)
extern int (*rt_close)(int);                  // closes descriptors that are not of shared memory objects
void rt_raise(int sig);                      // run the handler installed with signal()
