#include "rt.h"
int (*rt_close)(int) = nullptr;
#include <cerrno>
#include <csignal>
#include <condition_variable>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <random>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

// ------------------------------------------------------------------ scheduler
namespace {
enum { RUN = 0, BLOCK = 1, DONE = 2 };
struct Th { int eng; int st; const void* key; int64_t until; bool timedOut; void* (*fn)(void*); void* arg; void* ret; bool detached; };
const int MAXT = 32;
Th T[MAXT]; int nT = 0; int curT = 0;
int budget = 0; const char* dlMsg = "deadlock: every thread is blocked"; int64_t now_ = 1000000000000; int64_t step_ = 1000; int spur = 0; bool timeoutsAnytime = true, anyOrder = true;
uint32_t (*rnd)() = nullptr;
inline void ensure() { if (!nT) { nT = 1; T[0] = Th{0, RUN, nullptr, -1, false, nullptr, nullptr, nullptr, false}; } }
void go(int t)
{
    if (t == curT) return;
    if (T[t].st == BLOCK) { T[t].timedOut = true; T[t].st = RUN; T[t].key = nullptr; if (T[t].until > now_) now_ = T[t].until; T[t].until = -1; }
    curT = t;
    sym_thread_switch(T[t].eng);
}
int nextOf(const int* c, int n) { int b = 0, bd = 2 * MAXT; for (int i = 0; i < n; ++i) { int d = (c[i] - curT - 1 + nT) % nT; if (d < bd) { b = i; bd = d; } } return b; }   // round robin
bool timed(int i) { return T[i].st == BLOCK && T[i].until >= 0; }
// switch away from a thread that cannot continue
void mustSwitch()
{
    int c[MAXT]; int n = 0;
    for (int i = 0; i < nT; ++i) if (i != curT && T[i].st == RUN) c[n++] = i;
    int r = n;
    int64_t first = INT64_MAX; if (!timeoutsAnytime) for (int i = 0; i < nT; ++i) if (timed(i) && T[i].until < first) first = T[i].until; // exact time: the earliest deadline
    if (timeoutsAnytime || !r) for (int i = 0; i < nT; ++i) if (timed(i) && T[i].until <= first) c[n++] = i;
    if (!n) { if (dlMsg) sym_fail(dlMsg); sym_end(); }
    int k = anyOrder ? (int)sym_choice("sched.next", n) : nextOf(c, n);
    int t = c[k];
    if (t == curT) { T[t].timedOut = true; T[t].st = RUN; T[t].key = nullptr; if (T[t].until > now_) now_ = T[t].until; T[t].until = -1; return; }
    go(t);
}
void preempt(bool free_)
{
    if (nT < 2) return;
    if (!free_ && budget <= 0) return;
    int c[MAXT]; int n = 0;
    for (int i = 0; i < nT; ++i) if (i != curT && (T[i].st == RUN || (timeoutsAnytime && timed(i)))) c[n++] = i;
    if (!n) return;
    int k = anyOrder || !free_ ? (int)sym_choice("sched.preempt", n + 1) : nextOf(c, n) + 1;
    if (!k) return;
    if (!free_) --budget;
    go(c[k - 1]);
}
// returns true when the wait timed out
bool blockOn(const void* key, int64_t until)
{
    ensure();
    T[curT].st = BLOCK; T[curT].key = key; T[curT].until = until; T[curT].timedOut = false;
    int me = curT;
    mustSwitch();
    return T[me].timedOut;
}
void wake(int i) { T[i].st = RUN; T[i].key = nullptr; T[i].until = -1; T[i].timedOut = false; }
void wakeAll(const void* key) { for (int i = 0; i < nT; ++i) if (T[i].st == BLOCK && T[i].key == key) wake(i); }
void wakeOne(const void* key)
{
    int c[MAXT]; int n = 0;
    for (int i = 0; i < nT; ++i) if (T[i].st == BLOCK && T[i].key == key) c[n++] = i;
    if (!n) return;
    wake(c[anyOrder ? sym_choice("sched.wake", n) : 0]);
}
void thMain(void* a)
{
    Th* t = (Th*)a;
    t->ret = t->fn(t->arg);
    t->st = DONE;
    sym_hb_release(t);
    wakeAll(t);
    mustSwitch();
    sym_fail("internal: finished thread resumed");
}
int spawn(void* (*fn)(void*), void* arg)
{
    ensure();
    if (nT >= MAXT) sym_incomplete("too many threads");
    int i = nT++;
    T[i] = Th{0, RUN, nullptr, -1, false, fn, arg, nullptr, false};
    T[i].eng = sym_thread_new(thMain, &T[i]);
    preempt(false);
    return i;
}
int joinT(int i, void** r)
{
    while (T[i].st != DONE) blockOn(&T[i], -1);
    sym_hb_acquire(&T[i]);
    if (r) *r = T[i].ret;
    return 0;
}
int64_t tsns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
void setts(timespec* t, int64_t n) { t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; }
void sleepNs(int64_t n)
{
    ensure();
    if (nT == 1) { now_ += n > 0 ? n : 0; return; }
    blockOn(nullptr, now_ + (n > 0 ? n : 0));
}
struct Mx { int owner; unsigned count; int pad[2]; int kind; };   // overlays pthread_mutex_t::__data {lock,count,owner,nusers,kind}
}
void rt_preempt(int b) { budget = b; }
void rt_deadlock(const char* m) { dlMsg = m; }
void rt_clock_step(int64_t n) { step_ = n; }
int64_t rt_now() { return now_; }
void rt_advance(int64_t n) { now_ += n; }
void rt_spurious(int n) { spur = n; }
bool rt_timeouts(bool on) { bool o = timeoutsAnytime; timeoutsAnytime = on; return o; }
bool rt_order(bool any) { bool o = anyOrder; anyOrder = any; return o; }
int rt_blocked() { int n = 0; for (int i = 0; i < nT; ++i) n += T[i].st == BLOCK; return n; }
int rt_alive() { int n = 0; for (int i = 0; i < nT; ++i) n += i != curT && T[i].st != DONE; return n; }
void rt_yield() { ensure(); preempt(true); }
void rt_checkpoint() { ensure(); preempt(false); }
bool rt_wait(const void* key, int64_t ns) { ensure(); return blockOn(key, ns < 0 ? -1 : now_ + ns); }
void rt_notify(const void* key) { wakeAll(key); }
void rt_random(uint32_t (*f)()) { rnd = f; }

extern "C" {
void sym_sched_point(const void*) { if (nT > 1) preempt(false); }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); ((Mx*)m)->kind = a ? *(const int*)a & 3 : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (((Mx*)m)->owner) sym_fail("mutex destroyed while locked"); return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t; return 0; }
int pthread_mutexattr_setpshared(pthread_mutexattr_t*, int) { return 0; }
int pthread_mutexattr_setrobust(pthread_mutexattr_t*, int) { return 0; }
int pthread_mutexattr_setprotocol(pthread_mutexattr_t*, int) { return 0; }
static int lockImpl(pthread_mutex_t* m, bool tr, int64_t until, bool quiet = false)
{
    ensure();
    Mx* x = (Mx*)m;
    if (!quiet) preempt(false);
    if (x->owner == curT + 1) { if (x->kind == PTHREAD_MUTEX_RECURSIVE) { ++x->count; return 0; } if (tr) return EBUSY; if (x->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    while (x->owner) { if (tr) return EBUSY; if (blockOn(m, until)) return ETIMEDOUT; }
    x->owner = curT + 1; x->count = 1; sym_hb_acquire(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockImpl(m, false, -1); }
int rt_quiet_lock(pthread_mutex_t* m) { return lockImpl(m, false, -1, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockImpl(m, true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return lockImpl(m, false, tsns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return lockImpl(m, false, tsns(t)); }
static void unlockRaw(pthread_mutex_t* m) { sym_hb_release(m); Mx* x = (Mx*)m; if (x->owner != curT + 1) sym_fail("mutex unlocked by a thread that does not own it"); if (--x->count == 0) { x->owner = 0; wakeAll(m); } }
int pthread_mutex_unlock(pthread_mutex_t* m) { ensure(); unlockRaw(m); return 0; }
int pthread_mutex_consistent(pthread_mutex_t*) { return 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { for (int i = 0; i < nT; ++i) if (T[i].st == BLOCK && T[i].key == c) sym_fail("condition variable destroyed with waiters"); return 0; }
int pthread_condattr_init(pthread_condattr_t*) { return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int pthread_condattr_setclock(pthread_condattr_t*, clockid_t) { return 0; }
int pthread_condattr_setpshared(pthread_condattr_t*, int) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t until)
{
    ensure();
    preempt(false);
    Mx* x = (Mx*)m;
    if (x->owner != curT + 1) sym_fail("condition wait without owning the mutex");
    unsigned cnt = x->count; sym_hb_release(m); x->owner = 0; x->count = 0; wakeAll(m);
    bool to = false;
    if (until >= 0 && until <= now_ && nT == 1) to = true;
    else if (spur > 0 && sym_choice("spurious", 2)) { --spur; preempt(true); }
    else to = blockOn(c, until);
    while (x->owner) blockOn(m, -1);
    x->owner = curT + 1; x->count = cnt; sym_hb_acquire(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return condWait(c, m, tsns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return condWait(c, m, tsns(t)); }
int pthread_cond_signal(pthread_cond_t* c) { ensure(); preempt(false); wakeOne(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { ensure(); preempt(false); wakeAll(c); return 0; }

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { *t = (pthread_t)(spawn(f, a) + 1000); return 0; }
int pthread_join(pthread_t t, void** r) { return joinT((int)t - 1000, r); }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return (pthread_t)(curT + 1000); }
int sched_yield() { ensure(); preempt(true); return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }

int pthread_rwlock_wrlock(pthread_rwlock_t* l) { ensure(); preempt(false); int* x = (int*)l; while (*x) blockOn(l, -1); *x = -1; sym_hb_acquire(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { ensure(); preempt(false); int* x = (int*)l; while (*x < 0) blockOn(l, -1); ++*x; sym_hb_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { ensure(); sym_hb_release(l); int* x = (int*)l; if (*x < 0) *x = 0; else --*x; wakeAll(l); return 0; }

int pthread_once(pthread_once_t* o, void (*f)()) { ensure(); int* x = (int*)o; while (*x == 1) blockOn(o, -1); if (*x == 2) { sym_hb_acquire(o); return 0; } *x = 1; f(); *x = 2; sym_hb_release(o); wakeAll(o); return 0; }

int __cxa_guard_acquire(uint64_t* g) { ensure(); uint8_t* b = (uint8_t*)g; if (b[0]) { sym_hb_acquire(g); return 0; } while (b[1] == 1) { blockOn(g, -1); if (b[0]) { sym_hb_acquire(g); return 0; } } b[1] = 1; return 1; }
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0; sym_hb_release(g); if (nT > 1) wakeAll(g); }
void __cxa_guard_abort(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; if (nT > 1) wakeAll(g); }

int clock_gettime(clockid_t, timespec* t) { now_ += step_; setts(t, now_); return 0; }
int gettimeofday(timeval* t, void*) { now_ += step_; t->tv_sec = now_ / 1000000000; t->tv_usec = now_ % 1000000000 / 1000; return 0; }
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept
{
    int64_t s = *t, d = s / 86400, z = d + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    memset(r, 0, sizeof *r); s %= 86400; r->tm_sec = s % 60; r->tm_min = s / 60 % 60; r->tm_hour = s / 3600; r->tm_wday = (d + 4) % 7;
    r->tm_mday = doy - (153 * mp + 2) / 5 + 1; r->tm_mon = mp < 10 ? mp + 2 : mp - 10; r->tm_year = yoe + era * 400 + (r->tm_mon <= 1) - 1900; return r;
}
time_t time(time_t* t) { now_ += step_; time_t v = now_ / 1000000000; if (t) *t = v; return v; }
int nanosleep(const timespec* t, timespec*) { sleepNs(tsns(t)); return 0; }
int clock_nanosleep(clockid_t, int fl, const timespec* t, timespec*) { int64_t n = tsns(t); sleepNs(fl ? n - now_ : n); return 0; }
int usleep(useconds_t u) { sleepNs((int64_t)u * 1000); return 0; }
unsigned sleep(unsigned s) { sleepNs((int64_t)s * 1000000000); return 0; }

int sem_init(sem_t* s, int, unsigned v) { *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { ensure(); preempt(false); sym_hb_release(s); ++*(int*)s; wakeAll(s); return 0; }
int sem_wait(sem_t* s) { ensure(); preempt(false); while (*(int*)s <= 0) blockOn(s, -1); --*(int*)s; sym_hb_acquire(s); return 0; }
int sem_trywait(sem_t* s) { ensure(); preempt(false); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; sym_hb_acquire(s); return 0; }
int sem_timedwait(sem_t* s, const timespec* t) { ensure(); preempt(false); while (*(int*)s <= 0) if (blockOn(s, tsns(t))) { errno = ETIMEDOUT; return -1; } --*(int*)s; sym_hb_acquire(s); return 0; }
int sem_clockwait(sem_t* s, clockid_t, const timespec* t) { return sem_timedwait(s, t); }
int sem_getvalue(sem_t* s, int* v) { *v = *(int*)s; return 0; }
}

// ------------------------------------------------------------------ C++ library entry points that live in libstdc++.so
extern "C" {
int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { now_ += step_; return now_; }
int64_t _ZNSt6chrono3_V212system_clock3nowEv() { now_ += step_; return now_; }
void _ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void _ZNSt18condition_variableC2Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void _ZNSt18condition_variableD1Ev(void* c) { pthread_cond_destroy((pthread_cond_t*)c); }
void _ZNSt18condition_variableD2Ev(void* c) { pthread_cond_destroy((pthread_cond_t*)c); }
void _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* l) { condWait((pthread_cond_t*)c, *(pthread_mutex_t**)l, -1); }
void _ZNSt18condition_variable10notify_oneEv(void* c) { pthread_cond_signal((pthread_cond_t*)c); }
void _ZNSt18condition_variable10notify_allEv(void* c) { pthread_cond_broadcast((pthread_cond_t*)c); }
// struct _State { virtual ~_State(); virtual void _M_run() = 0; }
struct StateVt { void (*d1)(void*); void (*d0)(void*); void (*run)(void*); };
struct State { StateVt* vt; };
static void* runState(void* a) { State* s = (State*)a; s->vt->run(s); s->vt->d0(s); return nullptr; }
void _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t* self, State** up, void (*)())
{
    State* s = *up; *up = nullptr;
    *self = (uint64_t)(spawn(runState, s) + 1000);
}
void _ZNSt6thread4joinEv(uint64_t* self) { if (!*self) sym_fail("join of a non-joinable thread"); joinT((int)*self - 1000, nullptr); *self = 0; }
void _ZNSt6thread6detachEv(uint64_t* self) { *self = 0; }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return 2; }
void _ZNSt6thread6_StateD2Ev(void*) {}
void _ZNSt6thread6_StateD1Ev(void*) {}
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
void _ZNSt13random_device7_M_finiEv(void*) {}
unsigned _ZNSt13random_device9_M_getvalEv(void*) { static unsigned n = 12345; return rnd ? rnd() : (n = n * 1103515245 + 12345); }
}
// ------------------------------------------------------------------ POSIX shared memory, as objects in this address space
namespace {
struct Obj { char name[128]; bool linked; void* mem; size_t size, cap; int maps; };
const int MAXO = 24; Obj O[MAXO]; int nO = 0;
struct Fd { int obj; bool open; }; const int MAXF = 64; Fd F[MAXF]; int nF = 0;
const int FDBASE = 5000;
bool openFd(int o) { for (int i = 0; i < nF; ++i) if (F[i].open && F[i].obj == o) return true; return false; }
int findO(const char* n) { if (*n == '/') ++n; for (int i = 0; i < nO; ++i) if (O[i].linked && !strcmp(O[i].name, n)) return i; return -1; }
}
bool rt_shm_exists(const char* n) { return findO(n) >= 0; }
static size_t shmLimit = ~(size_t)0;
void rt_shm_limit(size_t n) { shmLimit = n; }
int rt_shm_count(const char* p) { int c = 0; size_t l = strlen(p); for (int i = 0; i < nO; ++i) if (O[i].linked && !strncmp(O[i].name, p, l)) ++c; return c; }
extern "C" {
int shm_open(const char* name, int fl, mode_t)
{
    int i = findO(name);
    if (i >= 0 && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (i < 0) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        i = 0; while (i < nO && (O[i].linked || O[i].maps || openFd(i))) ++i;     // reuse the place of one that is gone
        if (i >= MAXO) sym_incomplete("too many shared memory objects");
        if (i == nO) ++nO; else if (O[i].mem) free(O[i].mem);
        const char* n = *name == '/' ? name + 1 : name;
        if (strlen(n) > 120) { errno = ENAMETOOLONG; return -1; }
        strcpy(O[i].name, n); O[i].linked = true; O[i].mem = nullptr; O[i].size = 0; O[i].maps = 0;
    } else if (fl & O_TRUNC) O[i].size = 0;
    int f = 0; while (f < nF && F[f].open) ++f;
    if (f >= MAXF) sym_incomplete("too many descriptors");
    if (f == nF) ++nF;
    F[f].obj = i; F[f].open = true;
    return FDBASE + f;
}
static void gone(Obj& o) { if (!o.linked && !o.maps && o.mem) { free(o.mem); o.mem = nullptr; } }   // nobody can reach its memory any more
int shm_unlink(const char* name) { int i = findO(name); if (i < 0) { errno = ENOENT; return -1; } O[i].linked = false; gone(O[i]); return 0; }
static Obj* fdObj(int fd) { int k = fd - FDBASE; if (k < 0 || k >= nF || !F[k].open) return nullptr; return &O[F[k].obj]; }
int ftruncate(int fd, off_t n)
{
    Obj* o = fdObj(fd); if (!o) { errno = EBADF; return -1; }
    if (n < 0) { errno = EINVAL; return -1; }
    if ((size_t)n > shmLimit) { errno = ENOSPC; return -1; }
    if (o->mem && (size_t)n > o->cap) sym_incomplete("growth of a mapped shared memory object");
    if (!o->mem && n) { o->cap = ((size_t)n + 4095) & ~(size_t)4095; void* p = nullptr; if (posix_memalign(&p, 4096, o->cap)) { errno = ENOMEM; return -1; } memset(p, 0, o->cap); o->mem = p; }
    o->size = n; return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t a, off_t n) { Obj* o = fdObj(fd); if (!o) return EBADF; if ((size_t)(a + n) > o->size) return ftruncate(fd, a + n) ? errno : 0; return 0; }
int fstat(int fd, struct stat* st) { Obj* o = fdObj(fd); if (!o) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_size = o->size; st->st_mode = S_IFREG | 0660; return 0; }
int fstat64(int fd, struct stat64* st) { Obj* o = fdObj(fd); if (!o) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_size = o->size; st->st_mode = S_IFREG | 0660; return 0; }
int close(int fd) { Obj* o = fdObj(fd); if (!o) { if (rt_close) return rt_close(fd); errno = EBADF; return -1; } F[fd - FDBASE].open = false; return 0; }
int fchmod(int fd, mode_t) { return fdObj(fd) ? 0 : -1; }
void* mmap(void*, size_t n, int, int fl, int fd, off_t off) noexcept
{
    if (fl & MAP_ANONYMOUS) { void* p = nullptr; if (posix_memalign(&p, 4096, (n + 4095) & ~(size_t)4095)) { errno = ENOMEM; return MAP_FAILED; } memset(p, 0, n); return p; }
    Obj* o = fdObj(fd); if (!o || !o->mem) { errno = EINVAL; return MAP_FAILED; }
    if ((size_t)off + n > o->cap) { errno = EINVAL; return MAP_FAILED; }
    ++o->maps;
    return (char*)o->mem + off;
}
void* mmap64(void* a, size_t n, int p, int fl, int fd, off_t off) noexcept { return mmap(a, n, p, fl, fd, off); }
int munmap(void* p, size_t) noexcept { for (int i = 0; i < nO; ++i) if (O[i].mem && (char*)p >= (char*)O[i].mem && (char*)p < (char*)O[i].mem + O[i].cap) { --O[i].maps; gone(O[i]); break; } return 0; }
int msync(void*, size_t, int) { return 0; }
static bool mlockFails = false;
int mlock(const void*, size_t) noexcept { if (mlockFails) { errno = ENOMEM; return -1; } return 0; }
int madvise(void*, size_t, int) noexcept { return 0; }
int shmdt(const void*) noexcept { return 0; }
}
void rt_mlock_fails(bool f) { mlockFails = f; }
// ------------------------------------------------------------------ named semaphores, signals
namespace { struct NSem { char name[64]; bool linked; sem_t s; }; const int MAXN = 16; NSem NS[MAXN]; int nNS = 0;
int findN(const char* n) { if (*n == '/') ++n; for (int i = 0; i < nNS; ++i) if (NS[i].linked && !strcmp(NS[i].name, n)) return i; return -1; }
sighandler_t handlers[64]; }
bool rt_sem_exists(const char* n) { return findN(n) >= 0; }
void rt_raise(int sig) { if (sig > 0 && sig < 64 && handlers[sig]) handlers[sig](sig); }
extern "C" {
sem_t* sem_open(const char* name, int fl, ...) noexcept
{
    ensure(); preempt(false);
    int i = findN(name);
    if (i >= 0) { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return SEM_FAILED; } return &NS[i].s; }
    if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    const char* n = *name == '/' ? name + 1 : name;
    if (nNS >= MAXN || strlen(n) > 60) sym_incomplete("too many named semaphores");
    i = nNS++; strcpy(NS[i].name, n); NS[i].linked = true; *(int*)&NS[i].s = 1;   // only mutexes are created by name
    return &NS[i].s;
}
int sem_close(sem_t*) noexcept { return 0; }
int sem_unlink(const char* name) noexcept { int i = findN(name); if (i < 0) { errno = ENOENT; return -1; } NS[i].linked = false; return 0; }
sighandler_t signal(int sig, sighandler_t h) noexcept { if (sig <= 0 || sig >= 64) { errno = EINVAL; return SIG_ERR; } auto o = handlers[sig]; handlers[sig] = h; return o; }
}
