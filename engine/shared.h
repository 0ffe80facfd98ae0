#pragma once
#include "solver.h"
#include <atomic>
#include <cstring>
#include <sched.h>

// State shared by all exploring processes
template<int N, int L> struct Table {
    struct Ent { char key[L]; std::atomic<uint64_t> n; };
    std::atomic_flag lock;
    std::atomic<int> cnt;
    Ent e[N];
    // returns the index, or -1 when full; *fresh tells whether the key is new
    int hit(const char* k, bool* fresh = nullptr, uint64_t add = 1)
    {
        if (fresh) *fresh = false;
        char key[L]; strncpy(key, k, L - 1); key[L - 1] = 0;
        int c = cnt.load();
        for (int i = 0; i < c; ++i) if (!strcmp(e[i].key, key)) { e[i].n += add; return i; }
        for (int spin = 0; lock.test_and_set(); ++spin) { if (spin > 2000000) break; sched_yield(); }
        c = cnt.load();
        for (int i = 0; i < c; ++i) if (!strcmp(e[i].key, key)) { lock.clear(); e[i].n += add; return i; }
        if (c >= N) { lock.clear(); return -1; }
        strcpy(e[c].key, key); e[c].n = add; cnt = c + 1;
        lock.clear();
        if (fresh) *fresh = true;
        return c;
    }
};

struct Shared {
    std::atomic<uint64_t> paths, insts, forks, pathsEnded, pathsAssumeFail, deadlinePaths, maxDepth, checks, checksSym, samples, nthreadsMax, switches, allocs, minflt, cpuUser, cpuSys;
    SolverStats st;
    std::atomic<int> tokens;
    std::atomic<int> stop;
    std::atomic<int> violSeq;
    Table<256, 96> reach, check;
    Table<64, 192> incomplete;
    Table<512, 160> native;
    Table<64, 256> viol;
    std::atomic<uint8_t> cov[1 << 20];
};
