//@ property P22
//@ bounds 22 requested rates from 0.0011 Hz to 1e12 Hz, 0 and -1; symbolic histories: a slow phase of 0..3 checks with iteration times of 0..3.5 requested periods, then iterations of constant duration 0..7/8 period until the limiter settled (30 checks), measured over 12 checks
//@ variant rate -DWHAT=0 +quick=60 +thorough=600
//@ variant history -DWHAT=1 +quick=60 +thorough=600
//@ require slept@rate,history settled@history fast@rate
#include <fairmq/tools/RateLimit.h>
#include <rt/rt.h>
using fair::mq::tools::RateLimiter;
extern "C" void harness()
{
    rt_clock_step(0); sym_mode("path-insts", 400000000);
#if WHAT == 0
    // any rate can be requested: construction and a burst of instantaneous iterations never fail; the burst does not run unlimited
    static const float R[] = {0.0011f, 0.01f, 0.1f, 0.5f, 0.75f, 0.99f, 1.f, 1.5f, 2.f, 7.f, 100.f, 199.f, 200.f, 201.f, 1000.f, 44100.f, 1e6f, 1e9f, 2e9f, 1e12f, 0.f, -1.f};
    float rate = R[sym_choice("rate", sizeof(R) / sizeof(R[0]))];
    RateLimiter rl(rate);
    int64_t t0 = rt_now(); int n = 0;
    double r = rate <= 0 || rate > 1e9 ? 1e9 : rate;
    for (; n < 20000; ++n) { rl.maybe_sleep(); if (n > 40 && rt_now() - t0 > 0 && r < 1e5 && n > r / 10) break; }
    if (r < 1e5) {
        double el = (double)(rt_now() - t0) / 1e9;
        CHECK(el > 0, "instantaneous iterations are limited");
        REACH("slept");
    } else REACH("fast");
#else
#ifdef THOROUGH
    static const float R[] = {0.01f, 0.5f, 0.99f, 1.f, 3.f, 100.f, 200.f, 250.f, 1000.f, 5000.f};
#else
    static const float R[] = {0.01f, 0.5f, 3.f};
#endif
    float rate = R[sym_choice("rate", sizeof(R) / sizeof(R[0]))];
    RateLimiter rl(rate);
    int64_t period = (int64_t)(1e9 / (double)rate);
    int skip0 = rate <= 200 ? 1 : (int)(rate / 200);
    int slow = (int)sym_choice("slow checks", 4);
    int64_t k1 = sym_int("slow work", 3), k2 = sym_int("work", 3);
    for (int i = 0; i < slow * skip0; ++i) { rt_advance(k1 * (period / 2)); rl.maybe_sleep(); }
    int maxCalls = rate < 1 ? 1 : (int)rate; // the documented largest number of calls between two looks at the clock: one second
    int settle = 30 * skip0 + 5 * maxCalls;
    if (settle > 1500) settle = 1500;
    if (slow > 1 && rate > 500) return;
    for (int i = 0; i < settle; ++i) { rt_advance(k2 * (period / 8)); rl.maybe_sleep(); }
    int64_t a = rt_now(); int m = 12 * skip0 < 40 ? 40 : 12 * skip0;
    for (int i = 0; i < m; ++i) { rt_advance(k2 * (period / 8)); rl.maybe_sleep(); }
    int64_t el = rt_now() - a;
    CHECK(el > (int64_t)m * (period / 10) * 9, "after settling, the limiter does not let iterations run faster than requested");
    CHECK(el < (int64_t)m * (period / 10) * 11, "after settling, the limiter does not hold iterations back below the requested rate");
    REACH("settled"); REACH("slept");
#endif
}
