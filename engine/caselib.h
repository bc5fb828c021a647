// Generic property engine: a case draws its choices from a recorded stream, runs in a forked child, and is
// shrunk by reducing the recorded stream.
#pragma once
#include "vp.h"
#include <functional>
#include <string>
#include <vector>

enum { EXP_NONE = 0, EXP_FATAL = 1, EXP_ANYDEATH = 2 };
struct CaseShared {
    volatile int state, aborted, expect, terminal, nontrivial, inconclusive;
    char msg[900], fatal[300], sample[600];
    u64 cnt[48];
    u32 nch; u64 ch[1 << 16];
};
extern CaseShared *CS_;
// choices
struct Ch {
    std::vector<u64> in; bool replay = false; size_t i = 0; Rng r{0};
    u64 below(u64 n);                       // uniform in [0, n)
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(unsigned pct) { return below(100) >= 100 - pct; } // 0 (the shrunk value) means false
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); // property violated
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));            // append to the sample text
void giveup() __attribute__((noreturn));    // inconclusive: environment does not allow the case
static inline void nontrivial() { CS_->nontrivial = 1; }
static inline void expect_fatal() { CS_->expect = EXP_FATAL; CS_->terminal = 1; CS_->nontrivial = 1; }
static inline void expect_none() { CS_->expect = EXP_NONE; }
static inline void count(int k, u64 n = 1) { CS_->cnt[k] += n; }

extern const char *engine_name;
extern std::vector<const char *> count_names;
extern int case_timeout;                    // seconds of real time before a case counts as hung
extern bool thorough_;
extern std::string arg_mode;                // --mode value
void run_one(Ch &c);                        // the property: defined by the engine
