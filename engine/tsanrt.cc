// Own runtime for the -fsanitize=thread instrumentation of the allocator's objects: happens-before race detection over
// 8-byte granules with vector clocks, and a scheduling point at every access. Threads are serialised by the scheduler.
#include "sched.h"
#include "caselib.h"
#include <stdio.h>
#include <string.h>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <pthread.h>

extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
thread_local int sc_tid = -1, sc_in = 0;
u32 sc_vc[MAXT][MAXT];
u64 sc_accesses; bool sc_detect;
struct Gr { u32 wc[MAXT], rc[MAXT]; u8 wm[MAXT], rm[MAXT]; };
struct Pg { Gr g[512]; };
static std::unordered_map<uintptr_t, Pg *> &P() { static std::unordered_map<uintptr_t, Pg *> m; return m; }
static uintptr_t lastk; static Pg *lastp;
static std::vector<Pg *> freelist;
static Pg *page(uintptr_t k) {
    if (lastp && lastk == k) return lastp;
    Pg *&p = P()[k];
    if (!p) { if (!freelist.empty()) { p = freelist.back(); freelist.pop_back(); memset(p, 0, sizeof *p); } else p = (Pg *)__real_mmap(nullptr, sizeof(Pg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    lastk = k; lastp = p; return p;
}
void sc_forget(uintptr_t a, size_t n) {
    lastp = nullptr; uintptr_t lo = a >> 12, hi = (a + n + 4095) >> 12; auto &m = P();
    if (hi - lo > m.size()) { for (auto it = m.begin(); it != m.end();) if (it->first >= lo && it->first < hi) { freelist.push_back(it->second); it = m.erase(it); } else ++it; }
    else for (uintptr_t k = lo; k < hi; k++) { auto it = m.find(k); if (it != m.end()) { freelist.push_back(it->second); m.erase(it); } }
}
static void race(uintptr_t a, int t, bool w, int u, bool uw, void *pc) {
    sc_in = 0; sc_describe(a);
    fail("data race: %s by thread %d at pc %p with an earlier %s by thread %d, address %#lx (%s)", w ? "write" : "read", t, pc, uw ? "write" : "read", u, a, sc_describe(a));
}
static void cell(uintptr_t a, u8 m, bool w, int t, void *pc) {
    Gr &g = page(a >> 12)->g[(a & 4095) >> 3];
    const u32 *vc = sc_vc[t];
    for (int u = 0; u < MAXT; u++) {
        if (u == t) continue;
        if ((g.wm[u] & m) && g.wc[u] > vc[u]) race(a, t, w, u, true, pc);
        if (w && (g.rm[u] & m) && g.rc[u] > vc[u]) race(a, t, w, u, false, pc);
    }
    if (w) { if (g.wc[t] == vc[t]) g.wm[t] |= m; else { g.wc[t] = vc[t]; g.wm[t] = m; } }
    else { if (g.rc[t] == vc[t]) g.rm[t] |= m; else { g.rc[t] = vc[t]; g.rm[t] = m; } }
}
void sc_access(uintptr_t a, size_t n, bool w, void *pc) {
    if (!sc_detect || sc_tid < 0 || !n) return;
    sc_accesses++;
    int t = sc_tid; uintptr_t e = a + n;
    auto run = [&](uintptr_t x, uintptr_t e, size_t step) { while (x < e) {
        uintptr_t gb = x & ~7ul; u8 m = 0xff; if (x > gb) m &= (u8)(0xff << (x - gb)); if (gb + 8 > e) m &= (u8)(0xff >> (gb + 8 - e));
        cell(gb, m, w, t, pc); x = gb + step; } };
    if (n <= 2048) { run(a, e, 8); return; }
    // long ranges are sampled: both ends, and every 16th granule of the pages selected by their address
    run(a, a + 256, 8); run(e - 256, e, 8);
    for (uintptr_t pg = a >> 12; pg <= (e - 1) >> 12; pg++) {
        if (n > 65536 && mix(pg, 3) % 16) continue;
        uintptr_t lo = pg << 12 > a ? pg << 12 : (a + 127) & ~127ul, hi = (pg + 1) << 12 < e ? (pg + 1) << 12 : e; if (hi > lo + 8) run(lo, hi - 8, 128);
    }
}
static inline void acc(void *p, size_t n, bool w, void *pc) {
    if (!sc_in || sc_tid < 0) return;
    sc_access((uintptr_t)p, n, w, pc);
    sc_point_access();
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, PC); } void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); } void __tsan_read_write##n(void *p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
void *vp_memset(void *p, int c, size_t n) { acc(p, n, true, PC); return memset(p, c, n); }
void *vp_memcpy(void *p, const void *q, size_t n) { acc((void *)q, n, false, PC); acc(p, n, true, PC); return memcpy(p, q, n); }
void *vp_memcpy_chk(void *p, const void *q, size_t n, size_t) { acc((void *)q, n, false, PC); acc(p, n, true, PC); return memcpy(p, q, n); }
void *vp_memmove(void *p, const void *q, size_t n) { acc((void *)q, n, false, PC); acc(p, n, true, PC); return memmove(p, q, n); }
// ---- atomics: sequentially executed (one thread runs at a time), with acquire/release edges as requested
static std::unordered_map<uintptr_t, std::vector<u32>> &S() { static std::unordered_map<uintptr_t, std::vector<u32>> m; return m; }
static void acq(uintptr_t a) { if (sc_tid < 0) return; auto it = S().find(a); if (it != S().end()) for (int i = 0; i < MAXT; i++) if (it->second[i] > sc_vc[sc_tid][i]) sc_vc[sc_tid][i] = it->second[i]; }
static void rel(uintptr_t a, bool join) { if (sc_tid < 0) return; auto &v = S()[a]; if (v.empty()) v.assign(MAXT, 0); for (int i = 0; i < MAXT; i++) { u32 x = sc_vc[sc_tid][i]; v[i] = join ? (v[i] > x ? v[i] : x) : x; } sc_vc[sc_tid][sc_tid]++; }
static void drop(uintptr_t a) { auto it = S().find(a); if (it != S().end()) std::fill(it->second.begin(), it->second.end(), 0); } // a relaxed store ends a release sequence
void sc_acquire(const void *a) { acq((uintptr_t)a); }
void sc_release(const void *a) { rel((uintptr_t)a, true); }
static bool isacq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool isrel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void pre() { if (sc_in) sc_point_sync(); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int o) { pre(); T v = *a; if (isacq(o)) acq((uintptr_t)a); return v; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int o) { pre(); if (isrel(o)) rel((uintptr_t)a, false); else drop((uintptr_t)a); *a = v; pre(); } \
static void rmw##N(volatile T *a, int o) { pre(); if (isacq(o)) acq((uintptr_t)a); if (isrel(o)) rel((uintptr_t)a, true); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = v; return r; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = r + v; return r; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = r - v; return r; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = r & v; return r; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = r | v; return r; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int o) { rmw##N(a, o); T r = *a; *a = r ^ v; return r; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int fo) { pre(); T r = *a; if (r == *c) { if (isacq(o)) acq((uintptr_t)a); if (isrel(o)) rel((uintptr_t)a, true); *a = v; return 1; } if (isacq(fo)) acq((uintptr_t)a); *c = r; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, o, fo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int o, int fo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, o, fo); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { pre(); }
void __tsan_atomic_signal_fence(int) {}
}
