// C29 (and the concurrent parts of C28, C30, C37): generated multi-threaded programs under an owned, recorded schedule.
// Real threads, one running at a time; every lock, unlock, atomic, system call and instrumented memory access of the
// allocator is a scheduling point; locks are emulated (deadlocks are found, not waited for); races are found by
// vector clocks (tsanrt.cc).
#include "caselib.h"
#include "hist.h"
#include "sched.h"
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

const char *engine_name = "sched";
std::vector<const char *> count_names = {"threads", "operations", "preemptions", "lock_blocks", "accesses", "forks", "cross_thread_frees", "live_at_fork", "oom_returns", "first_use_races", "totals_compared", "points_sync", "child_ops", "pre_init_aborts"};
enum { N_TH, N_OPS, N_PRE, N_BLK, N_ACC, N_FORK, N_XFREE, N_LIVEF, N_OOM, N_INIT, N_TOT, N_PTS, N_COP, N_PIA };
#define WEAK __attribute__((weak))
extern "C" { // the Android build lacks some entry points and has others
WEAK int h_malloc_info(int, FILE *); WEAK void *h_pvalloc(size_t); WEAK size_t h_mallinfo_narenas(void); WEAK size_t h_mallinfo_nbins(void); WEAK struct mallinfo h_mallinfo_arena_info(size_t); WEAK struct mallinfo h_mallinfo_bin_info(size_t, size_t); WEAK void h_malloc_disable(void); WEAK void h_malloc_enable(void); int h_mallopt(int, int); }
extern "C" { struct mallinfo2 h_mallinfo2(void); int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_atfork(void (*)(), void (*)(), void (*)()); }

// ---------------------------------------------------------------- scheduler
enum { T_NONE, T_RUN, T_BLOCK, T_DONE };
struct Th { sem_t sem; int st; void *wait; pthread_t h; int next_pat; };
static Th th[MAXT]; static int nth, cur; static bool active; static bool is_child;
static long gap_sync, gap_acc; static int gs_scale, ga_scale; static u64 steps;
static Ch *C;
struct Lk { int owner; };
static std::unordered_map<void *, Lk> &LK() { static std::unordered_map<void *, Lk> m; return m; }
static void redraw() {
    // 0 (the shrunk value) means: not again
    u64 x = C->below(64); gap_sync = x == 0 || !gs_scale ? 1l << 40 : (long)(((x * x) >> 3) * gs_scale / 32 + 1);
    u64 y = ga_scale ? C->below(64) : 0; gap_acc = y == 0 ? 1l << 40 : (long)(((y * y) >> 2) * ga_scale + 1);
}
static void give(int t) { int self = cur; if (t == self) return; int sv = errno; cur = t; sem_post(&th[t].sem); while (sem_wait(&th[self].sem)) {} errno = sv; }
static int others(int *v) { int n = 0; for (int i = 1; i < nth; i++) if (i != cur && th[i].st == T_RUN) v[n++] = i; return n; }
static void preempt() { int v[MAXT], n = others(v); if (!n) { gap_sync = gap_sync <= 0 ? 1 : gap_sync; gap_acc = gap_acc <= 0 ? 1 : gap_acc; return; } count(N_PRE); int t = v[C->below(n)]; redraw(); give(t); }
static void die_deadlock(const char *what) {
    char m[400]; int l = 0; for (int i = 1; i < nth; i++) if (th[i].st == T_BLOCK) { auto it = LK().find(th[i].wait); l += snprintf(m + l, sizeof m - l, " thread %d waits for a lock held by %s;", i, it == LK().end() ? "nobody" : it->second.owner == i ? "itself" : th[it->second.owner].st == T_DONE ? "a finished or vanished thread" : "another blocked thread"); }
    fail("deadlock%s (%s):%s", is_child ? " in the forked child" : "", what, m);
}
static void block_on(void *m) {
    th[cur].st = T_BLOCK; th[cur].wait = m; count(N_BLK);
    int v[MAXT], n = others(v); if (!n) die_deadlock("no thread can run");
    int t = v[n > 1 ? C->below(n) : 0]; give(t);
}
void sc_point_sync() { if (!active || sc_tid != cur) return; if (++steps > 3000000) fail("no progress: more than 3000000 scheduling points"); count(N_PTS); if (--gap_sync <= 0) preempt(); }
void sc_point_access() { if (!active || sc_tid != cur) return; if (--gap_acc <= 0) preempt(); }
static void lk_lock(void *m) {
    sc_point_sync();
    for (;;) {
        Lk &l = LK().emplace(m, Lk{-1}).first->second;
        if (l.owner < 0) { l.owner = sc_tid; break; }
        if (l.owner == sc_tid) { th[cur].st = T_BLOCK; th[cur].wait = m; die_deadlock("a thread takes a lock it already holds"); }
        block_on(m);
    }
    sc_acquire(m);
}
static void lk_unlock(void *m) {
    auto it = LK().find(m);
    if (it == LK().end() || it->second.owner != sc_tid) fail("unlock of a lock that thread %d does not hold", sc_tid);
    sc_release(m); it->second.owner = -1;
    for (int i = 1; i < nth; i++) if (th[i].st == T_BLOCK && th[i].wait == m) { th[i].st = T_RUN; th[i].wait = nullptr; }
    sc_point_sync();
}
static void hook(int kind, void *arg) {
    if (kind == 0) { if (sc_in) lk_lock(arg); else __real_pthread_mutex_lock((pthread_mutex_t *)arg); return; }
    if (kind == 1) { if (sc_in) lk_unlock(arg); else __real_pthread_mutex_unlock((pthread_mutex_t *)arg); return; }
    if (sc_in) sc_point_sync();
}
static int atforks;
extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (sc_in) { LK()[m].owner = -1; sc_access((uintptr_t)m, 8, true, __builtin_return_address(0)); return 0; } return __real_pthread_mutex_init(m, a); }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!sc_in) return __real_pthread_mutex_trylock(m); sc_point_sync(); Lk &l = LK().emplace(m, Lk{-1}).first->second; if (l.owner >= 0) return EBUSY; l.owner = sc_tid; sc_acquire(m); return 0; }
extern "C" int __wrap_pthread_atfork(void (*a)(), void (*b)(), void (*c)()) { atforks++; return __real_pthread_atfork(a, b, c); }
static void map_hook(int kind, uintptr_t p, size_t n) {
    if (kind == 0) sc_forget(p, n);
    else if (sc_in) sc_access(p, n, true, nullptr); // contents replaced
}
static char dbuf[200];
const char *sc_describe(uintptr_t a) { int p = shim_prot(a); snprintf(dbuf, sizeof dbuf, p < 0 ? "static or stack memory" : "memory mapped by the allocator"); return dbuf; }

// ---------------------------------------------------------------- model
struct Blk { u8 *p; size_t n, us, al; u8 pat; bool filled; int by; bool light = false; size_t span() { return light ? std::min<size_t>(us, 64) : us; } }; // light: only the start is written
static std::map<uintptr_t, Blk *> &R() { static std::map<uintptr_t, Blk *> m; return m; } // live blocks
static std::vector<Blk *> pool; static std::vector<Blk *> own[MAXT];
static std::vector<size_t> palette; static std::vector<size_t> aligns;
static int opkinds[24]; static bool want_fork, want_oom, want_info;
static int poolsync;
struct In { In() { sc_in = 1; } ~In() { sc_in = 0; } };
#define CALL(x) ([&] { In in_; return (x); }())
static size_t step(size_t n) { return n <= 2048 ? 1 : n <= 40000 ? 61 : n <= 1000000 ? 1021 : 65537; }
template <class F> static void each(size_t n, F f) { size_t s = step(n); for (size_t i = 0; i < n; i += s) f(i); if (n) f(n - 1); }
static void fill(Blk *b) { each(b->span(), [&](size_t i) { b->p[i] = (u8)(b->pat + i * 7); }); sc_access((uintptr_t)b->p, b->span(), true, nullptr); b->filled = true; }
static void verify(Blk *b, size_t n, const char *w) { sc_access((uintptr_t)b->p, std::min(n, b->span()), false, nullptr); each(b->span(), [&](size_t i) { if (i < n && b->p[i] != (u8)(b->pat + i * 7)) fail("%s: byte %zu of a live block of %zu bytes changed (thread %d)", w, i, b->n, sc_tid); }); }
static void unreg(Blk *b) { R().erase((uintptr_t)b->p); }
static void overlap(uintptr_t lo, uintptr_t hi, const char *w, Blk *self) {
    auto it = R().upper_bound(lo); if (it != R().begin()) { auto p = std::prev(it); Blk *b = p->second; if (b != self && p->first + std::max<size_t>(b->us, 1) > lo) fail("%s: block %#lx overlaps a live block of %zu bytes made by thread %d", w, lo, b->n, b->by); }
    if (it != R().end() && it->second == self) ++it; if (it != R().end() && it->first < hi) fail("%s: block %#lx of thread %d overlaps a live block of %zu bytes made by thread %d", w, lo, sc_tid, it->second->n, it->second->by);
}
static bool zeroed(size_t n, size_t al) { return CFG.zero || !is_small_req(n, al); }
static Blk *reg(void *p, size_t n, size_t al, bool zero, size_t kept, const char *w, bool light = false) {
    Blk *b = new Blk{(u8 *)p, n, n, al, (u8)(sc_tid * 53 + (th[sc_tid].next_pat += 29)), false, sc_tid, light};
    if (n && ((uintptr_t)p & (al - 1))) fail("%s: misaligned block", w);
    overlap((uintptr_t)p, (uintptr_t)p + std::max<size_t>(n, 1), w, b); R()[(uintptr_t)p] = b;
    b->us = n; size_t us = CALL(h_malloc_usable_size(p));
    if (us < n) fail("%s: usable size %zu of a request for %zu", w, us, n);
    overlap((uintptr_t)p, (uintptr_t)p + std::max<size_t>(us, 1), w, b); b->us = us;
    if (zero) { sc_access((uintptr_t)p, us, false, nullptr); size_t lim = zeroed(n, al) ? us : n; each(us, [&](size_t i) { if (i >= kept && i < lim && b->p[i]) fail("%s: byte %zu of fresh memory of %zu bytes is not zero", w, i, n); }); }
    fill(b); return b;
}
static void note_oom(const char *w, size_t n) { if (!shim_fired && CFG.region > (64u << 20)) fail("%s(%zu) failed with errno %d without an injected failure", w, n, errno); count(N_OOM); }
static Blk *do_alloc(Ch &c, size_t n, int form, size_t al) {
    void *p = nullptr; const char *w; bool z = zeroed(n, 1); size_t a = 16;
    switch (form) {
    case 0: w = "malloc"; p = CALL(h_malloc(n)); break;
    case 1: w = "calloc"; p = CALL(h_calloc(1, n)); z = true; break;
    case 2: w = "realloc(NULL)"; p = CALL(h_realloc(nullptr, n)); break;
    case 3: w = "memalign"; a = al; p = CALL(h_memalign(al, n)); z = zeroed(n, al); break;
    default: w = "posix_memalign"; a = al; { int r = CALL(h_posix_memalign(&p, al < 8 ? 8 : al, n)); if (r) { p = nullptr; if (r != ENOMEM) fail("posix_memalign(%zu, %zu) returned %d", al, n, r); } } z = zeroed(n, al);
    }
    if (!p) { note_oom(w, n); return nullptr; }
    return reg(p, n, a, z, 0, w);
}
static void do_free(Blk *b, int form) {
    if (b->filled) verify(b, b->us, "before free"); unreg(b);
    if (b->by != sc_tid) count(N_XFREE);
    int e = errno = 11; In in_;
    if (form == 1 && b->al <= 16) h_free_sized(b->p, b->n); else if (form == 2) h_cfree(b->p); else h_free(b->p);
    if (form != 1 && errno != e) fail("free changed errno from %d to %d", e, errno);
    delete b;
}
static Blk *do_realloc(Blk *b, size_t n) {
    verify(b, b->us, "before realloc"); unreg(b); Blk o = *b;
    void *p = CALL(h_realloc(b->p, n));
    if (!p) { note_oom("realloc", n); R()[(uintptr_t)b->p] = b; verify(b, b->us, "after a failed realloc"); return b; }
    // the prefix must be that of the old block
    size_t keep = std::min(o.us, n); bool moved = p != o.p; delete b;
    Blk *nb = new Blk{(u8 *)p, n, n, 1, o.pat, false, sc_tid};
    overlap((uintptr_t)p, (uintptr_t)p + std::max<size_t>(n, 1), "realloc", nb); R()[(uintptr_t)p] = nb; nb->us = o.us;
    nb->light = o.light; verify(nb, keep, "after realloc"); nb->us = n; nb->light = n > (4u << 20);
    size_t us = CALL(h_malloc_usable_size(p)); if (us < n) fail("realloc: usable size %zu of a request for %zu", us, n);
    overlap((uintptr_t)p, (uintptr_t)p + std::max<size_t>(us, 1), "realloc", nb); nb->us = us; nb->by = sc_tid; nb->al = 16;
    nb->pat = (u8)(sc_tid * 53 + (th[sc_tid].next_pat += 29)); fill(nb); return nb;
}
static void put_pool(Blk *b) { sc_release(&poolsync); pool.push_back(b); }
static Blk *take_pool(Ch &c) { if (pool.empty()) return nullptr; size_t i = c.below(pool.size()); Blk *b = pool[i]; pool.erase(pool.begin() + i); sc_acquire(&poolsync); return b; }
static void child(u64 seed) {
    Rng r(seed); shim_fault.count = 0;
    std::vector<Blk *> v; for (auto &x : R()) if (x.second->filled) v.push_back(x.second);
    count(N_LIVEF, v.size());
    for (auto b : v) verify(b, b->us, "in the forked child");
    std::vector<Blk *> mine; Ch cc; cc.r = r;
    int n = 6 + r.below(20);
    for (int i = 0; i < n; i++) {
        count(N_COP);
        switch (r.below(9)) {
        case 0: case 1: case 2: case 3: { size_t sz = r.chance(20) ? r.below(300000) : palette[r.below(palette.size())]; void *p = CALL(h_malloc(sz)); if (!p) { if (CFG.region > (64u << 20) || errno != ENOMEM) fail("malloc(%zu) failed in the forked child with errno %d", sz, errno); break; } mine.push_back(reg(p, sz, 16, zeroed(sz, 1), 0, "malloc in the child")); break; }
        case 4: case 5: if (!v.empty()) { size_t k = r.below(v.size()); Blk *b = v[k]; v.erase(v.begin() + k); do_free(b, 0); } break;
        case 6: if (!v.empty()) { size_t k = r.below(v.size()); v[k] = do_realloc(v[k], palette[r.below(palette.size())]); } break;
        case 7: if (!mine.empty()) { size_t k = r.below(mine.size()); Blk *b = mine[k]; mine.erase(mine.begin() + k); do_free(b, 0); } break;
        default: if (r.chance(50)) CALL(h_malloc_trim(0)); else CALL((h_mallinfo2(), 0));
        }
    }
    for (auto b : v) do_free(b, 0);
    for (auto b : mine) do_free(b, 0);
    void *z = CALL(h_malloc(0)); CALL((h_free(z), 0)); CALL(h_malloc_trim(0)); CALL((h_mallinfo2(), 0));
    _exit(0);
}
// runs before the allocator's own handler: only the forking thread exists from here on
static void in_child() { if (!active) return; is_child = true; sc_detect = false;
    for (auto &l : LK()) if (l.second.owner > 0 && l.second.owner != cur) fail("fork happened while thread %d was changing the heap (it holds a lock of the allocator): the child inherits a half-made change", l.second.owner);
    for (int i = 1; i < nth; i++) if (i != cur) th[i].st = T_DONE; }
static void do_fork(Ch &c) {
    u64 seed = c.below(1ull << 30); int other = 0; for (int i = 1; i < nth; i++) if (i != cur && th[i].st == T_RUN) other++;
    count(N_FORK);
    sc_in = 1; pid_t pid = fork();
    if (pid == 0) { sc_in = 0; child(seed); }
    sc_in = 0;
    if (pid < 0) giveup();
    int st; while (waitpid(pid, &st, 0) < 0) {}
    if (CS_->state == 2) _exit(2);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) fail("abort in the forked child: %s", CS_->fatal);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("the forked child ended with status %#x", st);
    if (other) nontrivial();
}
static bool android() { return h_mallinfo_arena_info; }
// one of the statistics calls; its answer while others run is only checked for plausibility
static void some_stats(Ch &c) {
    int k = android() ? c.below(4) : 0;
    if (k < 2) { auto m = CALL(h_mallinfo2()); if (CFG.stats && m.uordblks > (1ull << 40)) fail("mallinfo2 underflow: %zu", m.uordblks); }
    else if (k == 2) { size_t a = c.below(CFG.narena + 2); auto m = CALL(h_mallinfo_arena_info(a)); if (a > (size_t)CFG.narena && (m.hblkhd || m.fsmblks || m.uordblks)) fail("mallinfo_arena_info of no arena"); }
    else { size_t b = c.below(nclasses() + 1); auto m = CALL(h_mallinfo_bin_info(c.below(CFG.narena), b)); if (b == (size_t)nclasses() && (m.ordblks || m.uordblks || m.fordblks)) fail("mallinfo_bin_info of no bin"); }
}
// between malloc_disable and malloc_enable no thread holds a lock of the allocator
static bool was_init; // otherwise the lock of the initialisation may still be held
static void held_by_others(const char *w) { if (was_init) for (auto &l : LK()) if (l.second.owner >= 0 && l.second.owner != sc_tid) fail("%s: thread %d holds a lock of the allocator while thread %d has it disabled", w, l.second.owner, sc_tid); }
static void disable_enable(Ch &c) {
    CALL((h_malloc_disable(), 0)); held_by_others("after malloc_disable");
    for (int i = c.below(4); i > 0; i--) preempt();
    held_by_others("before malloc_enable"); CALL((h_malloc_enable(), 0));
}
static void first_op(Ch &c) { // C37: an arbitrary first call
    static int dummy; u8 *q;
    switch (c.below(14)) {
    case 0: q = (u8 *)CALL(h_malloc(c.below(200000))); if (!q) fail("first malloc failed"); own[sc_tid].push_back(reg(q, 0, 4096, false, 0, "first malloc")); break;
    case 1: CALL((h_free(nullptr), 0)); break;
    case 2: if (CALL(h_malloc_usable_size(nullptr))) fail("malloc_usable_size(NULL)"); break;
    case 3: if (CALL(h_malloc_object_size(&dummy)) != SIZE_MAX) fail("malloc_object_size of a foreign pointer on first use is not SIZE_MAX"); break;
    case 4: if (CALL(h_malloc_object_size_fast(&dummy)) != SIZE_MAX) fail("malloc_object_size_fast of a foreign pointer on first use is not SIZE_MAX"); break;
    case 5: { int r = CALL(h_malloc_trim(0)); if (r && nth == 2) fail("first malloc_trim returned %d", r); break; }
    case 6: { auto m = CALL(h_mallinfo2()); if (!CFG.stats && (m.uordblks || m.hblkhd)) fail("mallinfo2 on first use"); break; }
    case 7: q = (u8 *)CALL(h_calloc(3, c.below(70000))); if (!q) fail("first calloc failed"); own[sc_tid].push_back(reg(q, 0, 4096, true, 0, "first calloc")); break;
    case 8: q = (u8 *)CALL(h_realloc(nullptr, c.below(70000))); if (!q) fail("first realloc failed"); own[sc_tid].push_back(reg(q, 0, 4096, false, 0, "first realloc")); break;
    case 9: { size_t a = 1ull << c.below(15); q = (u8 *)CALL(h_memalign(a, c.below(70000))); if (!q) fail("first memalign failed"); own[sc_tid].push_back(reg(q, 0, 4096, false, 0, "first memalign")); break; }
    case 10: q = (u8 *)CALL(android() ? h_memalign(4096, 1 + c.below(70000)) : h_pvalloc(1 + c.below(70000))); if (!q) fail("first pvalloc failed"); own[sc_tid].push_back(reg(q, 0, 4096, false, 0, "first pvalloc")); break;
    case 11: { void *p = nullptr; if (CALL(h_posix_memalign(&p, 7, 10)) != EINVAL) fail("first posix_memalign with a bad alignment"); break; }
    case 12: errno = 0; if (CALL(h_malloc(SIZE_MAX - 5)) || errno != ENOMEM) fail("first impossible malloc"); break;
    default: if (android()) { int k = c.below(4); if (k == 0) disable_enable(c); else if (k == 1) { if (CALL(h_mallopt(-101, 0)) != 1) fail("first mallopt(M_PURGE)"); } else if (k == 2) { auto m = CALL(h_mallinfo_arena_info(c.below(CFG.narena + 2))); if (nth == 2 && (m.hblkhd || m.fsmblks)) fail("first mallinfo_arena_info"); } else { if (CALL(h_mallinfo_narenas()) != (size_t)CFG.narena + 1 || CALL(h_mallinfo_nbins()) != (size_t)nclasses()) fail("narenas or nbins on first use"); } } else if (want_info) { char *buf = nullptr; size_t bl = 0; FILE *f = open_memstream(&buf, &bl); int r = CALL(h_malloc_info(0, f)); fclose(f); if (r || !strstr(buf, "</malloc>")) fail("first malloc_info"); free(buf); } else CALL((h_free_sized(nullptr, 3), 0));
    }
}
static int mode; // 0 races, 1 fork, 2 first use, 3 totals
static void thread_ops(Ch &c) {
    int t = sc_tid, n = c.range(mode == 2 ? 1 : 3, mode == 2 ? 6 : thorough_ ? 24 : 14);
    if (mode == 2) first_op(c);
    for (int i = 0; i < n; i++) {
        sc_point_sync(); count(N_OPS);
        auto &o = own[t];
        switch (opkinds[c.below(24)]) {
        case 0: { size_t sz = palette[c.below(palette.size())]; int f = c.below(5); size_t al = aligns[c.below(aligns.size())]; Blk *b = do_alloc(c, sz, f, al); if (b) o.push_back(b); break; }
        case 1: { size_t sz = palette[c.below(palette.size())]; Blk *b = do_alloc(c, sz, 0, 16); if (b) o.push_back(b); break; }
        case 2: if (!o.empty()) { size_t k = c.below(o.size()); Blk *b = o[k]; o.erase(o.begin() + k); do_free(b, c.below(3)); } break;
        case 3: if (Blk *b = take_pool(c)) do_free(b, c.below(3)); break;
        case 4: if (!o.empty()) { size_t k = c.below(o.size()); Blk *b = o[k]; o.erase(o.begin() + k); put_pool(b); } break;
        case 5: if (!o.empty()) { size_t k = c.below(o.size()); Blk *b = o[k]; o.erase(o.begin() + k); b = do_realloc(b, palette[c.below(palette.size())]); o.push_back(b); } break;
        case 6: if (Blk *b = take_pool(c)) { b = do_realloc(b, palette[c.below(palette.size())]); o.push_back(b); } break;
        case 7: if (!o.empty()) { Blk *b = o[c.below(o.size())]; size_t us = CALL(h_malloc_usable_size(b->p)); if (us != b->us) fail("malloc_usable_size changed from %zu to %zu", b->us, us);
                size_t os = CALL(h_malloc_object_size(b->p)); if (os < b->n) fail("malloc_object_size %zu of a block of %zu", os, b->n); verify(b, b->us, "live"); } break;
        case 8: if (android() && c.chance(50)) { if (CALL(h_mallopt(-101, 0)) != 1) fail("mallopt(M_PURGE) failed"); } else CALL(h_malloc_trim(0)); break;
        case 9: some_stats(c); if (android() && c.chance(30)) disable_enable(c); break;
        case 10: if (want_oom) { shim_fault = {(long)c.below(6), (long)c.range(1, 3), ENOMEM, K_ALL, 0}; } break;
        case 11: if (want_fork) do_fork(c); break;
        case 12: if (want_info) { char *buf = nullptr; size_t bl = 0; FILE *f = open_memstream(&buf, &bl); int r = CALL(h_malloc_info(0, f)); fclose(f); if (r) fail("malloc_info returned %d", r); free(buf); } break;
        case 13: { size_t sz = palette[c.below(palette.size())]; int k = c.range(2, 12); std::vector<Blk *> v; for (int j = 0; j < k; j++) { Blk *b = do_alloc(c, sz, 0, 16); if (b) v.push_back(b); } for (auto b : v) if (c.chance(70)) do_free(b, 0); else o.push_back(b); break; }
        }
    }
}
static void *thread_main(void *x) {
    sc_tid = (int)(long)x; while (sem_wait(&th[sc_tid].sem)) {}
    thread_ops(*C);
    sc_release(&th[0]); th[sc_tid].st = T_DONE;
    int v[MAXT], n = others(v);
    if (n) { int t = v[n > 1 ? C->below(n) : 0]; cur = t; sem_post(&th[t].sem); }
    else { for (int i = 1; i < nth; i++) if (th[i].st == T_BLOCK) die_deadlock("no thread can run"); cur = 0; sem_post(&th[0].sem); }
    return nullptr;
}
void run_one(Ch &c) {
    if (arg_mode == "fork") __real_pthread_atfork(nullptr, nullptr, in_child);
    C = &c; mode = arg_mode == "fork" ? 1 : arg_mode == "init" ? 2 : arg_mode == "totals" ? 3 : 0;
    shim_seed(c.below(1ull << 40)); shim_sched_hook = hook; shim_map_hook = map_hook; case_timeout = 60;
    sc_tid = 0; for (int i = 0; i < MAXT; i++) sc_vc[i][i] = 1;
    th[0].st = T_RUN;
    int nt = c.range(mode == 2 ? 1 : 2, 4); nth = nt + 1; cur = 0; count(N_TH, nt);
    bool preinit = mode == 1 || arg_mode == "large" || (mode != 2 && !c.chance(20));
    // sizes: few classes so that threads meet
    u64 mx = maxsmall(); int np = c.range(1, 4);
    for (int i = 0; i < np; i++) {
        size_t s; switch (c.below(9)) { case 0: s = 0; break; case 1: s = c.below(64); break; case 2: s = 16 * c.below(64); break; case 3: s = mx - c.below(9000); break; case 4: s = mx / 2 + c.below(100); break; case 5: s = mx + c.below(300000); break; case 6: s = 8192 + c.below(9000); break; case 7: s = c.below(mx); break; default: s = c.chance(25) ? (32ul << 20) + c.below(9ul << 20) : mx + c.below(70000); }
        palette.push_back(s);
    }
    bool pressure = preinit && (arg_mode == "large" || (mode != 2 && c.chance(12)));
    if (pressure) { palette.clear(); np = c.range(1, 3); for (int i = 0; i < np; i++) palette.push_back(c.chance(70) ? mx + 1 + 4096 * c.below(40) : c.chance(60) ? (32ul << 20) + c.below(9ul << 20) : c.below(mx)); if (palette[0] <= mx || palette[0] > (1u << 20)) palette[0] = mx + 1; }
    aligns = {16, 64, 4096, 8192, 65536};
    static const int W[24] = {0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13};
    for (int i = 0; i < 24; i++) opkinds[i] = W[i];
    want_fork = mode == 1; want_oom = c.chance(15); want_info = h_malloc_info && (CFG.stats || c.chance(20));
    if (mode == 1) { opkinds[20] = opkinds[21] = opkinds[22] = opkinds[17] = 11; }
    static const int GS[] = {32, 8, 2, 1, 100, 0, 400}; gs_scale = GS[c.below(7)]; static const int GA[] = {0, 0, 1, 8, 64, 500}; ga_scale = GA[c.below(6)];
    if (!preinit) want_oom = false; // running out of memory while initialising is fatal
    sc_detect = mode != 1;
    if (mode == 2 && c.chance(10)) { // single pre-initialisation misuse
        static u8 dummy[8192]; void *p = c.chance(50) ? (void *)(dummy + c.below(8000)) : (void *)(uintptr_t)c.range(1, 1ull << 46);
        int k = c.below(4); note("pre-init misuse %d of %p", k, p); count(N_PIA); expect_fatal(); sc_in = 1; // errors before any lock exists
        switch (k) { case 0: h_free(p); break; case 1: h_realloc(p, c.below(70000)); break; case 2: h_malloc_usable_size(p); break; default: h_free_sized(p, c.below(70000)); }
        sc_in = 0; expect_none(); fail("use of %p before initialisation was not fatal (call %d)", p, k);
    }
    was_init = preinit; if (preinit) { void *p = CALL(h_malloc(16)); CALL((h_free(p), 0)); }
    struct mallinfo2 base; memset(&base, 0, sizeof base); if (CFG.stats && preinit) base = CALL(h_mallinfo2());
    u64 res0 = shim_reservations();
    if (pressure) { // a region table close to growing, or full
        int n = c.chance(60) ? 88 + c.below(10) : 60 + c.below(34); size_t sz = palette[0]; for (int i = 0; i < n; i++) { void *p = CALL(h_malloc(sz + 4096 * (i % 5))); if (!p) { note_oom("malloc", sz); break; } Blk *b = reg(p, sz + 4096 * (i % 5), 16, false, 0, "malloc", true); if (i % 3) pool.push_back(b); }
    }
    note("%d threads, palette", nt); for (auto s : palette) note(" %zu", s); note(", gaps %d/%d%s%s", gs_scale, ga_scale, preinit ? "" : ", first use in the threads", want_oom ? ", failures" : "");
    for (int i = 1; i < nth; i++) { for (int k = 0; k < MAXT; k++) sc_vc[i][k] = sc_vc[0][k]; sc_vc[i][i] = 1; sem_init(&th[i].sem, 0, 0); th[i].st = T_RUN; }
    sem_init(&th[0].sem, 0, 0); sc_vc[0][0]++;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10);
    for (int i = 1; i < nth; i++) if (pthread_create(&th[i].h, &at, thread_main, (void *)(long)i)) giveup();
    redraw(); active = true;
    int f = 1 + c.below(nt); cur = f; sem_post(&th[f].sem);
    while (sem_wait(&th[0].sem)) {}
    active = false; sc_tid = 0; cur = 0; sc_acquire(&th[0]);
    for (auto &l : LK()) if (l.second.owner >= 0) fail("a lock is still held when no allocator call is running");
    shim_fault.count = 0;
    count(N_ACC, sc_accesses);
    for (auto b : pool) sc_acquire(&poolsync);
    std::vector<Blk *> all; for (auto &x : R()) all.push_back(x.second);
    size_t live = 0; for (auto b : all) verify(b, b->us, "at the end");
    if (CFG.stats) {
        struct mallinfo2 m = CALL(h_mallinfo2()); count(N_TOT);
        for (auto b : all) { bool large = !is_small_req(b->n, b->al) || b->us + canary() > maxsmall(); u64 sz = b->us; 
            // a small block's size class is its usable size plus the canary; a block from an over-page alignment has no canary
            bool small = b->us == 0 || (!large && b->al <= 4096 && shim_id((uintptr_t)b->p) && cls_for(b->us + canary()) >= 0 && SC[cls_for(b->us + canary())] == b->us + canary());
            live += b->us == 0 && b->al <= 4096 ? 16 : small ? sz + canary() : sz; }
        if (m.uordblks != live) fail("mallinfo2 reports %zu allocated bytes at a quiescent point, the live blocks are %zu", m.uordblks, live);
        if (m.hblkhd < m.uordblks) fail("mallinfo2 reports less mapped than allocated");
        if (android()) { // the totals of every arena and bin add up to the same, and every bin's counters to its live blocks
            unsigned small = 0, bins = 0, mapped = 0; struct mallinfo x;
            for (int a = 0; a < CFG.narena; a++) { x = CALL(h_mallinfo_arena_info(a)); small += x.fsmblks; mapped += x.hblkhd; for (int b = 0; b < nclasses(); b++) { x = CALL(h_mallinfo_bin_info(a, b)); bins += x.ordblks; if (x.ordblks < 0 || x.uordblks < x.fordblks) fail("mallinfo_bin_info: more freed than allocated"); } }
            x = CALL(h_mallinfo_arena_info(CFG.narena)); if (x.hblkhd != x.uordblks) fail("mallinfo_arena_info of the large arena is inconsistent");
            if (small != bins) fail("the arenas report %u allocated bytes, their bins %u", small, bins);
            if ((unsigned)(small + x.uordblks) != (unsigned)live || (unsigned)(mapped + x.hblkhd) != (unsigned)m.hblkhd) fail("the arenas report %u allocated and %u mapped bytes, the live blocks are %zu, mallinfo2 reports %zu mapped", small + x.uordblks, mapped + x.hblkhd, live, (size_t)m.hblkhd);
        }
    }
    for (auto b : all) do_free(b, 0);
    if (CFG.stats) { struct mallinfo2 m = CALL(h_mallinfo2()); if (m.uordblks != 0) fail("mallinfo2 reports %zu allocated bytes after everything was freed", m.uordblks); }
    u64 res1 = shim_reservations(); long extra = (long)res1 - (long)res0 - (preinit ? 0 : 2);
    if (!shim_fired && extra > CFG.rrand + CFG.rqueue) fail("%ld mappings remain beyond those the region quarantine may hold", extra - CFG.rrand - CFG.rqueue);
    if (mode == 2 || !preinit) {
        struct A { std::map<u64, u64> m; } a; shim_foreach([](uintptr_t lo, uintptr_t hi, int, u64 id, void *x) { ((A *)x)->m[id] += hi - lo; }, &a);
        int big = 0; for (auto &x : a.m) if (x.second >= CFG.region * nclasses() * CFG.narena) big++;
        bool used = !all.empty() || res1 > res0;
        if (big > 1 || (used && big != 1)) fail("%d slab regions were reserved", big);
        if (atforks > 1 || (used && atforks != 1)) fail("the fork handlers were registered %d times", atforks);
        void *p = CALL(h_malloc(100)); if (!p) fail("malloc after first use failed"); CALL((h_free(p), 0));
        count(N_INIT);
    }
    if (CS_->cnt[N_PRE] + CS_->cnt[N_BLK] > 2 && mode != 1) nontrivial();
}
