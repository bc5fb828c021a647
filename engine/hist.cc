// History engine: executes generated operation histories against the allocator next to a model,
// each in a forked child; the parent decides, shrinks and writes replay files.
#include "hist.h"
#include "gen.h"
#include <algorithm>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
bool vp_android();
extern "C" { size_t h_mallinfo_narenas(void); size_t h_mallinfo_nbins(void); struct mallinfo h_mallinfo_arena_info(size_t); struct mallinfo h_mallinfo_bin_info(size_t, size_t); void h_malloc_disable(void); void h_malloc_enable(void); }
extern "C" { struct mallinfo2 h_mallinfo2(void); int h_malloc_info(int, FILE *); }
extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);

// ---------------------------------------------------------------- shared result
enum { EX_NONE = 0, EX_FATAL = 1, EX_ANYDEATH = 2 };
struct Shared {
    volatile int state;     // 0 running, 1 finished, 2 violation recorded
    volatile int aborted;   // abort() reached
    volatile int expect;
    volatile int opidx, opk;
    volatile int terminal;  // a terminal op was really executed
    char label[16];
    char msg[600];
    char fatal[256];
    u64 cnt[64];
    u64 opcalls[4096];      // memory system calls made by op i (dry run for fault enumeration)
    u64 initcalls;
};
static Shared *S;
enum { N_ALLOC, N_SMALL, N_LARGE, N_ZERO, N_FREE, N_REALLOC, N_RMOVE, N_RSHRINK, N_RREMAP, N_REUSE, N_ACT, N_RECYC, N_PURGE, N_TRIMREL, N_QUERY, N_HUGE, N_FIRED, N_OOM, N_BADAL,
    N_UNMAPQ, N_STATS, N_THREADS, N_OVERAL, N_ZEROCHK, N_ERASED, N_GUARDCHK, N_TERMINAL, N_CANWR, N_EXH, N_MAXLIVE, N_ERRNO, N_SIZED, N_INTQ, N_WAFREUSE, N_FRESHZERO_REUSE, N_SHRINKTAIL, N_FORK, N_SYS, N_RET };
static const char *cntname[] = {"alloc", "small", "large", "zero_size", "free", "realloc", "realloc_move", "realloc_shrink_in_place", "realloc_remap", "slot_reuse", "slab_activated", "slab_recycled", "slab_purged", "trim_released",
    "query", "huge_request", "fault_fired", "oom_return", "bad_alignment", "quarantine_unmap", "stats_check", "thread_switch", "over_page_aligned", "fresh_zero_check", "erase_check", "guard_check", "terminal", "canary_write",
    "exhausted", "max_live", "errno_check", "sized_free", "interior_query", "waf_reuse_attempt", "zero_check_on_reuse", "shrink_tail", "forks", "system_calls_checked", "api_returns_checked"};

static u64 g_labels; // bit per property number
static bool lab(int c) { return g_labels >> c & 1; }
static void finish_child(int code) __attribute__((noreturn));
static void finish_child(int code) { _exit(code); }
static void viol(int c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void viol(int c, const char *fmt, ...) {
    if (c && !lab(c)) return;
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
    snprintf(S->label, sizeof S->label, c ? "C%02d" : "CRASH", c);
    S->state = 2; finish_child(2);
}
// a broken correct program: reported whatever the property (the program did not do what it asked for)
#define BROKEN(...) viol(0, __VA_ARGS__)

// ---------------------------------------------------------------- model
struct Blk { u8 *p = nullptr; u64 req = 0, us = 0, align = 0; int cls = -1; bool live = false, small = false; u64 tag = 0; bool sizedok = false; int arena = 0; bool shrunk = false; bool canbad = false; };
static std::vector<Blk> B;
static std::map<uintptr_t, u32> live;             // start -> handle
struct Fr { u64 us; int cls, arena; u64 seq; bool small; bool dirty; u64 gen; };
static std::map<uintptr_t, Fr> freed;             // freed, not handed out since
struct Ext { uintptr_t lo, hi; };
static std::map<std::pair<int, int>, Ext> exts;   // (arena, class) -> extent
struct Slab { int cls, arena; bool rw; u32 nlive; };
static std::map<uintptr_t, Slab> slabs;           // slab start
struct CS { u64 live = 0, frees = 0, rw = 0, empty = 0; std::vector<uintptr_t> purged; u64 npurge = 0; std::unordered_map<uintptr_t, u64> purgeno; u64 seen = 0, nm = 0, nd = 0; std::set<uintptr_t> zpages; };
static std::map<std::pair<int, int>, CS> cs;
struct Rel { uintptr_t lo, hi; u64 seq; };
static std::vector<Rel> rels;                     // quarantined large releases
static u64 nrel, live_large, live_large_bytes;
static std::map<uintptr_t, uintptr_t> largelo;    // live large [lo,hi)
static u64 slab_id, base_ids;
static bool faulted;                              // any injected failure so far
static bool unmodelled;                           // blocks exist that the model does not know
static bool exact() { return !unmodelled && (!faulted || lab(26)); } // slab accounting stays exact across failed calls
static u64 tagctr;
static u64 fired_op;                              // failures injected in the current op

static int cur_arena;
static int memfd = -1;
static const Prof *P;

static inline u64 word(u64 tag, u64 i) { u64 z = tag + i * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return (z ^ (z >> 32)) | 1; }
static const u64 FULL = 131072;
static bool sparse; // a history with gigabytes of small blocks touches only their ends
// apply f(offset, len) over the parts of a block the harness fills and checks
template <class F> static void parts(u64 us, F f) {
    if (sparse && us > 512) { f(0, 64); f(us - 64 - (us & 7), 64 + (us & 7)); return; }
    if (us <= FULL) { f(0, us); return; }
    f(0, 4096); f(us - 4096 - (us & 7), 4096 + (us & 7));
    u64 step = us / 16 & ~7ull; for (int i = 1; i < 16; i++) { u64 o = (step * i) & ~7ull; if (o >= 4096 && o + 64 <= us - 4104) f(o, 64); }
}
static void fill_part(u8 *p, u64 tag, u64 o, u64 n) { u64 i = 0; for (; i + 8 <= n; i += 8) { u64 w = word(tag, (o + i) >> 3); memcpy(p + o + i, &w, 8); } if (i < n) { u64 w = word(tag, (o + i) >> 3); memcpy(p + o + i, &w, n - i); } }
static bool chk_part(const u8 *p, u64 tag, u64 o, u64 n, u64 *bad) {
    u64 i = 0; for (; i + 8 <= n; i += 8) { u64 w = word(tag, (o + i) >> 3), v; memcpy(&v, p + o + i, 8); if (v != w) { *bad = o + i; return false; } }
    if (i < n) { u64 w = word(tag, (o + i) >> 3); if (memcmp(p + o + i, &w, n - i)) { *bad = o + i; return false; } }
    return true;
}
static void fill(Blk &b) { b.tag = mix(0x77, ++tagctr); parts(b.us, [&](u64 o, u64 n) { fill_part(b.p, b.tag, o, n); }); }
// compare the first `lim` bytes
static bool check_at(const u8 *p, u64 tag, u64 us, u64 lim, u64 *bad) {
    bool ok = true;
    parts(us, [&](u64 o, u64 n) { if (!ok || o >= lim) return; if (o + n > lim) n = lim - o; if (!chk_part(p, tag, o, n, bad)) ok = false; });
    return ok;
}
static bool all_rw(uintptr_t lo, uintptr_t hi, int want) { // every page has exactly protection `want`
    while (lo < hi) { uintptr_t a, z; int pr; u64 id; if (!shim_seg(lo, &a, &z, &pr, &id) || pr != want) return false; lo = z; }
    return true;
}
static bool none_accessible(uintptr_t lo, uintptr_t hi) {
    while (lo < hi) { uintptr_t a, z; int pr; u64 id; if (!shim_seg(lo, &a, &z, &pr, &id)) { lo = (lo & ~4095ull) + 4096; if (hi - lo > (1ull << 30)) return true; continue; } if (pr != PROT_NONE) return false; lo = z; }
    return true;
}
static bool is_zero(const u8 *p, u64 n, u64 *bad) {
    u64 i = 0; for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, p + i, 8); if (v) { while (!p[i]) i++; *bad = i; return false; } }
    for (; i < n; i++) if (p[i]) { *bad = i; return false; }
    return true;
}
static bool verify_block(u32 h, int c, const char *when) {
    Blk &b = B[h]; u64 bad;
    if (!b.live || !b.us) return true;
    if (!check_at(b.p, b.tag, b.us, b.us, &bad)) { viol(c, "%s: live block (req %lu, usable %lu) changed at offset %lu", when, b.req, b.us, bad); return false; }
    return true;
}
static void guard_alive() {
    if (!lab(17)) return;
    for (auto &x : largelo) { if (shim_prot(x.first - 1) != PROT_NONE) viol(17, "no inaccessible page before a live large block"); if (shim_prot(x.second) != PROT_NONE) viol(17, "no inaccessible page after a live large block"); }
}
static void verify_all(int c, const char *when) { guard_alive(); for (auto &x : live) verify_block(x.second, c, when); }

// called by the shim with its lock held, in the middle of an allocator call: record only
static u64 early_unmap; static uintptr_t early_lo;
static u64 rel_pending;
static void on_unmap(uintptr_t p, size_t n) {
    uintptr_t lo = p, hi = p + pgup(n);
    for (size_t i = 0; i < rels.size();) {
        if (rels[i].lo < hi && lo < rels[i].hi) {
            u64 further = nrel + rel_pending - rels[i].seq; // releases after this one, including the one in progress
            u64 need = CFG.rqueue + (CFG.rrand ? 1 : 0);
            if (further < need) { early_unmap = need - further; early_lo = rels[i].lo; }
            else S->cnt[N_UNMAPQ]++;
            rels[i] = rels.back(); rels.pop_back();
        } else i++;
    }
}

static int curC; // label context
static u64 slab_of(uintptr_t p) { auto it = slabs.upper_bound(p); if (it == slabs.begin()) return 0; --it; return p < it->first + slabsize(it->second.cls) ? it->first : 0; }

static bool pages_gone(uintptr_t lo, uintptr_t hi, u64 *badoff) { // contents not retrievable: read through /proc/self/mem
    if (memfd < 0) return true;
    static u8 buf[65536];
    u64 len = hi - lo;
    auto rd = [&](u64 o, u64 n) -> bool { ssize_t r = pread(memfd, buf, n, lo + o); if (r <= 0) return true; u64 b; if (!is_zero(buf, r, &b)) { *badoff = o + b; return false; } return true; };
    if (len <= FULL) { for (u64 o = 0; o < len; o += sizeof buf) if (!rd(o, std::min<u64>(sizeof buf, len - o))) return false; return true; }
    if (!rd(0, 4096) || !rd(len - 4096, 4096)) return false;
    for (int i = 1; i < 16; i++) if (!rd(len / 16 * i & ~7ull, 64)) return false;
    return true;
}

// process protection events of the slab reservation. cls/arena: of the block allocated by this op, -1 if none
static void slab_events(int cls, int arena, bool trimming) {
    size_t n; ShimEv *ev = shim_events(&n);
    for (size_t i = 0; i < n; i++) {
        if (!slab_id || shim_id(ev[i].p) != slab_id) continue;
        if (ev[i].kind == 1) {
            if (cls < 0) { continue; }
            u64 ss = slabsize(cls);
            if (ev[i].n % ss) { viol(18, "class %u: %lu bytes made accessible, documented slab size is %lu", SC[cls], (u64)ev[i].n, ss); continue; }
            CS &c = cs[{arena, cls}];
            for (uintptr_t lo = ev[i].p; lo < ev[i].p + ev[i].n; lo += ss) {
                u64 quar = std::min<u64>(c.frees, qR(cls) + qQ(cls));
                if (exact() && c.rw * SLOTS[cls] > c.live + quar) {
                    if (faulted) viol(26, "class %u: slots lost after a failed system call: new slab taken with %lu slabs of %u slots mapped but only %lu live and at most %lu quarantined", SC[cls], c.rw, SLOTS[cls], c.live, quar);
                    viol(35, "class %u: new slab taken with %lu slabs of %u slots mapped but only %lu live and at most %lu quarantined", SC[cls], c.rw, SLOTS[cls], c.live, quar);
                    viol(19, "class %u: freed slots lost: new slab taken with %lu slabs of %u slots mapped but only %lu live and at most %lu quarantined", SC[cls], c.rw, SLOTS[cls], c.live, quar);
                }
                auto it = slabs.find(lo);
                if (it == slabs.end()) {
                    if (exact() && (long)c.purged.size() > CFG.fsq) {
                        if (faulted) viol(26, "class %u: slabs lost after a failed system call: never-used slab taken while %lu released slabs wait (random array holds at most %ld)", SC[cls], (u64)c.purged.size(), CFG.fsq);
                        viol(20, "class %u: never-used slab taken while %lu released slabs wait (random array holds at most %ld)", SC[cls], (u64)c.purged.size(), CFG.fsq);
                        viol(35, "class %u: never-used slab taken while %lu released slabs wait (random array holds at most %ld)", SC[cls], (u64)c.purged.size(), CFG.fsq);
                    }
                    slabs[lo] = Slab{cls, arena, true, 0}; c.seen++;
                } else {
                    Slab &s = it->second;
                    if (!s.rw) {
                        S->cnt[N_RECYC]++;
                        auto pos = std::find(c.purged.begin(), c.purged.end(), lo);
                        if (pos != c.purged.end()) {
                            u64 idx = pos - c.purged.begin();
                            if (CFG.fsq >= 1 && idx + 1 == c.purged.size()) viol(20, "class %u: the most recently released slab was reused before any later release displaced it from the random array", SC[cls]);
                            if (CFG.fsq <= 1 && idx != 0) viol(20, "class %u: released slabs reused out of order (position %lu of %lu)", SC[cls], idx, (u64)c.purged.size());
                            c.purged.erase(pos);
                        }
                        s.rw = true; s.nlive = 0;
                    } else continue;
                }
                c.rw++; c.empty++; S->cnt[N_ACT]++;
                // guard slabs
                uintptr_t rl, rh; shim_ever_run(lo, &rl, &rh);
                if (rh - rl > (u64)CFG.guardint * ss) viol(18, "class %u: %lu bytes of consecutive accessible slabs, guard interval is %ld slabs of %lu", SC[cls], (u64)(rh - rl), CFG.guardint, ss);
                for (int side = 0; side < 2; side++) {
                    uintptr_t probe = side ? rh : rl - ss; uintptr_t a, z;
                    for (uintptr_t q = probe; q < probe + ss; q += 4096) { shim_ever_run(q, &a, &z); if (z > a) { viol(18, "class %u: less than one slab of inaccessible space next to a run of slabs", SC[cls]); break; } if (shim_prot(q) != 0) { viol(18, "class %u: guard slab next to a run of slabs is not inaccessible reserved space", SC[cls]); break; } }
                }
            }
        } else if (ev[i].kind == 2 || ev[i].kind == 4) { // made inaccessible
            uintptr_t lo = ev[i].p, hi = lo + ev[i].n;
            auto it = slabs.lower_bound(lo);
            for (; it != slabs.end() && it->first < hi; ++it) {
                Slab &s = it->second; u64 ss = slabsize(s.cls);
                if (!s.rw) continue;
                if (it->first + ss > hi) { viol(18, "class %u: part of a slab made inaccessible", SC[s.cls]); continue; }
                if (s.nlive) { viol(1, "class %u: a slab with %u live blocks was made inaccessible", SC[s.cls], s.nlive); BROKEN("a slab with live blocks was made inaccessible"); }
                s.rw = false; CS &c = cs[{s.arena, s.cls}]; c.rw--; if (!s.nlive) c.empty--; c.purged.push_back(it->first); c.npurge++; S->cnt[N_PURGE]++;
                for (auto f = freed.lower_bound(it->first); f != freed.end() && f->first < it->first + ss; ++f) f->second.dirty = false;
                u64 bad; if ((c.npurge & 3) == 1 && lab(20)) {
                    static u8 vec[64]; memset(vec, 0, sizeof vec);
                    if (!syscall(SYS_mincore, it->first, ss, vec)) for (u64 k = 0; k < ss / 4096; k++) if (vec[k] & 1) { viol(20, "class %u: memory of a released slab is still resident", SC[s.cls]); break; }
                    if (!pages_gone(it->first, it->first + ss, &bad)) viol(20, "class %u: contents of a released slab survive", SC[s.cls]);
                }
            }
        }
    }
    shim_events_clear();
    (void)trimming;
}
static void cache_check(int cls, int arena) {
    if (faulted || cls <= 0 || !(lab(20) || lab(35))) return;
    CS &c = cs[{arena, cls}]; u64 ss = slabsize(cls);
    u64 quar = std::min<u64>(c.frees, qR(cls) + qQ(cls));
    u64 empty = c.empty;
    if (empty > cache_limit() / ss + quar) { viol(20, "class %u: %lu empty slabs of %lu bytes stay mapped (limit %lu bytes, at most %lu slots quarantined)", SC[cls], empty, ss, cache_limit(), quar);
        viol(35, "class %u: %lu empty slabs of %lu bytes stay mapped (limit %lu bytes, at most %lu slots quarantined)", SC[cls], empty, ss, cache_limit(), quar); }
}

static void large_invariants() {
    if (faulted || !(lab(35))) return;
    u64 n = shim_reservations();
    u64 cap = base_ids + live_large + CFG.rrand + CFG.rqueue;
    if (n > cap) viol(35, "%lu mappings exist for %lu live large blocks and a region quarantine of %ld+%ld", n - base_ids, live_large, CFG.rrand, CFG.rqueue);
}

// ---------------------------------------------------------------- allocation
static bool null_legit_small(int cls, int arena) {
    CS &c = cs[{arena, cls}]; u64 ss = slabsize(cls);
    u64 max = CFG.region / ss, cap = 0; for (u64 i = 0; i < max && cap < 100000; i++) if ((long)(i % (CFG.guardint + 1)) != CFG.guardint) cap++;
    if (cap >= 100000) return false;
    u64 quar = std::min<u64>(c.frees, qR(cls) + qQ(cls));
    return c.live + quar + (u64)CFG.fsq * SLOTS[cls] >= cap * SLOTS[cls];
}
static bool null_legit_large() { return CFG.region < (1ull << 30) ? live_large >= 90 : live_large > 20000; }

static void register_block(u32 h, u8 *p, u64 req, u64 align, int entry, bool plain, u64 moved_from_us, u64 keep) {
    Blk &b = B[h];
    uintptr_t a = (uintptr_t)p;
    bool small = is_small_req(req, align);
    S->cnt[N_ALLOC]++;
    if (!slab_id && small) { slab_id = shim_id(a); }
    if (!base_ids) { base_ids = shim_reservations() - (small ? 0 : 1); }
    // alignment
    if (req && (a & 15)) viol(2, "block of %lu bytes not 16-byte aligned: %p", req, p);
    if (align > 1 && (a & (align - 1))) viol(2, "block of %lu bytes violates alignment %lu: %p", req, align, p);
    u64 us = h_malloc_usable_size(p);
    if (us < req) { viol(1, "usable size %lu below request %lu", us, req); viol(7, "usable size %lu below request %lu", us, req); BROKEN("usable size %lu below request %lu", us, req); }
    bool zero = req == 0 && align <= 16;
    if (zero && us != 0) viol(6, "zero-size block has usable size %lu", us);
    if (plain) {
        u64 want;
        if (small) { int c = req ? cls_for(req + canary()) : 0; want = c ? SC[c] - canary() : 0; }
        else want = large_for(req);
        if (us != want) viol(8, "request %lu: usable size %lu, documented %lu", req, us, want);
        if (us && req > 64 && !CFG.canary && req <= maxsmall() && (us - req) * 5 >= us) viol(8, "request %lu wastes %lu of %lu", req, us - req, us);
    }
    // overlap with live blocks and known ranges
    uintptr_t hi = a + (us ? us : 1);
    { auto it = live.lower_bound(a); bool bad = it != live.end() && it->first < hi;
      if (it != live.begin()) { auto q = std::prev(it); Blk &o = B[q->second]; if (q->first + (o.us ? o.us : 1) > a) bad = true; }
      if (bad) { viol(1, "new block %p (usable %lu) overlaps a live block", p, us); if (!req) viol(6, "zero-size block %p is not distinct from a live block", p); BROKEN("new block overlaps a live block"); } }
    b.p = p; b.req = req; b.us = us; b.align = align; b.live = true; b.small = small; b.arena = cur_arena; b.shrunk = false; b.canbad = false;
    b.sizedok = plain || !small;
    b.cls = small ? cls_for(us + (us ? canary() : 0)) : -1;
    if (small && us && SC[b.cls] != us + canary()) viol(8, "usable size %lu is not a size class", us);
    live[a] = h; S->cnt[N_MAXLIVE] = std::max<u64>(S->cnt[N_MAXLIVE], live.size());
    // protection
    if (us) {
        if (!all_rw(a & ~4095ull, pgup(hi), PROT_READ | PROT_WRITE)) { viol(1, "block %p of %lu bytes (usable %lu) is not readable and writable throughout", p, req, us); BROKEN("block not accessible"); }
    } else if (shim_prot(a) != PROT_NONE) viol(6, "zero-size block %p is accessible", p);
    auto key = std::make_pair(b.arena, b.cls);
    bool reuse = false;
    if (small) {
        S->cnt[us ? N_SMALL : N_ZERO]++;
        slab_events(b.cls, b.arena, false);
        CS &c = cs[key]; c.live++; c.nm++;
        if (!us) c.zpages.insert(a & ~4095ull);
        if (shim_id(a) != slab_id) viol(21, "small block %p outside the slab reservation", p);
        u64 w = clssize(b.cls);
        auto e = exts.find(key);
        if (e == exts.end()) exts[key] = Ext{a, a + w}; else { e->second.lo = std::min(e->second.lo, a); e->second.hi = std::max(e->second.hi, a + w); }
        Ext me = exts[key];
        if (lab(21)) {
            if (me.hi - me.lo > CFG.region) viol(21, "blocks of class %u arena %d spread over %lu bytes, region is %lu", SC[b.cls], b.arena, (u64)(me.hi - me.lo), CFG.region);
            for (auto &x : exts) if (x.first != key && x.second.lo < me.hi && me.lo < x.second.hi) viol(21, "class %u arena %d and class %u arena %d share address space", SC[b.cls], b.arena, SC[x.first.second], x.first.first);
            auto l = largelo.upper_bound(me.hi); if (l != largelo.begin()) { --l; if (l->second > me.lo) viol(21, "large block inside the extent of class %u", SC[b.cls]); }
        }
        if (us) {
            uintptr_t sl = slab_of(a);
            if (!sl) viol(18, "block %p of class %u is in no slab that was made accessible as a unit", p, SC[b.cls]);
            else {
                Slab &s = slabs[sl]; if (!s.nlive++ && c.empty) c.empty--;
                if (s.cls != b.cls || s.arena != b.arena) viol(21, "block of class %u arena %d in a slab of class %u arena %d", SC[b.cls], b.arena, SC[s.cls], s.arena);
                u64 off = a - sl; if (off % w || off / w >= SLOTS[b.cls]) viol(18, "block at offset %lu of a class %u slab (%u slots)", off, SC[b.cls], SLOTS[b.cls]);
            }
        }
        auto f = freed.find(a);
        if (f != freed.end()) {
            reuse = true; S->cnt[N_REUSE]++;
            if (f->second.small) {
                u64 further = c.frees - f->second.seq, need = qQ(b.cls) + (CFG.srand_ ? 1 : 0);
                if (f->second.cls != b.cls) viol(21, "address of class %u reused for class %u", SC[f->second.cls], SC[b.cls]);
                else if (further < need) viol(19, "class %u: slot reused after %lu further frees, quarantine guarantees %lu", SC[b.cls], further, need);
            } else viol(21, "address of a large block reused for a small one");
            if (f->second.dirty) { viol(13, "slot of class %u written after free was handed out again undetected", SC[b.cls]); }
        }
        // any freed record overlapped must go
        auto it = freed.lower_bound(a); while (it != freed.end() && it->first < hi) it = freed.erase(it);
    } else {
        S->cnt[N_LARGE]++; if (align > 4096) S->cnt[N_OVERAL]++;
        slab_events(-1, 0, false); // a moving realloc releases the old small block in the same call
        live_large++; live_large_bytes += us; largelo[a] = a + pgup(us);
        if (a & 4095) viol(2, "large block %p is not page aligned", p);
        if (slab_id && shim_id(a) == slab_id) viol(21, "large block %p inside the slab reservation", p);
        uintptr_t lo, z; int pr; u64 id; u64 ident = shim_id(a);
        S->cnt[N_GUARDCHK]++;
        u64 end = a + pgup(us);
        // guards: pages of the same reservation, inaccessible
        uintptr_t gl = a, gh = end;
        if (shim_seg(a - 1, &lo, &z, &pr, &id) && id == ident && pr == PROT_NONE) gl = lo;
        if (shim_seg(end, &lo, &z, &pr, &id) && id == ident && pr == PROT_NONE) gh = z;
        u64 g0 = a - gl, g1 = gh - end;
        if (g0 < 4096 || g1 < 4096) viol(17, "large block (req %lu, align %lu) lacks an inaccessible guard page %s", req, align, g0 < 4096 ? "before" : "after");
        u64 up = std::max<u64>(4096, us / 4096 / CFG.guarddiv * 4096);
        if (g0 > up || g1 > up) { viol(17, "guard of %lu/%lu bytes exceeds the documented maximum %lu for usable size %lu", g0, g1, up, us); viol(35, "guard of %lu/%lu bytes exceeds the documented maximum %lu", g0, g1, up); }
        for (auto &r : rels) if (r.lo < gh && gl < r.hi && !faulted) viol(16, "address range released to the quarantine was handed out again too early");
        auto it = freed.lower_bound(a); while (it != freed.end() && it->first < end) { if (it->second.small) viol(21, "address of a small block reused for a large one"); it = freed.erase(it); }
        auto l = largelo.find(a); if (std::next(l) != largelo.end() && std::next(l)->first < gh) viol(17, "guard region overlaps another block"); if (l != largelo.begin() && std::prev(l)->second > gl) viol(17, "guard region overlaps another block");
    }
    // canary's first byte
    if (small && us && CFG.canary && b.p[us] != 0) viol(12, "first canary byte is not zero");
    // fresh zero
    if (us && keep < us) {
        bool wantz = CFG.zero; u64 zlim = us;
        if (!CFG.zero && entry == E_CALLOC) { wantz = true; zlim = req; }
        if (wantz && lab(4)) {
            S->cnt[N_ZEROCHK]++; if (reuse) S->cnt[N_FRESHZERO_REUSE]++;
            u64 bad; bool ok = true;
            u64 from = moved_from_us ? moved_from_us : 0;
            if (zlim <= FULL * 2) { if (from < zlim) ok = is_zero(p + from, zlim - from, &bad); bad += from; }
            else { u64 o; for (u64 k = 0; k <= 32 && ok; k++) { o = (zlim - 4096) / 32 * k & ~7ull; if (o < from) { if (o + 4096 <= from) continue; o = (from + 7) & ~7ull; } u64 n = std::min<u64>(4096, zlim - o); ok = is_zero(p + o, n, &bad); bad += o; } }
            if (!ok) viol(4, "fresh memory not zero: request %lu, usable %lu, offset %lu%s", req, us, bad, moved_from_us ? " (gained by realloc)" : "");
        }
    }
    large_invariants();
}

static u64 op_fired0;
static void op_begin() { op_fired0 = shim_fired; early_unmap = 0; }
static void op_end() {
    fired_op = shim_fired - op_fired0;
    if (fired_op) { faulted = true; S->cnt[N_FIRED] += fired_op; }
    if (shim_unowned) { viol(26, "the allocator unmapped memory it does not own"); BROKEN("the allocator unmapped memory it does not own"); }
    if (early_unmap) viol(16, "quarantined range unmapped %lu releases too early", early_unmap);
}

static void *call_alloc(int e, u64 size, u64 align, u64 nmemb, int *ret) {
    *ret = 0;
    switch (e) {
    case E_MALLOC: return h_malloc(size);
    case E_CALLOC: return h_calloc(nmemb ? nmemb : 1, size);
    case E_ALIGNED: return h_aligned_alloc(align, size);
    case E_MEMALIGN: return h_memalign(align, size);
    case E_POSIX: { void *p = (void *)0x1234567; *ret = h_posix_memalign(&p, align, size); if (*ret) { if (p != (void *)0x1234567) viol(2, "failing posix_memalign modified the pointer"); return nullptr; } return p; }
    case E_VALLOC: return h_valloc(size);
    case E_PVALLOC: return h_pvalloc(size);
    case E_REALLOC0: return h_realloc(nullptr, size);
    }
    return nullptr;
}
static bool do_alloc(u32 h, int e, u64 size, u64 align, u64 nmemb) {
    if (h >= B.size() || B[h].live) return false;
    u64 req = e == E_CALLOC ? size * (nmemb ? nmemb : 1) : size;
    if (e == E_VALLOC || e == E_PVALLOC) align = 4096;
    if (e == E_PVALLOC && size == 0) return false;
    bool al = e == E_ALIGNED || e == E_MEMALIGN || e == E_POSIX || e == E_VALLOC || e == E_PVALLOC;
    if (e == E_POSIX && align < 8) align = 8;
    if (!al) align = 1;
    if (e == E_PVALLOC) req = pgup(size);
    int ret; errno = 0; op_begin();
    u8 *p = (u8 *)call_alloc(e, size, align, nmemb, &ret);
    int er = e == E_POSIX ? ret : errno;
    op_end();
    if (!p) {
        S->cnt[N_OOM]++;
        shim_events_clear();
        if (er != ENOMEM) { viol(5, "failed allocation of %lu: errno %d, want ENOMEM", req, er); viol(26, "failed allocation of %lu: errno %d, want ENOMEM", req, er); }
        bool small = is_small_req(req, align);
        bool legit = fired_op > 0;
        if (!legit) {
            if (small) { int c = req ? cls_for(req + canary()) : align > 16; for (int k = c; k < nclasses() && !legit; k++) if (SC[k] % (align > 16 ? align : 1) == 0) { legit = null_legit_small(k, cur_arena); if (align <= 16 || !legit) break; } }
            else legit = null_legit_large() || req >= (1ull << 34) || align >= (1ull << 34);
            if (legit) S->cnt[N_EXH]++;
        }
        if (!legit) BROKEN("allocation of %lu bytes (entry %d, align %lu) refused although memory is available", req, e, align);
        return false;
    }
    register_block(h, p, req, align, e, !al || (align <= 16 && is_small_req(req, align)), 0, 0);
    fill(B[h]);
    return true;
}

// ---------------------------------------------------------------- release
static void release_model(u32 h, bool moved_by_remap) {
    Blk &b = B[h]; uintptr_t a = (uintptr_t)b.p;
    live.erase(a); b.live = false;
    if (b.small) {
        CS &c = cs[{b.arena, b.cls}]; c.live--; c.frees++; c.nd++;
        if (b.us) { uintptr_t sl = slab_of(a); if (sl && !--slabs[sl].nlive) c.empty++; }
        freed[a] = Fr{b.us, b.cls, b.arena, c.frees, true, false, 0};
    } else {
        live_large--; live_large_bytes -= b.us; largelo.erase(a);
        if (!moved_by_remap) freed[a] = Fr{b.us, -1, 0, 0, false, false, 0};
        else freed[a] = Fr{b.us, -1, 0, 0, false, false, 1};
    }
}
// before the releasing call: register a quarantined release
static void pre_release_large(u64 rsize) { rel_pending = (CFG.rrand || CFG.rqueue) && rsize < CFG.rskip ? 1 : 0; }
static void post_release_large(uintptr_t lo, u64 size, u64 rsize, const char *what) {
    if (rel_pending) { rel_pending = 0; nrel++; if (!faulted) rels.push_back(Rel{lo, lo + size, nrel}); }
    (void)rsize;
    if (!fired_op) {
        if (!none_accessible(lo, lo + size)) viol(16, "%s: released pages are still accessible", what);
        if (lab(16)) { u64 bad; 
            // contents gone: only meaningful while the range is still the allocator's
            uintptr_t a, z; int pr; u64 id; if (shim_seg(lo, &a, &z, &pr, &id) && z >= lo + size && !pages_gone(lo, lo + size, &bad)) viol(16, "%s: contents of released pages survive at offset %lu", what, bad); }
    } else if (lab(26) && !(shim_fired_kinds & K_MADVISE)) {
        u64 bad; uintptr_t a, z; int pr; u64 id;
        if (shim_seg(lo, &a, &z, &pr, &id) && z >= lo + size && !pages_gone(lo, lo + size, &bad)) viol(26, "%s: data survives at offset %lu after a failed system call", what, bad);
    }
}
static void erased_check(u8 *p, u64 us, int cls) {
    if (!CFG.zero || !us || !(lab(15) || lab(26))) return;
    S->cnt[N_ERASED]++;
    uintptr_t a = (uintptr_t)p; u64 bad;
    if (shim_prot(a) == (PROT_READ | PROT_WRITE) && shim_prot(a + us - 1) == (PROT_READ | PROT_WRITE)) {
        if (!is_zero(p, us, &bad)) { viol(15, "class %u: byte %lu of %lu of a freed block not erased", SC[cls], bad, us); if (faulted) viol(26, "class %u: byte %lu of %lu of a freed block not erased", SC[cls], bad, us); }
    }
}
static void neighbours_check(uintptr_t a, int c, const char *when) {
    auto it = live.upper_bound(a);
    if (it != live.end() && it->first - a < 300000) verify_block(it->second, c, when);
    it = live.lower_bound(a);
    if (it != live.begin()) { --it; if (a - it->first < 300000) verify_block(it->second, c, when); }
}
static void do_free(u32 h, int mode, bool light = false) {
    if (h >= B.size() || !B[h].live) return;
    Blk b = B[h];
    if (b.canbad) return;
    verify_block(h, curC == 3 ? 3 : 1, "before free");
    if (mode == F_SIZED && !b.sizedok) mode = F_FREE;
    if (!b.small) pre_release_large(b.us);
    int e0 = (int)(h * 7 + 3) % 120 + 1; if (mode == F_SIZED) S->cnt[N_SIZED]++;
    errno = e0; op_begin();
    switch (mode) { case F_SIZED: h_free_sized(b.p, b.req); break; case F_CFREE: h_cfree(b.p); break; default: h_free(b.p); }
    int e1 = errno; op_end();
    S->cnt[N_FREE]++;
    if (mode != F_SIZED) { S->cnt[N_ERRNO]++; if (e1 != e0) viol(36, "free of a %s block changed errno from %d to %d%s", b.small ? "small" : "large", e0, e1, fired_op ? " (after a failed system call)" : ""); }
    release_model(h, false);
    if (b.small) {
        slab_events(-1, 0, false);
        erased_check(b.p, b.us, b.cls);
        if (!light && (lab(15) || lab(1))) neighbours_check((uintptr_t)b.p, lab(15) ? 15 : 1, "after a neighbour was freed");
        cache_check(b.cls, b.arena);
    } else { shim_events_clear(); post_release_large((uintptr_t)b.p, pgup(b.us), b.us, "free"); large_invariants(); }
}

static void do_realloc(u32 h, u64 size) {
    if (h >= B.size() || !B[h].live || B[h].canbad) return;
    Blk b = B[h]; 
    verify_block(h, 1, "before realloc");
    bool nsmall = is_small_req(size, 1);
    u64 nus = nsmall ? (size ? SC[cls_for(size + canary())] - canary() : 0) : large_for(size);
    bool shrink = !b.small && !nsmall && nus && nus < b.us;
    bool remap = !b.small && !nsmall && nus > b.us && b.us >= 33554432;
    if (!b.small) { if (shrink) pre_release_large(b.us - nus); else if (remap || (!nsmall && nus == b.us)) rel_pending = 0; else pre_release_large(b.us); }
    S->cnt[N_REALLOC]++;
    u64 gafter = 0; if (shrink) { uintptr_t lo, z; int pr; u64 id; if (shim_seg((uintptr_t)b.p + pgup(b.us), &lo, &z, &pr, &id) && pr == PROT_NONE && id == shim_id((uintptr_t)b.p)) gafter = z - ((uintptr_t)b.p + pgup(b.us)); }
    errno = 0; op_begin();
    u8 *p = (u8 *)h_realloc(b.p, size);
    int er = errno; op_end();
    if (!p) {
        rel_pending = 0; shim_events_clear();
        S->cnt[N_OOM]++;
        if (er != ENOMEM) { viol(5, "failed realloc: errno %d, want ENOMEM", er); viol(3, "failed realloc: errno %d, want ENOMEM", er); viol(26, "failed realloc: errno %d", er); }
        bool legit = fired_op || (nsmall ? null_legit_small(cls_for(nus + (nus ? canary() : 0)), cur_arena) : (null_legit_large() || size >= (1ull << 34)));
        if (!legit) BROKEN("realloc of a %lu byte block to %lu refused although memory is available", b.us, size);
        u64 u = h_malloc_usable_size(b.p);
        if (u != b.us) { viol(3, "failed realloc changed the usable size from %lu to %lu", b.us, u); viol(26, "failed realloc changed the usable size"); }
        verify_block(h, lab(3) ? 3 : lab(26) ? 26 : lab(5) ? 5 : 1, "after a failed realloc");
        return;
    }
    u64 bad, keep = std::min(b.req, size), keepus;
    if (p == b.p) {
        rel_pending = rel_pending && shrink ? rel_pending : 0;
        u64 us = h_malloc_usable_size(p);
        if (b.small || us == b.us) {
            rel_pending = 0;
            if (us != b.us) viol(3, "in-place realloc changed the usable size of a block from %lu to %lu", b.us, us);
            if (us < size) BROKEN("in-place realloc: usable size %lu below request %lu", us, size);
            B[h].req = size; B[h].sizedok = nus == us;
            if (us != nus && (b.small || b.align <= 4096)) viol(8, "realloc to %lu: usable size %lu, documented %lu", size, us, nus);
            verify_block(h, 3, "after in-place realloc");
            shim_events_clear();
            return;
        }
        // in-place resize of a large block
        S->cnt[N_RSHRINK]++;
        if (us != nus) viol(8, "realloc to %lu: usable size %lu, documented %lu", size, us, nus);
        if (us < size) BROKEN("in-place realloc: usable size %lu below request %lu", us, size);
        u64 oldus = b.us; Blk &n = B[h];
        // old contents: check against the old pattern
        { bool ok = true; parts(oldus, [&](u64 o, u64 m) { if (!ok || o >= std::min(oldus, us)) return; if (o + m > std::min(oldus, us)) m = std::min(oldus, us) - o; if (!chk_part(p, b.tag, o, m, &bad)) ok = false; });
          if (!ok) viol(3, "realloc lost contents at offset %lu (old %lu new %lu)", bad, b.req, size); }
        n.us = us; n.req = size; n.shrunk = true; n.sizedok = true;
        live_large_bytes += us - oldus; largelo[(uintptr_t)p] = (uintptr_t)p + us;
        if (!all_rw((uintptr_t)p, (uintptr_t)p + us, PROT_READ | PROT_WRITE)) { viol(3, "resized block is not accessible"); BROKEN("resized block not accessible"); }
        if (us < oldus) {
            uintptr_t end = (uintptr_t)p + us; S->cnt[N_SHRINKTAIL]++;
            if (fired_op == 0) {
                if (shim_prot(end) != PROT_NONE) viol(17, "after in-place shrink no inaccessible page follows the block");
                if (!none_accessible(end, (uintptr_t)p + pgup(oldus))) viol(16, "tail cut off by realloc is still accessible");
                if (lab(16) && !pages_gone(end, (uintptr_t)p + pgup(oldus), &bad)) viol(16, "contents of the tail cut off by realloc survive at offset %lu", bad);
            }
            if (rel_pending) {
                // the tail behind the new guard region is what is quarantined
                rel_pending = 0; nrel++;
                if (!faulted && end + gafter < (uintptr_t)p + pgup(oldus)) rels.push_back(Rel{end + gafter, (uintptr_t)p + pgup(oldus), nrel});
            }
        } else if (lab(4) && CFG.zero) { u64 z; if (!is_zero(p + oldus, std::min<u64>(us - oldus, 65536), &z)) viol(4, "bytes gained by in-place growth are not zero"); }
        shim_events_clear();
        fill(n); large_invariants();
        return;
    }
    // moved
    S->cnt[N_RMOVE]++; if (remap) S->cnt[N_RREMAP]++;
    keepus = std::min(b.us, nus);
    // the old block must be released: model first so reuse of the old address is legal for nothing yet
    u32 nh = h;
    release_model(h, remap);
    {
        // harmless order: events of the new allocation first
        B[nh].live = false;
        Blk save = b; (void)save;
        // temporarily hide the old block from the freed map for delay accounting: it was freed after the new allocation
        register_block(nh, p, size, 1, E_REALLOC0, true, keepus ? keepus : 1, keepus < 8 ? 0 : 0);
    }
    Blk &n = B[nh];
    if (n.us < size) BROKEN("realloc: usable size %lu below request %lu", n.us, size);
    // contents: old pattern is defined by the old usable size's sampling
    { bool ok = true; parts(b.us, [&](u64 o, u64 m) { if (!ok || o >= keep) return; if (o + m > keep) m = keep - o; if (!chk_part(p, b.tag, o, m, &bad)) ok = false; });
      if (!ok) viol(3, "realloc lost contents at offset %lu (old request %lu usable %lu, new %lu)", bad, b.req, b.us, size); }
    if (b.small) { erased_check(b.p, b.us, b.cls); cache_check(b.cls, b.arena); }
    else if (remap) { rel_pending = 0; if (!fired_op && !none_accessible((uintptr_t)b.p, (uintptr_t)b.p + pgup(b.us))) { viol(16, "pages moved away by realloc are still accessible at the old address"); viol(3, "realloc left the old block mapped"); } }
    else post_release_large((uintptr_t)b.p, pgup(b.us), b.us, "moving realloc");
    if (lab(3) && !remap && !b.small && fired_op == 0 && !none_accessible((uintptr_t)b.p, (uintptr_t)b.p + pgup(b.us))) viol(3, "old block not released by realloc");
    shim_events_clear();
    fill(n); 
    if (lab(3)) neighbours_check((uintptr_t)p, 3, "after realloc of another block");
    large_invariants();
}

// ---------------------------------------------------------------- queries
static u64 special_offset(u64 x, u64 w) { // powers of two and their neighbours, page multiples, the last bytes, any
    u64 k, lg = 64 - __builtin_clzll(w); switch (x % 8) { case 0: k = 1ull << (x / 8 % lg); break; case 1: k = (1ull << (x / 8 % lg)) - 1 + x / 512 % 3; break; case 2: k = x / 8 % (w / 4096 + 1) * 4096; break; case 3: k = w - 1 - x / 8 % 20; break; case 4: k = w / 2 + x / 8 % 3 - 1; break; case 5: k = x / 8 % 40; break; default: k = x / 8; }
    return k % w;
}
static u64 fast_size(const void *p) {
    u64 l = shim_locks, c = shim_calls, f = h_malloc_object_size_fast(p);
    if (!shim_threads && (shim_locks != l || shim_calls != c)) viol(7, "malloc_object_size_fast took a lock or made a system call");
    return f;
}
static void do_query(u32 h, u64 off) {
    if (h >= B.size() || !B[h].live || B[h].canbad) return;
    Blk &b = B[h]; S->cnt[N_QUERY]++;
    u64 us = h_malloc_usable_size(b.p);
    if (us != b.us) viol(7, "usable size of a live block changed from %lu to %lu", b.us, us);
    u64 os = h_malloc_object_size(b.p);
    if (os != b.us) viol(7, "object size of a %s block is %lu, usable size %lu", b.small ? "small" : "large", os, b.us);
    u64 f = fast_size(b.p);
    if (f < b.us) viol(7, "fast object size %lu below usable size %lu", f, b.us);
    if (b.small && b.us) {
        u64 k = special_offset(off, b.us); S->cnt[N_INTQ]++;
        os = h_malloc_object_size(b.p + k);
        if (os != b.us - k) viol(7, "object size at offset %lu of a block of usable size %lu is %lu", k, b.us, os);
        if (fast_size(b.p + k) < b.us - k) viol(7, "fast object size too small at offset %lu", k);
        if (canary()) { k = off / 64 % 8; os = h_malloc_object_size(b.p + b.us + k); if (os) viol(7, "object size of a pointer %lu bytes into the canary of a block of usable size %lu is %lu, not 0", k, b.us, os); }
    } else if (!b.small) {
        u64 k = special_offset(off, b.us); if (!k) k = 1;
        os = h_malloc_object_size(b.p + k);
        if (os < b.us - k) viol(7, "object size at offset %lu of a large block is %lu", k, os);
        if (fast_size(b.p + k) < b.us - k) viol(7, "fast object size too small inside a large block");
    }
    // queries take no effect
    if (b.us && (b.p[0] ^ b.p[0])) return;
}
static char g_static[64];
static void do_foreignq(u64 x) {
    char st[32]; const void *q[] = {st + x % 32, g_static + x % 64, (void *)&do_foreignq, (void *)(x & 0x7ffffffff000ull & 0xfff), B.data()};
    for (auto p : q) {
        if (!p) continue;
        if ((uintptr_t)p < 4096 ) { if (!p) continue; }
        u64 a = h_malloc_object_size(p), f = fast_size(p);
        if (a != ~0ull || f != ~0ull) viol(7, "object size of a foreign pointer is %lu / %lu, want SIZE_MAX", a, f);
    }
    if (h_malloc_object_size(nullptr) || fast_size(nullptr) || h_malloc_usable_size(nullptr)) viol(7, "size query of null is not 0");
    // a freed large block is not owned any more
    for (auto &x2 : freed) if (!x2.second.small) { u64 a = h_malloc_object_size((void *)x2.first); if (a != ~0ull) viol(7, "object size of a freed large block is %lu, want SIZE_MAX", a); break; }
}

// ---------------------------------------------------------------- stats
static void do_stats_android() {
    if (h_mallinfo_narenas() != (size_t)CFG.narena + 1 || h_mallinfo_nbins() != (size_t)nclasses()) viol(30, "mallinfo_narenas %lu, mallinfo_nbins %lu", (u64)h_mallinfo_narenas(), (u64)h_mallinfo_nbins());
    auto zero = [](const struct mallinfo &m) { return !m.arena && !m.ordblks && !m.smblks && !m.hblks && !m.hblkhd && !m.usmblks && !m.fsmblks && !m.uordblks && !m.fordblks && !m.keepcost; };
    for (int a = 0; a < CFG.narena; a++) {
        u64 small = 0, lo = 0, hi = 0;
        for (int c = 0; c < nclasses(); c++) {
            auto g = cs.find({a, c}); struct mallinfo m = h_mallinfo_bin_info(a, c);
            if (g == cs.end()) { if (!zero(m)) viol(30, "mallinfo_bin_info: class %u of arena %d counted but never used", SC[c], a); continue; }
            auto &x = g->second; small += x.live * clssize(c); if (c) { lo += x.rw * slabsize(c); hi += x.rw * slabsize(c); } else { lo += (x.live + 255) / 256 * 4096; hi += x.zpages.size() * 4096; }
            if ((unsigned)m.ordblks != (unsigned)(x.live * clssize(c)) || (unsigned)m.uordblks != (unsigned)x.nm || (unsigned)m.fordblks != (unsigned)x.nd) viol(30, "mallinfo_bin_info class %u arena %d: allocated %u nmalloc %u ndalloc %u, real %lu %lu %lu", SC[c], a, m.ordblks, m.uordblks, m.fordblks, x.live * clssize(c), x.nm, x.nd);
        }
        struct mallinfo m = h_mallinfo_arena_info(a);
        if ((unsigned)m.fsmblks != (unsigned)small) viol(30, "mallinfo_arena_info of arena %d: small allocated %u, real %lu", a, m.fsmblks, small);
        if (hi < 1u << 30 && ((unsigned)m.hblkhd < lo || (unsigned)m.hblkhd > hi)) viol(30, "mallinfo_arena_info of arena %d: mapped %u, real %lu..%lu", a, m.hblkhd, lo, hi);
    }
    struct mallinfo m = h_mallinfo_arena_info(CFG.narena);
    if ((unsigned)m.hblkhd != (unsigned)live_large_bytes || (unsigned)m.uordblks != (unsigned)live_large_bytes) viol(30, "mallinfo_arena_info of the large arena: %u %u, real %lu", m.hblkhd, m.uordblks, live_large_bytes);
    if (!zero(h_mallinfo_arena_info(CFG.narena + 1)) || !zero(h_mallinfo_bin_info(0, nclasses())) || !zero(h_mallinfo_bin_info(CFG.narena, 1))) viol(30, "mallinfo of an arena or bin that does not exist is not zero");
}
static void do_stats() {
    if (!CFG.stats) return;
    S->cnt[N_STATS]++;
    struct mallinfo2 mi = h_mallinfo2();
    u64 want = live_large_bytes, mapped_min = live_large_bytes, mapped_max = live_large_bytes;
    for (auto &x : cs) { int c = x.first.second; want += x.second.live * clssize(c); if (c) { u64 m = x.second.rw * slabsize(c); mapped_min += m; mapped_max += m; } else { mapped_min += (x.second.live + 255) / 256 * 4096; mapped_max += x.second.zpages.size() * 4096; } }
    if (mi.uordblks != want) viol(30, "mallinfo2.uordblks %lu, live blocks sum to %lu", (u64)mi.uordblks, want);
    if ((mi.hblkhd < mapped_min || mi.hblkhd > mapped_max)) viol(30, "mallinfo2.hblkhd %lu, mapped for blocks %lu..%lu", (u64)mi.hblkhd, mapped_min, mapped_max);
    if (mi.fordblks != mi.hblkhd - mi.uordblks || mi.usmblks != mi.hblkhd) viol(30, "mallinfo2 totals inconsistent: hblkhd %lu uordblks %lu fordblks %lu usmblks %lu", (u64)mi.hblkhd, (u64)mi.uordblks, (u64)mi.fordblks, (u64)mi.usmblks);
    if (vp_android()) { do_stats_android(); return; }
    char *buf = nullptr; size_t len = 0; FILE *f = open_memstream(&buf, &len);
    if (h_malloc_info(0, f) != 0) viol(30, "malloc_info failed");
    fclose(f);
    // parse
    std::map<std::pair<int, int>, std::vector<u64>> got; u64 large = ~0ull; int heap = -1; int nheaps = 0;
    for (char *p = buf; (p = strchr(p, '<')); p++) {
        unsigned nr, sz; unsigned long a, b2, c2, d; 
        if (sscanf(p, "<heap nr=\"%u\">", &nr) == 1) { heap = nr; nheaps++; }
        else if (sscanf(p, "<bin nr=\"%u\" size=\"%u\"><nmalloc>%lu</nmalloc><ndalloc>%lu</ndalloc><slab_allocated>%lu</slab_allocated><allocated>%lu</allocated>", &nr, &sz, &a, &b2, &c2, &d) == 6) { if (nr >= (unsigned)nclasses() || SC[nr] != sz) viol(30, "malloc_info: bin %u has size %u", nr, sz); got[{heap, (int)nr}] = {a, b2, c2, d}; }
        else if (sscanf(p, "<allocated_large>%lu</allocated_large>", &a) == 1) large = a;
    }
    free(buf);
    if (large != live_large_bytes) viol(30, "malloc_info: allocated_large %lu, live large blocks sum to %lu", large, live_large_bytes);
    if (nheaps != CFG.narena + 1) viol(30, "malloc_info reports %d heaps", nheaps);
    for (auto &x : cs) {
        int c = x.first.second; auto g = got.find(x.first);
        if (g == got.end()) { if (x.second.nm || x.second.nd) viol(30, "malloc_info: class %u of arena %d missing", SC[c], x.first.first); continue; }
        auto &v = g->second;
        if (v[0] != x.second.nm || v[1] != x.second.nd) viol(30, "malloc_info class %u arena %d: nmalloc %lu ndalloc %lu, real %lu %lu", SC[c], x.first.first, v[0], v[1], x.second.nm, x.second.nd);
        if (v[3] != x.second.live * clssize(c)) viol(30, "malloc_info class %u: allocated %lu, real %lu", SC[c], v[3], x.second.live * clssize(c));
        if (c && v[2] != x.second.rw * slabsize(c)) viol(30, "malloc_info class %u: slab_allocated %lu, mapped slabs %lu", SC[c], v[2], x.second.rw * slabsize(c));
        if (!c && (v[2] % 4096 || v[2] < (x.second.live + 255) / 256 * 4096 || v[2] > x.second.zpages.size() * 4096)) viol(30, "malloc_info class 0: slab_allocated %lu", v[2]);
        got.erase(g);
    }
    for (auto &g : got) if (g.second[0] || g.second[1] || g.second[3]) viol(30, "malloc_info: class %u of arena %d counted but never used", SC[g.first.second], g.first.first);
}

static void do_trim() {
    u64 before = slab_id ? shim_rw_bytes(slab_id) : 0;
    op_begin(); static int ntrim; bool mo = vp_android() && ntrim++ % 2; int r = mo ? h_mallopt(-101, 0) : h_malloc_trim(0); op_end(); // M_PURGE of the Android build
    if (mo) { if (r != 1) viol(14, "mallopt(M_PURGE) returned %d", r); }
    if (vp_android() && ntrim % 3 == 0) { h_malloc_disable(); h_malloc_enable(); }
    slab_events(-1, 0, true);
    u64 after = slab_id ? shim_rw_bytes(slab_id) : 0;
    if (after < before) S->cnt[N_TRIMREL]++;
    if (!mo && (r != 0) != (after < before)) viol(20, "malloc_trim returned %d but %s memory", r, after < before ? "released" : "released no");
    if (faulted) return;
    for (auto &x : cs) {
        int c = x.first.second; if (!c) continue;
        u64 quar = std::min<u64>(x.second.frees, qR(c) + qQ(c)), empty = x.second.empty;
        if (empty > quar) { viol(20, "after malloc_trim %lu empty slabs of class %u stay mapped (at most %lu slots quarantined)", empty, SC[c], quar); viol(35, "after malloc_trim %lu empty slabs of class %u stay mapped", empty, SC[c]); }
    }
}

// ---------------------------------------------------------------- terminal ops
// The pointer a terminal op aims at; returns null when the state offers none.
static u8 *pick_bad(int kind, u32 h, u64 x, int *cls, bool *small) {
    *cls = -1; *small = false;
    auto nth_freed = [&](bool sm, bool purged) -> std::map<uintptr_t, Fr>::iterator {
        std::vector<std::map<uintptr_t, Fr>::iterator> v;
        for (auto it = freed.begin(); it != freed.end(); ++it) if (it->second.small == sm) { if (sm && purged) { uintptr_t s = slab_of(it->first); if (!s || slabs[s].rw) continue; } v.push_back(it); if (v.size() > 4000) break; }
        if (v.empty()) return freed.end();
        // prefer extremes as well: first, last, random
        return v[x % 5 == 0 ? 0 : x % 5 == 1 ? v.size() - 1 : x / 5 % v.size()];
    };
    switch (kind) {
    case B_FREED_SMALL: { auto it = nth_freed(true, false); if (it == freed.end()) return nullptr; *cls = it->second.cls; *small = true; return (u8 *)it->first; }
    case B_FREED_PURGED: { auto it = nth_freed(true, true); if (it == freed.end()) return nullptr; *cls = it->second.cls; *small = true; return (u8 *)it->first; }
    case B_FREED_LARGE: { auto it = nth_freed(false, false); if (it == freed.end()) return nullptr; return (u8 *)it->first; }
    case B_INTERIOR: case B_INTERIOR_ODD: {
        if (h >= B.size() || !B[h].live) return nullptr; Blk &b = B[h]; *cls = b.cls; *small = b.small;
        u64 w = b.small ? clssize(b.cls) : b.us; u64 k = kind == B_INTERIOR ? (x % ((w - 1) / 16 + 1)) * 16 : x % w; if (!k) k = w > 16 ? 16 : 8; if (k >= w) k = w - 1;
        if (!b.small && kind == B_INTERIOR && x % 3 == 0 && b.us > 8192) k = 4096 * (1 + x / 3 % (b.us / 4096 - 1));
        if (x / 7 % 2 == 0) { u64 k2 = special_offset(x / 21, w); if (kind == B_INTERIOR) k2 &= ~15ull; if (k2) k = k2; }
        return b.p + k; }
    case B_NEVER: { // never-used slot of an existing slab, padding, guard slab or unused slab space
        if (h >= B.size() || !B[h].live || !B[h].small) return nullptr; Blk &b = B[h]; *cls = b.cls; *small = true;
        u64 w = clssize(b.cls), ss = slabsize(b.cls); uintptr_t base = slab_of((uintptr_t)b.p); if (!base) base = (uintptr_t)b.p & ~4095ull;
        int how = x % 4; u64 y = x / 4;
        for (int t = 0; t < 64; t++, y = y * 0x9e3779b97f4a7c15ull + 1) {
            uintptr_t q = 0;
            if (how == 0) q = base + (y >> 8) % SLOTS[b.cls] * w;            // slot in this slab
            else if (how == 1) q = base + ss * (1 + (y >> 8) % 5) + (y >> 20) % SLOTS[b.cls] * w; // following slabs
            else if (how == 2) q = base + ss * (100 + (y >> 8) % 100000) + (y >> 30) % SLOTS[b.cls] * w;
            else q = base - ss * (1 + (y >> 8) % 3);
            if (live.count(q)) continue; if (freed.count(q)) continue;
            if (shim_id(q) != slab_id) continue;
            return (u8 *)q;
        }
        return nullptr; }
    case B_FOREIGN: { static char sbuf[256]; switch (x % 5) { case 0: return (u8 *)sbuf + (x / 5 % 16) * 16; case 1: return (u8 *)&S->msg[256]; case 2: { static void *m = malloc(64); return (u8 *)m; } case 3: return (u8 *)(0x10000 + (x & 0xfff0)); default: { static u8 *m = (u8 *)__real_mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return m + (x / 5 % 2) * 4096; } } }
    case B_GUARD: { if (h >= B.size() || !B[h].live || B[h].small) return nullptr; Blk &b = B[h]; return x & 1 ? b.p - 4096 : b.p + pgup(b.us); }
    case B_GAP: { // between or outside class regions inside the slab reservation
        if (!slab_id || exts.empty()) return nullptr; auto it = exts.begin(); std::advance(it, x % exts.size());
        u64 gran = 4096; uintptr_t q = x & 256 ? it->second.hi + CFG.region + (x >> 10) % (CFG.region / gran) * gran : it->second.lo - (1 + (x >> 10) % (CFG.region / gran)) * gran;
        q &= ~15ull; if (shim_id(q) != slab_id) return nullptr; if (live.count(q) || freed.count(q)) return nullptr;
        for (auto &e : exts) if (q >= e.second.lo && q < e.second.hi) return nullptr;
        return (u8 *)q; }
    case B_FREED_INTERIOR: { auto it = nth_freed(true, false); if (it == freed.end()) return nullptr; *cls = it->second.cls; *small = true; if (!it->second.us) return nullptr; u64 k = x / 7 % it->second.us; return (u8 *)it->first + k; }
    }
    return nullptr;
}
static void expect_death(int how) { S->expect = how; S->terminal = 1; S->cnt[N_TERMINAL]++; S->fatal[0] = 0; }

static bool in_ext(uintptr_t q) { for (auto &e : exts) if (q >= e.second.lo && q < e.second.hi) return true; return false; }
static void do_terminal(const Op &o) {
    int cls; bool small;
    shim_fault.count = 0;
    switch (o.k) {
    case T_BADFREE: {
        u8 *p = pick_bad(o.e, o.h, o.a, &cls, &small); if (!p || live.count((uintptr_t)p)) return;
        expect_death(EX_FATAL);
        if (o.b & 1) h_free_sized(p, cls > 0 ? SC[cls] - canary() : small ? 0 : o.c); else h_free(p);
        S->expect = EX_NONE; viol(9, "%s of an invalid pointer (kind %s, class %d) returned", o.b & 1 ? "free_sized" : "free", badname[o.e], cls < 0 ? -1 : (int)SC[cls]);
        return; }
    case T_BADQUERY: {
        u8 *p = pick_bad(o.e, o.h, o.a, &cls, &small); if (!p || live.count((uintptr_t)p)) return;
        bool objq = o.b & 1;
        if (objq && !(o.e == B_FREED_SMALL || o.e == B_FREED_PURGED || o.e == B_NEVER || o.e == B_FREED_INTERIOR)) objq = false;
        if (objq && o.e == B_NEVER) { // stay on real slots: never inside the padding (excluded by construction: slot-aligned)
        }
        expect_death(EX_FATAL);
        u64 r = objq ? h_malloc_object_size(p) : h_malloc_usable_size(p);
        S->expect = EX_NONE; viol(10, "%s of an invalid pointer (kind %s, class %d) returned %lu", objq ? "malloc_object_size" : "malloc_usable_size", badname[o.e], cls < 0 ? -1 : (int)SC[cls], r);
        return; }
    case T_BADREALLOC: {
        u8 *p = pick_bad(o.e, o.h, o.a, &cls, &small); if (!p || live.count((uintptr_t)p)) return;
        u64 sz = o.c; // must need to move: pick a size of a different class
        if (small || o.e == B_GAP) { u64 us = cls >= 0 ? (is_small_req(sz, 1) ? (sz ? SC[cls_for(sz + canary())] : 0) : 1) : 1; if (cls >= 0 && us == SC[cls]) sz = cls ? 0 : 100; if (o.e == B_GAP || (o.e == B_NEVER && !in_ext((uintptr_t)p))) sz = large_size(maxsmall() + 1); } // may lie in another class's region: always a move
        expect_death(EX_ANYDEATH);
        void *r = h_realloc(p, sz);
        S->expect = EX_NONE; viol(10, "realloc(%lu) of an invalid pointer (kind %s, class %d) returned %p", sz, badname[o.e], cls < 0 ? -1 : (int)SC[cls], r);
        return; }
    case T_SIZEDMIS: {
        if (o.h >= B.size() || !B[o.h].live || B[o.h].canbad) return; Blk &b = B[o.h];
        u64 n = o.c; // must be of another class
        if (b.small) { if (is_small_req(n, 1) && (n ? SC[cls_for(n + canary())] : 0) == SC[b.cls]) n = o.a; if (is_small_req(n, 1) && (n ? SC[cls_for(n + canary())] : 0) == SC[b.cls]) return; }
        else { u64 want = b.us; u64 adj = n && n <= maxsmall() ? n + canary() : n; if (large_size(adj) == want || large_size(n) == want) return; }
        expect_death(EX_FATAL);
        h_free_sized(b.p, n);
        S->expect = EX_NONE; viol(11, "free_sized(%lu) of a block of usable size %lu (%s) returned", n, b.us, b.small ? "small" : "large");
        return; }
    case T_CANARY: {
        if (!CFG.canary || o.h >= B.size() || !B[o.h].live || !B[o.h].small || !B[o.h].us) return; Blk &b = B[o.h];
        u64 k = o.a % 8; u8 x = o.b % 255 + 1;
        verify_all(12, "before writing a canary");
        b.p[b.us + k] ^= x; 
        verify_all(12, "after writing a canary byte of another block"); // the canary belongs to no live block
        S->cnt[N_CANWR]++;
        expect_death(EX_FATAL);
        const char *what;
        switch (o.e % 4) { case 0: what = "free"; h_free(b.p); break; case 1: what = "malloc_usable_size"; h_malloc_usable_size(b.p); break;
        case 2: { what = "moving realloc"; u64 n = b.cls + 1 < nclasses() ? SC[b.cls + 1] - canary() : 16; (void)!h_realloc(b.p, o.c & 1 ? 300000 : n); break; }
        default: what = "free_sized"; if (!b.sizedok) h_free(b.p); else h_free_sized(b.p, b.req); }
        S->expect = EX_NONE; viol(12, "class %u: changed canary byte %lu (xor %#x) not detected by %s", SC[b.cls], k, x, what);
        return; }
    case T_WAF: {
        if (!CFG.waf) return;
        // o.h: a live block; free it, dirty one byte, then churn its class until it comes back
        if (o.h >= B.size() || !B[o.h].live || !B[o.h].small || !B[o.h].us) return;
        Blk b = B[o.h]; do_free(o.h, F_FREE);
        uintptr_t a = (uintptr_t)b.p;
        if (shim_prot(a) != 3 || shim_prot(a + b.us - 1) != 3) return;
        u64 k = o.a % 4 == 0 ? b.us - 1 : o.a % 4 == 1 ? 0 : o.a / 4 % b.us; b.p[k] ^= (u8)(o.b % 255 + 1);
        freed[a].dirty = true; S->expect = EX_FATAL; S->terminal = 0;
        // allocate and free in this class; each allocation is checked by the model for handing out the dirtied slot
        u32 base = B.size(); u64 lim = (qR(b.cls) * 6 + qQ(b.cls) + 600 + SLOTS[b.cls] * 4); B.resize(base + lim + 64);
        u64 keep = o.c % 4 == 0 ? SLOTS[b.cls] : o.c % 9;
        Rng rw(o.c ^ 0x3a); u64 rlo = b.cls > 1 ? SC[b.cls - 1] - canary() + 1 : 1; int style = rw.below(3); // exact size, smallest of the class, mixed
        for (u64 i = 0; i < lim; i++) {
            if (freed.find(a) == freed.end() || !freed[a].dirty) break;
            S->expect = EX_FATAL; S->fatal[0] = 0;
            u64 n = style == 0 ? b.us : style == 1 ? rlo : rw.range(rlo, b.us); int en = rw.below(4), ret;
            u8 *p = (u8 *)(en == 1 ? h_calloc(1, n) : en == 2 ? h_realloc(nullptr, n) : en == 3 ? call_alloc(E_ALIGNED, n, 16, 1, &ret) : h_malloc(n));
            S->expect = EX_NONE;
            if (!p) break;
            if (p == b.p) S->cnt[N_WAFREUSE]++;
            register_block(base + i, p, n, 1, en == 1 ? E_CALLOC : E_MALLOC, true, 0, 0);
            B[base + i].tag = 0;
            if (i >= keep) { Blk &q = B[base + i - keep]; h_free(q.p); release_model(base + i - keep, false); slab_events(-1, 0, false); }
        }
        S->expect = EX_NONE;
        for (u64 i = base; i < B.size(); i++) if (B[i].live) { h_free(B[i].p); release_model(i, false); slab_events(-1, 0, false); }
        return; }
    }
}

// ---------------------------------------------------------------- other ops
static void do_churn(const Op &o) {
    u32 base = B.size(); u64 n = o.b, keep = o.c; B.resize(base + keep + 1);
    if (is_small_req(o.a, 1) && o.a) {}
    std::vector<u32> ring; u64 pos = 0; (void)pos;
    for (u64 i = 0; i < n; i++) {
        u32 h = base + i % (keep + 1);
        if (B[h].live) { do_free(h, F_FREE, true); }
        do_alloc(h, o.e, o.a, 64, 1);
    }
    for (u64 i = 0; i <= keep; i++) do_free(base + i, F_FREE, true);
}
static void do_lchurn(const Op &o) {
    // allocate and free large blocks one after another: nothing may accumulate
    u32 base = B.size(); B.resize(base + 1);
    u64 nonslab0 = 0;
    auto other = [&]() { u64 t = 0; struct A { u64 *t; } a{&t}; shim_foreach([](uintptr_t lo, uintptr_t hi, int pr, u64 id, void *x) { if (pr == 3 && id != slab_id) *((A *)x)->t += hi - lo; }, &a); return t; };
    for (u64 i = 0; i < o.b; i++) {
        if (!do_alloc(base, o.e, o.a, 8192, 1)) continue;
        if (o.c) { do_realloc(base, o.c); if (i % 3 == 2 && B[base].live && !B[base].canbad) do_realloc(base, o.a); }
        do_free(base, F_FREE, true);
        if (i == 3) nonslab0 = other();
    }
    if (o.b > 3 && nonslab0 && !faulted) { u64 e = other(); if (e > nonslab0) viol(35, "writable allocator memory grew from %lu to %lu bytes while one large block was allocated and freed %lu times", nonslab0, e, o.b); }
}
static void order(std::vector<u32> &v, int mode, u64 s) {
    if (mode == 1) std::reverse(v.begin(), v.end());
    else if (mode == 2) { Rng r(s); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
    else if (mode == 3) { std::vector<u32> w; for (size_t k = 0; k < 2; k++) for (size_t i = k; i < v.size(); i += 2) w.push_back(v[i]); v = w; }
    else if (mode == 4) { // free all but every k-th
        std::vector<u32> w; u64 k = s % 7 + 2; for (size_t i = 0; i < v.size(); i++) if (i % k) w.push_back(v[i]); v = w; }
}

// ---------------------------------------------------------------- sealing, forks, parallel phases
static void seal_state(const char *when) {
    int r = shim_pkey_rights(); if (r == -1) return;
    __atomic_add_fetch(&S->cnt[N_RET], 1, __ATOMIC_RELAXED);
    if (!(r & 1)) viol(23, "%s left this thread with access to the allocator state (rights %d)", when, r);
}
static void on_api_exit(const char *fn) { seal_state(fn); }
// every writable mapping that holds no user blocks carries the state's protection key
static void seal_pages() {
    if (!lab(23) || shim_pkey == -1 || faulted) return; // after a failed unmapping a freed large block may stay mapped
    struct A { u64 bad; int pk; } a{0, 0};
    std::vector<std::pair<uintptr_t, uintptr_t>> v;
    shim_foreach([](uintptr_t lo, uintptr_t hi, int pr, u64 id, void *x) { if (pr == 3 && id != slab_id) ((std::vector<std::pair<uintptr_t, uintptr_t>> *)x)->push_back({lo, hi}); }, &v);
    for (auto &x : v) {
        auto l = largelo.upper_bound(x.first); if (l != largelo.begin() && std::prev(l)->second > x.first) continue; // a live large block
        if (l != largelo.end() && l->first < x.second) continue;
        int k = shim_pkey_of(x.first); if (k != shim_pkey) viol(23, "writable allocator state at %#lx..%#lx has protection key %d, the sealing key is %d", x.first, x.second, k, shim_pkey);
    }
}
static const std::vector<Op> *g_ops; static bool in_fork; static int nstarted; static void exec_op(const Op &o);
static u64 case_seed; static u64 nforks;
static void do_fork(const Op &o) {
    if (in_fork) return;
    S->cnt[N_FORK]++; nforks++;
    verify_all(1, "before fork");
    pid_t pid = fork();
    seal_state(pid ? "fork (parent)" : "fork (child)");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60); in_fork = true; if (memfd >= 0) close(memfd); memfd = open("/proc/self/mem", O_RDONLY);
        shim_seed(mix(case_seed, nforks * 77 + 5));
        verify_all(28, "in a forked child");
        for (auto &x : live) { Blk &b = B[x.second]; if (!b.canbad && h_malloc_usable_size(b.p) != b.us) viol(28, "usable size of a block differs in the forked child"); }
        int at = S->opidx; for (u64 k = 1; k <= o.a && at + k < g_ops->size(); k++) { const Op &n = (*g_ops)[at + k]; if (n.k == O_FORK || n.k == O_THREAD || n.k == O_FAULT || n.k == O_PAR || n.k >= T_BADFREE) continue; S->opidx = at + k; exec_op(n); shim_fault.count = 0; }
        verify_all(28, "at the end of a forked child");
        do_stats(); Op f{O_FREEALL, (int)(o.c % 3), 0, 0, 0, o.c}; exec_op(f); do_stats();
        _exit(0);
    }
    if (pid < 0) return;
    int at = S->opidx; int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->state == 2) _exit(2);
    if (WIFSIGNALED(st)) { S->aborted = 0; viol(0, "a forked child %s", WTERMSIG(st) == SIGALRM ? "made no progress for 60 s (deadlock)" : WTERMSIG(st) == SIGKILL ? (_exit(3), "") : "crashed"); }
    if (WEXITSTATUS(st)) viol(0, "a forked child was aborted: %s", S->fatal);
    S->opidx = at;
    verify_all(28, "in the parent after fork");
}
struct ParT { pthread_t t; u64 seed; int n; const char *err; };
static void *par_main(void *x) {
    ParT &t = *(ParT *)x; Rng r(t.seed); struct P { u8 *p; u64 n; u8 v; }; P v[24]; memset(v, 0, sizeof v);
    auto chk = [&](P &q) { for (u64 i = 0; i < q.n; i += i < 64 || q.n - i < 66 ? 1 : 61) if (q.p[i] != q.v) { t.err = "block contents changed"; return; } };
    for (int i = 0; i < t.n && !t.err; i++) {
        P &q = v[r.below(24)]; u64 sz = r.chance(90) ? r.below(r.chance(50) ? 200 : 5000) : r.chance(80) ? r.below(200000) : 140000 + r.below(3000000);
        u64 c = r.below(100);
        if (!q.p) { q.p = (u8 *)(c < 70 ? h_malloc(sz) : c < 85 ? h_calloc(1, sz) : h_aligned_alloc(1ull << r.below(14), sz)); q.n = sz; q.v = r.next(); if (!q.p) { if (sz < 4000000 && CFG.region > (1 << 30)) t.err = "allocation refused"; q.n = 0; continue; } memset(q.p, q.v, q.n); }
        else if (c < 55) { chk(q); if (c < 30) h_free(q.p); else h_free(q.p); q.p = nullptr; }
        else if (c < 80) { chk(q); u8 *p = (u8 *)h_realloc(q.p, sz); if (!p) continue; u64 m = std::min(sz, q.n); q.p = p; u64 o = q.n; q.n = m; chk(q); q.n = sz; memset(p, q.v, sz); (void)o; }
        else if (c < 92) { h_malloc_usable_size(q.p); h_malloc_object_size(q.p); }
        else if (c < 95) h_malloc_trim(0);
        else if (c < 97 && CFG.stats) (void)h_mallinfo2();
        else chk(q);
    }
    for (auto &q : v) if (q.p) { chk(q); h_free(q.p); }
    return nullptr;
}
static void do_par(const Op &o) { // the rest of the history is not modelled exactly any more
    if (in_fork) return;
    faulted = unmodelled = true; shim_fault.count = 0; shim_events_clear(); shim_rec = false;
    std::vector<ParT> t(o.a); S->cnt[N_THREADS] += o.a;
    for (size_t i = 0; i < t.size(); i++) { t[i] = ParT{0, mix(o.c, i), (int)o.b, nullptr}; pthread_create(&t[i].t, nullptr, par_main, &t[i]); }
    for (auto &x : t) pthread_join(x.t, nullptr);
    for (auto &x : t) if (x.err) BROKEN("parallel phase: %s", x.err);
    nstarted += o.a; shim_rec = true; shim_events_clear();
    verify_all(1, "after a parallel phase");
}
static u64 info_seed; static u64 info_calls;
static ssize_t info_write(void *, const char *b, size_t n) { // the stream allocates while malloc_info runs
    int sv = vp_api; vp_api = 0; Rng r(mix(info_seed, info_calls++)); void *p[3];
    for (auto &q : p) q = h_malloc(r.below(r.chance(80) ? 3000 : 300000)); for (auto &q : p) h_free(q);
    vp_api = sv; return n;
}
static void do_info(const Op &o) {
    static int done; info_seed = o.a; if (done++ > 6) return;
    shim_fault.count = 0; u64 c0 = info_calls;
    cookie_io_functions_t io = {}; io.write = info_write; FILE *f = fopencookie(nullptr, "w", io); if (!f) return;
    if (o.a & 1) setvbuf(f, nullptr, _IONBF, 0);
    if (h_malloc_info(0, f)) viol(23, "malloc_info failed"); fclose(f); shim_events_clear(); if (info_calls == c0) return;
    faulted = unmodelled = true; // the blocks made by the stream are not in the model
}

static int tarena0();
static void exec_op(const Op &o) {
    switch (o.k) {
    case O_ALLOC: do_alloc(o.h, o.e, o.a, o.b, o.c); break;
    case O_FREE: do_free(o.h, o.e); break;
    case O_REALLOC: do_realloc(o.h, o.a); break;
    case O_REFILL: if (o.h < B.size() && B[o.h].live && B[o.h].us) { verify_block(o.h, 1, "before rewriting"); fill(B[o.h]); } break;
    case O_VERIFY: verify_all(1, "verification"); break;
    case O_QUERY: do_query(o.h, o.a); break;
    case O_TRIM: do_trim(); break;
    case O_STATS: do_stats(); break;
    case O_BURST: for (u64 i = 0; i < o.b; i++) do_alloc(o.h + i, o.e, o.a, o.c, 1); break;
    case O_EXHAUST: { u64 i = 0; for (; i < o.b; i++) if (!do_alloc(o.h + i, o.e, o.a, o.c, 1)) break; break; }
    case O_FREERANGE: { std::vector<u32> v; for (u64 i = 0; i < o.a; i++) if (o.h + i < B.size() && B[o.h + i].live) v.push_back(o.h + i); order(v, o.e, o.b); for (u32 h : v) do_free(h, F_FREE, v.size() > 64); break; }
    case O_FREEALL: { std::vector<u32> v; for (auto &x : live) v.push_back(x.second); order(v, o.e, o.c); for (u32 h : v) do_free(h, F_FREE, v.size() > 64); break; }
    case O_CHURN: do_churn(o); break;
    case O_LCHURN: do_lchurn(o); break;
    case O_SIZES: { // sweep of requests, each allocated and freed at once
        u32 base = B.size(); B.resize(base + 1); for (u64 i = 0; i < o.b; i++) { u64 n = o.a + i * o.c; do_alloc(base, o.e, n, 16, 1); if (B[base].live) { Blk &b = B[base]; (void)b; do_free(base, i & 1 ? F_SIZED : F_FREE, true); } } break; }
    case O_HUGE: { // impossible: must fail with ENOMEM
        int ret; u64 align = o.c ? o.c : 16; if (o.e == E_POSIX && align < 8) align = 8; errno = 0; S->cnt[N_HUGE]++; op_begin();
        void *p;
        if (o.e == E_REALLOC1) { if (o.h >= B.size() || !B[o.h].live || B[o.h].canbad) { op_end(); break; } p = h_realloc(B[o.h].p, o.a); ret = errno; }
        else if (o.e == E_CALLOC) { p = h_calloc(o.b, o.a); ret = errno; }
        else { p = call_alloc(o.e, o.a, align, 1, &ret); if (o.e != E_POSIX) ret = errno; }
        op_end(); shim_events_clear();
        if (p) viol(5, "impossible request (entry %d, %lu x %lu, align %lu) returned %p", o.e, o.a, o.b, align, p);
        if (p) BROKEN("impossible request succeeded");
        if (ret != ENOMEM) viol(5, "impossible request (entry %d, %lu x %lu, align %lu): error %d, want ENOMEM", o.e, o.a, o.b, align, ret);
        if (o.e == E_REALLOC1) { u64 us = h_malloc_usable_size(B[o.h].p); if (us != B[o.h].us) viol(3, "failed realloc changed the block"); verify_block(o.h, lab(3) ? 3 : 5, "after a failed realloc"); }
        break; }
    case O_BADALIGN: { S->cnt[N_BADAL]++; int ret; errno = 0; void *p = call_alloc(o.e, o.a, o.b, 1, &ret); if (o.e != E_POSIX) ret = errno; if (p) viol(2, "alignment %lu accepted by entry %d", o.b, o.e); if (ret != EINVAL) viol(2, "alignment %lu (entry %d): error %d, want EINVAL", o.b, o.e, ret); shim_events_clear(); break; }
    case O_NULLOPS: { u64 c0 = shim_calls; int e0 = 33; errno = e0; h_free(nullptr); h_cfree(nullptr); h_free_sized(nullptr, o.a); if (errno != e0) viol(36, "free of null changed errno"); if (shim_calls != c0) viol(36, "free of null made system calls"); { u64 c1 = shim_calls; int prm = (int)(o.a >> 3 & 15) - 9; if (h_mallopt(prm, (int)o.b) != 0 || shim_calls != c1) viol(14, "mallopt(%d) did something", prm); } break; }
    case O_FAULT: shim_fault.skip = o.a; shim_fault.count = o.b; shim_fault.mask = o.e; shim_fault.err = o.c & 0xff; shim_fault.period = o.c >> 8; break;
    case O_FOREIGNQ: do_foreignq(o.a); break;
    case O_CANWRITE: { // absorb: write the canary, check everybody, restore
        if (!CFG.canary || o.h >= B.size() || !B[o.h].live || !B[o.h].small || !B[o.h].us) break; Blk &b = B[o.h]; u8 save[8]; memcpy(save, b.p + b.us, 8); memset(b.p + b.us, (int)o.a | 1, 8); neighbours_check((uintptr_t)b.p, 12, "after an overflow of up to 8 bytes"); 
        if (shim_prot((uintptr_t)b.p + b.us + 7) != 3) viol(12, "canary not mapped"); memcpy(b.p + b.us, save, 8); S->cnt[N_CANWR]++; break; }
    case O_FORK: do_fork(o); break;
    case O_PAR: do_par(o); break;
    case O_INFO: do_info(o); break;
    case O_DRAIN: { // every freed slot of the class comes back after enough frees
        break; }
    default: if (o.k >= T_BADFREE) do_terminal(o);
    }
}

// after failures: allocate in every class that released slabs until all of them must have been taken again
static void refill() {
    cur_arena = tarena0();
    for (auto &x : cs) {
        int c = x.first.second; if (c < 1 || x.first.first != cur_arena || x.second.purged.empty()) continue;
        u64 n = (x.second.purged.size() + x.second.rw + 1) * SLOTS[c] + 1; if (n > 4000 || n * SC[c] > (24u << 20)) continue;
        u32 base = B.size(); B.resize(base + n); u64 seen = x.second.seen;
        for (u64 i = 0; i < n && cs[x.first].seen == seen; i++) do_alloc(base + i, E_MALLOC, SC[c] - canary(), 1, 1);
        for (u64 i = 0; i < n; i++) do_free(base + i, F_FREE, true);
    }
}

// ---------------------------------------------------------------- actor threads
static const int MAXT = 9;
static sem_t tgo[MAXT], tdone; static const Op *tjob; static bool tstarted[MAXT]; static int tarena[MAXT];
static int tarena0() { return tarena[0]; }
static void *actor(void *x) { long t = (long)x; for (;;) { while (sem_wait(&tgo[t])) {} exec_op(*tjob); sem_post(&tdone); } return nullptr; }
static void run_on(int t, const Op &o) {
    if (t == 0) { cur_arena = tarena[0]; exec_op(o); return; }
    if (!tstarted[t]) { sem_init(&tgo[t], 0, 0); pthread_t th; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); pthread_create(&th, &at, actor, (void *)(long)t); }
    auto job = [&](const Op &j) { tjob = &j; sem_post(&tgo[t]); while (sem_wait(&tdone)) {} };
    if (!tstarted[t]) {
        tstarted[t] = true; tarena[t] = nstarted++ % CFG.narena; cur_arena = tarena[t];
        B.resize(B.size() + 1); Op a{O_ALLOC, E_MALLOC, (u32)B.size() - 1, 16, 1, 1}; job(a);
    }
    cur_arena = tarena[t]; S->cnt[N_THREADS]++;
    job(o);
}

// ---------------------------------------------------------------- child
static u64 fault_base;
static void run_case(const std::vector<Op> &ops, u32 nh, bool threads, bool count_calls) {
    shim_seed(case_seed); shim_prctl_mode = case_seed >> 20 & 1 ? 1 : case_seed >> 21 & 1 ? 2 : 0; shim_pkey_fail = CFG.seal && !lab(23) && mix(case_seed, 5) % 4 == 0; shim_unmap_hook = on_unmap; shim_rec = true; shim_fatal_buf = S->fatal; shim_fatal_cap = sizeof S->fatal; shim_aborted = &S->aborted;
    memfd = open("/proc/self/mem", O_RDONLY); g_ops = &ops;
    if (lab(23)) vp_exit_hook = on_api_exit;
    if (P->par_pct) shim_threads = true;
    if (lab(31)) { vp_bad_syscall = [](const char *m) { viol(31, "%s", m); }; if (!vp_trap_syscalls()) _exit(3); }
    for (auto &o : ops) if (o.k == O_BURST && o.b * o.a > (1ull << 30)) sparse = true;
    B.clear(); B.reserve(nh + 70000); B.resize(nh + 1);
    // generator handles are 0..nh-1; the anchor block initialises the allocator (unless the history starts with a fault)
    u64 c0 = shim_calls;
    S->opidx = -1;
    if (ops.empty() || ops[0].k != O_FAULT || ops[0].h != 1) { do_alloc(nh, E_MALLOC, 16, 1, 1); nstarted = 1; tstarted[0] = true; }
    S->initcalls = shim_calls - c0;
    sem_init(&tdone, 0, 0);
    int t = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        S->opidx = i; S->opk = ops[i].k; c0 = shim_calls;
        bool fatalfault = shim_fault.count > 0 && shim_fault.err != ENOMEM; // set by the previous O_FAULT
        if (ops[i].k == O_THREAD) { t = threads ? ops[i].a % MAXT : 0; continue; }
        if (ops[i].k == O_FAULT) { exec_op(ops[i]); continue; }
        u64 f0 = shim_fired;
        if (fatalfault) { S->expect = EX_FATAL; S->terminal = 0; fault_base = f0; shim_abort_hook = [] { if (shim_fired == fault_base) S->expect = EX_NONE; }; } else shim_abort_hook = nullptr;
        if (threads) run_on(t, ops[i]); else exec_op(ops[i]);
        if (fatalfault) { S->expect = EX_NONE; if (shim_fired != f0) viol(27, "the allocator continued after a system call (kind mask %#lx) failed with errno %d", shim_fired_kinds, ops[i ? i - 1 : 0].c & 0xff ? (int)(ops[i - 1].c & 0xff) : 0); }
        shim_fault.count = 0; seal_pages(); if (shim_prctl_bad[0]) viol(31, "%s", shim_prctl_bad);
        if (count_calls && i < 4096) S->opcalls[i] = shim_calls - c0;
        if (S->terminal && ops[i].k >= T_BADFREE) break;
    }
    S->opidx = ops.size(); if (shim_prctl_bad[0]) viol(31, "%s", shim_prctl_bad);
    cur_arena = tarena[0];
    verify_all(faulted && lab(26) ? 26 : 1, "final verification");
    if (lab(26) && faulted) {
        // everything still works: usable sizes, realloc of every block, free of every block, invalid frees detected by the terminal op if any
        for (auto &x : live) { Blk &b = B[x.second]; if (!b.canbad) { u64 us = h_malloc_usable_size(b.p); if (us != b.us) viol(26, "usable size of a block changed after a failed system call"); } }
    }
    if (P->final_free) {
        Op f{O_FREEALL, (int)(case_seed % 3), 0, 0, 0, case_seed}; exec_op(f);
        if (lab(26) || lab(35)) { // what remains is what the quarantine may hold, and what the system refused to unmap
            u64 n = faulted ? shim_reservations_due() : shim_reservations(), q = CFG.rrand + CFG.rqueue; if (!unmodelled) q = std::min(q, nrel);
            if (base_ids && n > base_ids + q) viol(lab(35) ? 35 : 26, "%lu large mappings remain after everything was freed (%lu quarantined releases, region quarantine %ld+%ld)%s", n - base_ids, nrel, CFG.rrand, CFG.rqueue, faulted ? " after a failed system call" : "");
        }
        if (!faulted && lab(35)) {
            do_trim();
        }
        if (lab(26) && faulted) refill();
        do_stats();
    }
    for (u64 x : vp_syscalls_seen) S->cnt[N_SYS] += x;
    S->state = 1;
}

struct Result { int verdict; std::string label, msg; int opidx; bool terminal; }; // verdict: 0 ok, 1 violation, 2 inconclusive
static const char *sigstr(int s) { return strsignal(s); }
static Result run_child(const std::vector<Op> &ops, u32 nh, bool threads, u64 seed, bool count_calls = false) {
    memset((void *)S, 0, sizeof *S);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {(rlim_t)(P->thorough ? 120 : 60), (rlim_t)(P->thorough ? 125 : 65)}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, SIG_DFL); alarm(60);
        case_seed = seed; run_case(ops, nh, threads, count_calls); _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r{0, "", "", S->opidx, S->terminal != 0};
    if (S->state == 2) { r.verdict = 1; r.label = S->label; r.msg = S->msg; return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->state == 1) return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && S->aborted) {
        bool msgok = strncmp(S->fatal, "fatal allocator error: ", 23) == 0;
        if (S->expect != EX_NONE) { if (msgok) { r.terminal = true; return r; } r.verdict = 1; r.label = "CRASH"; r.msg = std::string("abort without a fatal allocator error message: ") + S->fatal; return r; }
        r.verdict = 1; r.label = "CRASH"; r.msg = std::string("a correct program was aborted: ") + S->fatal; while (!r.msg.empty() && r.msg.back() == '\n') r.msg.pop_back(); return r;
    }
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM || s == SIGXCPU || (s == SIGKILL)) {
            if (s == SIGKILL) { r.verdict = 2; r.msg = "killed"; return r; }
            r.verdict = 1; r.label = "HANG"; r.msg = s == SIGALRM ? "deadlock: no progress for 60 s" : "endless loop: CPU limit exceeded"; return r; }
        if (S->expect == EX_ANYDEATH && (s == SIGSEGV || s == SIGBUS)) { r.terminal = true; return r; }
        r.verdict = 1; r.label = "CRASH"; r.msg = std::string(S->expect == EX_FATAL ? "misuse ended in a crash instead of a fatal allocator error: " : "crash: ") + sigstr(s); return r;
    }
    r.verdict = 2; r.msg = "child ended with status " + std::to_string(st); return r;
}

// ---------------------------------------------------------------- driver side
static std::string opstr(const Op &o) { char b[200]; snprintf(b, sizeof b, "%s e=%d h=%u a=%lu b=%lu c=%lu", opname[o.k], o.e, o.h, o.a, o.b, o.c); return b; }
static void write_replay(const char *path, const char *prop, const std::vector<Op> &ops, u32 nh, bool threads, u64 seed, const Result &r) {
    FILE *f = fopen(path, "w"); if (!f) return;
    fprintf(f, "# replay: python3 check.py %s --replay <this file>\nengine hist\nproperty %s\nconfig %s\nseed %lu\nhandles %u\nthreads %d\n# %s: %s (op %d)\n", prop, prop, CFG.name, seed, nh, threads, r.label.c_str(), r.msg.c_str(), r.opidx);
    for (auto &o : ops) fprintf(f, "op %d %d %u %lu %lu %lu # %s\n", o.k, o.e, o.h, o.a, o.b, o.c, opstr(o).c_str());
    fclose(f);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<Op> shrink(std::vector<Op> ops, u32 nh, bool threads, u64 seed, Result &res) {
    double end = now() + 40; std::string lbl = res.label;
    auto sig = [](const std::string &m) { std::string o; for (char ch : m) if (!isdigit((unsigned char)ch)) o += ch; return o; };
    std::string want = sig(res.msg);
    auto fails = [&](const std::vector<Op> &c) { Result r = run_child(c, nh, threads, seed); if (r.verdict == 1 && r.label == lbl && sig(r.msg) == want) { res = r; return true; } return false; };
    if (lbl == "HANG") return ops;
    if (res.opidx >= 0 && res.opidx + 1 < (int)ops.size()) { std::vector<Op> c(ops.begin(), ops.begin() + res.opidx + 1); if (fails(c)) ops = c; }
    size_t n = 2;
    while (ops.size() >= 2 && now() < end) {
        size_t chunk = (ops.size() + n - 1) / n; bool red = false;
        for (size_t i = 0; i < ops.size() && now() < end; i += chunk) {
            std::vector<Op> c(ops.begin(), ops.begin() + i); c.insert(c.end(), ops.begin() + std::min(ops.size(), i + chunk), ops.end());
            if (fails(c)) { ops = c; n = std::max<size_t>(n - 1, 2); red = true; break; }
        }
        if (!red) { if (chunk == 1) break; n = std::min(ops.size(), n * 2); }
    }
    if (ops.size() == 1 && now() < end) { std::vector<Op> c; if (fails(c)) return c; }
    for (size_t i = 0; i < ops.size() && now() < end; i++)
        for (int fld = 0; fld < 2; fld++) {
            u64 Op::*m = fld ? &Op::b : &Op::a;
            int k = ops[i].k;
            if (k == O_BADALIGN || k == O_HUGE || k == O_THREAD || k >= T_BADFREE || (k == O_FAULT && fld)) continue;
            for (int it = 0; it < 24 && ops[i].*m > 1 && now() < end; it++) { std::vector<Op> c = ops; u64 v = c[i].*m; c[i].*m = it % 2 && !(k == O_ALLOC && fld) ? v - 1 : v / 2; if (fails(c)) ops = c; else if (it % 2) break; }
        }
    return ops;
}

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("VP_PERS")) { setenv("VP_PERS", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::string prop, replay, out, hashes, evsample; u64 seed = 1, cases = 100, start = 0, stride = 1; int thorough = 0; double budget = 1e9; bool dump = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(v().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(v().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(v().c_str(), 0, 10); else if (a == "--replay") replay = v();
        else if (a == "--out") out = v(); else if (a == "--hashes") hashes = v(); else if (a == "--thorough") thorough = 1; else if (a == "--budget") budget = atof(v().c_str()); else if (a == "--dump") dump = true;
    }
    S = (Shared *)__real_mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static Prof prof; prof = get_profile(prop.c_str()); prof.thorough = thorough; P = &prof; g_labels = prof.labels; curC = prof.id;
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
        char line[600]; std::vector<Op> ops; u64 sd = 0; unsigned nh = 0; int th = 0;
        while (fgets(line, sizeof line, f)) { Op o{}; unsigned long x; if (sscanf(line, "op %d %d %u %lu %lu %lu", &o.k, &o.e, &o.h, &o.a, &o.b, &o.c) == 6) ops.push_back(o); else if (sscanf(line, "seed %lu", &x) == 1) sd = x; else if (sscanf(line, "handles %u", &nh) == 1) {} else sscanf(line, "threads %d", &th); }
        fclose(f);
        Result r = run_child(ops, nh, th, sd);
        printf("%d %s %s (op %d)\n", r.verdict, r.label.c_str(), r.msg.c_str(), r.opidx);
        return r.verdict;
    }
    u64 ran = 0, nontriv = 0, inconc = 0, opsrun = 0, execs = 0; u64 tot[64] = {0}; u64 kinds[O_MAX] = {0};
    FILE *hf = hashes.empty() ? nullptr : fopen(hashes.c_str(), "wb");
    std::vector<std::string> samples; double t0 = now(); int rc = 0; std::string vmsg;
    auto account = [&](const std::vector<Op> &ops, u64 extra, const Result &r) {
        execs++; for (int k = 0; k < 64; k++) tot[k] += S->cnt[k];
        bool nt = prof.nontrivial(S->cnt, r.terminal);
        if (nt) { nontriv++; u64 hsh = extra; for (auto &o : ops) hsh = mix(hsh, mix(o.k * 131 + o.e, mix(o.h, mix(o.a, mix(o.b, o.c))))); if (hf) fwrite(&hsh, 8, 1, hf);
            if (samples.size() < 2 && ops.size() < 30) { std::string s; for (auto &o : ops) { s += opstr(o) + "; "; if (s.size() > 1200) break; } samples.push_back(s); } }
        return nt;
    };
    auto report = [&](const std::vector<Op> &ops0, u32 nh, bool threads, u64 cseed, Result r) {
        int again = 0; for (int k = 0; k < 3; k++) { Result q = run_child(ops0, nh, threads, cseed); if (q.verdict == 1 && q.label == r.label) again++; if (r.label == "HANG") break; }
        if (again < (r.label == "HANG" ? 1 : 3)) { inconc++; return false; }
        std::vector<Op> ops = shrink(ops0, nh, threads, cseed, r);
        if (!out.empty()) write_replay((out + ".replay").c_str(), prop.c_str(), ops, nh, threads, cseed, r);
        vmsg = r.label + ": " + r.msg; rc = 1; return true;
    };
    for (u64 i = start; i < start + cases * stride && !rc; i += stride) {
        if (now() - t0 > budget) break;
        u64 cseed = mix(mix(seed, i), 0xabc0 + prof.id);
        Gen g(prof, cseed); g.run();
        if (dump) { for (auto &o : g.ops) printf("%s\n", opstr(o).c_str()); printf("--\n"); }
        Result r = run_child(g.ops, g.nh, g.threads, cseed, prof.enumerate);
        ran++; opsrun += g.ops.size(); for (auto &o : g.ops) kinds[o.k]++;
        if (r.verdict == 2) { inconc++; continue; }
        if (r.verdict == 1) { report(g.ops, g.nh, g.threads, cseed, r); continue; }
        account(g.ops, 0, r);
        if (prof.enumerate) { // exhaustive single (and paired) fault placement over this history
            std::vector<u64> oc(S->opcalls, S->opcalls + std::min<size_t>(4096, g.ops.size())); u64 ic = S->initcalls;
            u64 budgetruns = prof.thorough ? 4000 : 400; Rng rr(cseed ^ 0x55);
            struct Pt { size_t op; u64 k; }; std::vector<Pt> pts; for (size_t o = 0; o < oc.size(); o++) for (u64 k = 0; k < std::min<u64>(oc[o], 24); k++) pts.push_back({o, k});
            if (prof.id == 27) for (u64 k = 0; k < ic; k++) pts.push_back({(size_t)-1, k});
            // only one init sweep per worker; keep the run bounded by sampling without replacement
            for (size_t a = pts.size(); a > 1; a--) std::swap(pts[a - 1], pts[rr.below(a)]);
            if (pts.size() > budgetruns) pts.resize(budgetruns);
            static const int errs[] = {EINVAL, EPERM, EACCES, EAGAIN, EFAULT, EBADF, EEXIST, EOVERFLOW, ENODEV, EINTR};
            for (auto &pt : pts) {
                std::vector<Op> ops = g.ops; u64 cnt = prof.id == 27 ? 1 : (rr.chance(70) ? 1 : rr.range(2, 6));
                Op f{O_FAULT, (int)(prof.id == 26 && cnt > 1 ? K_ALL & ~K_MADVISE : K_ALL), 0, pt.k, cnt, prof.id == 27 ? (u64)errs[rr.below(10)] : ENOMEM};
                if (pt.op == (size_t)-1) { f.h = 1; std::vector<Op> o2{f, Op{O_ALLOC, E_MALLOC, 0, 16, 1, 1}}; ops = o2; }
                else { ops.insert(ops.begin() + pt.op, f); if (prof.id == 27) ops.resize(pt.op + 2); }
                Result q = run_child(ops, g.nh, g.threads, cseed);
                if (q.verdict == 2) { inconc++; continue; }
                if (q.verdict == 1) { report(ops, g.nh, g.threads, cseed, q); if (rc) break; continue; }
                account(ops, 1, q);
                if (now() - t0 > budget) break;
            }
        }
    }
    if (hf) fclose(hf);
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"config\":\"%s\",\"cases\":%lu,\"executions\":%lu,\"nontrivial\":%lu,\"inconclusive\":%lu,\"ops\":%lu,\"wall\":%.2f,\"rc\":%d,\"msg\":\"", CFG.name, ran, execs, nontriv, inconc, opsrun, now() - t0, rc);
    auto esc = [&](const std::string &s) { for (char c : s) { if (c == '"' || c == '\\') fputc('\\', f); if (c == '\n') { fputs("\\n", f); continue; } if ((unsigned char)c >= 32) fputc(c, f); } };
    esc(vmsg); fprintf(f, "\",\"counts\":{"); bool first = true;
    for (size_t k = 0; k < sizeof cntname / sizeof *cntname; k++) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", cntname[k], tot[k]); first = false; }
    fprintf(f, "},\"op_kinds\":{"); first = true; for (int k = 1; k < O_MAX; k++) if (kinds[k]) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", opname[k], kinds[k]); first = false; }
    fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size(); k++) { fprintf(f, "%s\"", k ? "," : ""); esc(samples[k]); fputc('"', f); }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return rc;
}
