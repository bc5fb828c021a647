// Metadata isolation engine: after generated histories, scans all accessible block memory and the allocator's own
// writable globals for pointers into the allocator's state, and inspects where the state lives.
#include "caselib.h"
#include "hist.h"
#include <algorithm>
#include <map>
#include <pthread.h>
#include <set>
#include <stdio.h>
#include <malloc.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
const char *engine_name = "meta";
enum { C_SCANS, C_WORDS, C_GLOBALS, C_ROPTR, C_STATE, C_FAULT, C_ALLOC, C_FREE, C_FORK, C_BYTES, C_STALE };
std::vector<const char *> count_names = {"scans", "heap_words_scanned", "global_words_scanned", "pointers_in_read_only_globals", "state_segments_inspected", "injected_failures", "allocations", "frees", "forks", "freed_bytes_examined", "stale_user_bytes"};
extern "C" { struct mallinfo2 h_mallinfo2(void); __attribute__((weak)) extern char __start_vpbss[], __stop_vpbss[], __start_vpdata[], __stop_vpdata[]; extern int __real_pkey_set(int, unsigned); }
struct B { u8 *p; u64 req, us; bool small; int cls; };
static std::vector<B> live; static uintptr_t slab_lo; static u64 slab_len, slabid; static u64 tag_;
static std::map<uintptr_t, u64> slabs; // active slab -> length
static void on_mmap(uintptr_t p, size_t n, int, bool fixed) { if (!fixed && n > slab_len) slab_lo = p, slab_len = n; }
// bytes of user data: as part of an aligned word they never look like an address of this process
static u8 ub(u64 i) { return 0xa1 + (u8)(mix(tag_, i) % 31); }
static void fill(B &b) { u64 n = std::min<u64>(b.us, 70000); for (u64 i = 0; i < n; i++) b.p[i] = ub(i); }
static void unlock_state(bool on) { if (CFG.seal && shim_pkey > 0 && !shim_pkey_fake()) __real_pkey_set(shim_pkey, on ? 0 : 1); }
static std::set<u64> ever; // reservations that have held a large block
static std::set<u64> own_ids; // the harness's own mappings
struct Seg { uintptr_t lo, hi; int prot; u64 id; };
static void scan(const char *when) {
    count(C_SCANS);
    { size_t n; ShimEv *e = shim_events(&n); for (size_t i = 0; i < n; i++) if (e[i].kind == 1) { if (e[i].p >= slab_lo && e[i].p < slab_lo + slab_len) slabs[e[i].p] = e[i].n; } else if (e[i].kind == 2) for (auto it = slabs.lower_bound(e[i].p); it != slabs.end() && it->first < e[i].p + e[i].n;) it = slabs.erase(it); shim_events_clear(); }
    std::vector<Seg> v; shim_foreach([](uintptr_t lo, uintptr_t hi, int prot, u64 id, void *a) { if (!own_ids.count(id)) ((std::vector<Seg> *)a)->push_back({lo, hi, prot, id}); }, &v);
    if (!slabid) slabid = shim_id(slab_lo);
    std::set<u64> blk; for (auto &b : live) if (!b.small) blk.insert(shim_id((uintptr_t)b.p)); blk.insert(slabid); blk.insert(ever.begin(), ever.end());
    std::vector<Seg> st; std::vector<Seg> heap; for (auto &s : v) if (s.prot & 3 && !(s.lo < (uintptr_t)__stop_vpbss && s.hi > (uintptr_t)__start_vpbss)) (blk.count(s.id) ? heap : st).push_back(s);
    if (st.empty()) fail("%s: no accessible allocator state apart from the blocks", when);
    // state: in reservations of its own, closed by inaccessible guards
    std::set<u64> sid; for (auto &s : st) sid.insert(s.id);
    for (u64 id : sid) {
        std::vector<Seg> r; for (auto &s : v) if (s.id == id) r.push_back(s);
        std::sort(r.begin(), r.end(), [](const Seg &a, const Seg &b) { return a.lo < b.lo; }); count(C_STATE, r.size());
        if (r.front().prot || r.front().hi - r.front().lo < 4096) fail("%s: the mapping of the allocator state is accessible from its first byte on: no guard before it (%lx-%lx prot %d, %zu parts)", when, r.front().lo, r.front().hi, r.front().prot, r.size());
        if (r.back().prot || r.back().hi - r.back().lo < 4096) fail("%s: the mapping of the allocator state is accessible up to its last byte: no guard after it", when);
        for (auto &s : r) if (s.prot & 4) fail("%s: executable allocator state", when);
    }
    auto in_state = [&](u64 w) { for (auto &s : st) if (w >= s.lo && w < s.hi) return true; return false; };
    auto in_heap = [&](u64 w) { for (auto &s : v) if (blk.count(s.id) && w >= s.lo && w < s.hi) return true; return false; };
    u64 stlo = ~0ull, sthi = 0; for (auto &s : st) stlo = std::min<u64>(stlo, s.lo), sthi = std::max<u64>(sthi, s.hi);
    u64 glo = (u64)__start_vpbss, ghi = (u64)__stop_vpbss;
    for (auto &s : heap) for (u64 *q = (u64 *)s.lo; q < (u64 *)s.hi; q++) {
        u64 w = *q; if (!w) continue; 
        if (w >= stlo && w < sthi && in_state(w)) fail("%s: heap memory at offset %lu of a mapped part (%s) holds a pointer into the allocator state", when, (u64)((uintptr_t)q - s.lo), s.id == slabid ? "slab" : "large block");
        if (w >= glo && w < ghi) fail("%s: heap memory (%s) holds a pointer to the allocator's globals", when, s.id == slabid ? "slab" : "large block");
    }
    for (auto &s : heap) count(C_WORDS, (s.hi - s.lo) / 8);
    // free memory of slabs: nothing written by the allocator but canaries
    std::map<uintptr_t, B *> at; for (auto &b : live) at[(uintptr_t)b.p] = &b;
    u64 budget = 3 << 20;
    for (auto &s : slabs) {
        if (budget < s.second) break; budget -= s.second;
        // a slab's slot size: from its neighbours in the class range
        u64 off = (s.first - slab_lo) % (2 * CFG.region), ci = (s.first - slab_lo) / (2 * CFG.region) % nclasses(); (void)off; u64 sz = SC[ci]; if (!ci) continue;
        for (u64 k = 0; k < SLOTS[ci]; k++) {
            u8 *p = (u8 *)s.first + k * sz; if (at.count((uintptr_t)p)) continue;
            for (u64 i = 0; i < sz - canary(); i++) { u8 x = p[i]; if (!x) continue; if (x < 0xa1 || CFG.zero) fail("%s: free slot of class %lu holds byte %02x at offset %lu, written by the allocator (slab %lx length %lu slot %lu)", when, sz, x, i, s.first, s.second, k); count(C_STALE); }
            count(C_BYTES, sz);
        }
        for (u64 i = SLOTS[ci] * sz; i < s.second; i++) if (((u8 *)s.first)[i]) fail("%s: padding after the last slot of a slab of class %lu is not zero", when, sz);
    }
    // the allocator's own globals: a page that holds a pointer to the heap or the state is read-only
    static std::vector<std::pair<u64, u64>> wr; wr.clear();
    FILE *f = fopen("/proc/self/maps", "r"); char line[500]; if (!f) giveup();
    while (fgets(line, sizeof line, f)) { u64 a, b; char pr[8]; if (sscanf(line, "%lx-%lx %7s", &a, &b, pr) == 3 && pr[1] == 'w') wr.push_back({a, b}); } fclose(f);
    auto writable = [&](u64 a) { for (auto &x : wr) if (a >= x.first && a < x.second) return true; return false; };
    u64 ro = 0;
    char *sec[][2] = {{__start_vpbss, __stop_vpbss}, {__start_vpdata, __stop_vpdata}};
    for (auto &x : sec) if (x[0]) for (u64 *q = (u64 *)(((uintptr_t)x[0] + 7) & ~7ull); (char *)(q + 1) <= x[1]; q++) {
        u64 w = *q; count(C_GLOBALS); if (!w) continue; bool s = in_state(w), h = in_heap(w) || (w >= slab_lo && w <= slab_lo + slab_len);
        if (!s && !h) continue;
        if (writable((u64)q)) fail("%s: a writable global of the allocator holds a pointer to %s", when, s ? "its state" : "the heap"); ro++; count(C_ROPTR);
    }
    if (!ro) fail("%s: no global of the allocator holds a pointer to its state: the scan is blind", when);
}
static u64 gs(Ch &c, u64 *focus) { switch (c.below(8)) { case 0: return c.below(700); case 1: return c.below(20000); case 2: return c.chance(30) ? maxsmall() + c.below(400000) : c.below(64); case 3: return c.below(maxsmall()); default: { int k = focus[c.below(2)]; return std::max<u64>(1, SC[k] - canary() - std::min<u64>(SC[k] - canary() - 1, c.below(9))); } } }
static void *thr(void *a) { Rng r(*(u64 *)a); std::vector<void *> v; for (int i = 0; i < 200; i++) { if (v.empty() || r.chance(60)) v.push_back(h_malloc(r.below(r.chance(90) ? 3000 : 300000))); else { u64 j = r.below(v.size()); h_free(v[j]); v[j] = v.back(); v.pop_back(); } } for (void *p : v) h_free(p); return nullptr; }
void run_one(Ch &c) {
    static Rng r(0); r = Rng(mix(c.below(1u << 30), 3)); tag_ = r.next(); shim_seed(r.next()); shim_foreach([](uintptr_t, uintptr_t, int, u64 id, void *) { own_ids.insert(id); }, nullptr); shim_rec = true; shim_mmap_hook = on_mmap; case_timeout = 60;
    u64 focus[2]; for (auto &x : focus) x = c.chance(70) ? 1 + c.below(24) : 1 + c.below(nclasses() - 1);
    int n = 10 + c.below(120), faults = c.chance(40); note("%d ops, classes %u %u%s", n, SC[focus[0]], SC[focus[1]], faults ? ", failing system calls" : ""); bool conc = false;
    if (c.chance(50)) { B b{(u8 *)h_malloc(1), 1, 0, true, 1}; if (!b.p) fail("allocation refused"); b.us = h_malloc_usable_size(b.p); live.push_back(b); fill(b); scan("after the first allocation"); } else { h_malloc(0); }
    auto add = [&](u8 *p, u64 sz) { B b{p, sz, h_malloc_usable_size(p), is_small_req(sz, 1), 0}; count(C_ALLOC); live.push_back(b); fill(b); if ((uintptr_t)p < slab_lo || (uintptr_t)p >= slab_lo + slab_len) ever.insert(shim_id((uintptr_t)p)); };
    for (int i = 0; i < n; i++) {
        if (faults && c.chance(25)) { shim_fault.mask = K_ALL; shim_fault.err = ENOMEM; shim_fault.skip = c.below(4); shim_fault.count = 1 + c.below(3); count(C_FAULT); }
        u64 k = c.below(100);
        if (k < 40 || live.empty()) {
            u64 m = c.chance(15) ? 1 + c.below(c.chance(20) ? 400 : 60) : 1, sz = gs(c, focus); if (m > 1 && sz > 4000) m = 1 + m % 10; int e = c.below(6);
            for (u64 j = 0; j < m && live.size() < 1200; j++) { void *p = nullptr; u64 al = 1;
                switch (e) { case 0: p = h_calloc(1, sz); break; case 1: al = 16ull << c.below(12); p = h_memalign(al, sz); break; case 2: if (h_posix_memalign(&p, 16, sz)) p = nullptr; break; default: p = h_malloc(sz); }
                if (!p) continue; add((u8 *)p, sz); if (al > 4096) live.back().small = false; else { uintptr_t q = (uintptr_t)p; live.back().small = q >= slab_lo && q < slab_lo + slab_len; } }
        } else if (k < 70) {
            u64 m = c.chance(15) ? 1 + c.below(200) : 1; int order = c.below(3);
            for (u64 j = 0; j < m && !live.empty(); j++) { u64 x = order == 0 ? live.size() - 1 : order == 1 ? 0 : c.below(live.size()); B b = live[x]; live.erase(live.begin() + x); h_free(b.p); count(C_FREE); }
        } else if (k < 82) { u64 x = c.below(live.size()); B b = live[x]; u64 sz = c.chance(25) ? 140000 + c.below(600000) : gs(c, focus); if (!sz) sz = 1; u8 *p = (u8 *)h_realloc(b.p, sz); if (p) { live.erase(live.begin() + x); add(p, sz); uintptr_t q = (uintptr_t)p; live.back().small = q >= slab_lo && q < slab_lo + slab_len; } }
        else if (k < 86) h_malloc_trim(0);
        else if (k < 88) (void)h_mallinfo2();
        else if (k < 90) { u64 x = c.below(live.size()); h_malloc_object_size(live[x].p); h_malloc_object_size_fast(live[x].p); }
        else if (k < 92) { (void)h_malloc(~0ull - c.below(100000)); h_memalign(3, 16); }
        else if (k < 94 && !conc) { u64 a = r.next(); pthread_t t; shim_fault.count = 0; if (!pthread_create(&t, nullptr, thr, &a)) pthread_join(t, nullptr); }
        else if (k < 95 && !faults) { // a forked child keeps the same isolation
            count(C_FORK); pid_t p = fork(); if (!p) { shim_fault.count = 0; unlock_state(true); scan("in a forked child"); unlock_state(false); void *q = h_malloc(100); h_free(q); unlock_state(true); scan("in a forked child, later"); _exit(0); }
            int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (CS_->msg[0]) _exit(1); fail("forked child ended with status %x", st); }
        } else if (k < 98) { int sv = shim_fault.count; shim_fault.count = 0; unlock_state(true); scan("in a history"); unlock_state(false); shim_fault.count = sv; }
        shim_fault.count = 0; if (CS_->cnt[C_FREE] > 3) nontrivial();
    }
    unlock_state(true); scan("at the end"); unlock_state(false);
}
