// Memory tagging engine: the allocator built with HAS_ARM_MTE, the tagging instructions emulated here with a
// shadow of one tag per 16-byte granule. The random-tag instruction is an adversary: among the tags that the
// exclusion mask allows it likes those that would break the property.
#include "caselib.h"
#include "hist.h"
#include <algorithm>
#include <array>
#include <string.h>
#include <sys/mman.h>
const char *engine_name = "mte";
enum { C_ALLOC, C_FREE, C_REALLOC, C_MOVE, C_NEIGH, C_REUSE, C_RECYC, C_DISABLE, C_DFREE, C_TAGCHK, C_FULLMASK, C_CANARY, C_CANSLABS, C_FAULTS, C_FATAL, C_ZEROCAN, C_RO };
std::vector<const char *> count_names = {"allocations", "frees", "reallocs", "moving_reallocs", "neighbour_tags_compared", "slot_reuses", "allocations_in_released_slabs", "tagging_disabled", "invalid_frees", "accesses_checked", "irg_calls", "canaries_corrupted", "canaries_compared", "injected_failures", "fatal_errors_after_failures", "all_zero_canary_draws", "globals_protected"};
extern "C" { __attribute__((weak)) void h_malloc_disable_memory_tagging(void); __attribute__((weak)) void *h_valloc(size_t); __attribute__((weak)) void h_malloc_disable(void); __attribute__((weak)) void h_malloc_enable(void); }
static std::unordered_map<u64, std::array<u8, 256>> shadow;
static std::map<uintptr_t, uintptr_t> mtemaps; // ranges mapped with PROT_MTE
static const int PROT_MTE_BIT = 0x20;
static std::map<uintptr_t, u64> slabs; static std::set<uintptr_t> released;
static std::unordered_map<uintptr_t, u8> lasttag;
struct B { u8 *p; u64 req, us, size; int cls; u8 tag; u64 pat; };
static std::vector<B> live_; static u64 curslot; static int irgmode; static Rng *rng_; static bool disabled_; static bool in_alloc;
static struct { uintptr_t a; u64 len; u8 tag; int n; } lastclear;
static bool zerodraws, enomem, fatalmode; static std::map<uintptr_t, u64> canaries;
extern "C" { __attribute__((weak)) u64 __real_get_random_u64(void *st); u64 __wrap_get_random_u64(void *st) { u64 v = __real_get_random_u64(st); if (zerodraws && rng_->below(3) == 0) { count(C_ZEROCAN); return v & 0xff; } return v; } }
static u8 *un(void *p) { return (u8 *)((uintptr_t)p & (~0ull >> 8)); }
static u8 tg(const void *p) { return (uintptr_t)p >> 56 & 15; }
static u8 &sh(uintptr_t a) { return shadow[a >> 12][a >> 4 & 255]; }
static void on_mmap(uintptr_t p, size_t n, int prot, bool) {
    uintptr_t lo = p, hi = p + pgup(n);
    auto it = mtemaps.upper_bound(lo); if (it != mtemaps.begin()) { auto q = std::prev(it); if (q->second > lo) { uintptr_t e = q->second; q->second = lo; if (q->first == lo) mtemaps.erase(q); if (e > hi) mtemaps[hi] = e; } }
    it = mtemaps.lower_bound(lo); while (it != mtemaps.end() && it->first < hi) { uintptr_t e = it->second; it = mtemaps.erase(it); if (e > hi) mtemaps[hi] = e; }
    if (prot & PROT_MTE_BIT) { mtemaps[lo] = hi; }
}
static bool is_mte(uintptr_t lo, uintptr_t hi) { while (lo < hi) { auto it = mtemaps.upper_bound(lo); if (it == mtemaps.begin()) return false; --it; if (it->second <= lo) return false; lo = it->second; } return true; }
static bool is_slabmem(uintptr_t a) { auto it = slabs.upper_bound(a); if (it == slabs.begin()) return false; --it; return a < it->first + it->second; }
// pages of the library's own image: those that hold the global state are read-only whenever no call is running
static std::map<uintptr_t, int> globals_ro;
static void globals_ok() { if (!fatalmode) for (auto &x : globals_ro) if (!x.second) fail("the allocator's global state was left writable"); }
static void events() {
    size_t n; ShimEv *e = shim_events(&n);
    for (size_t i = 0; i < n; i++) { if (e[i].kind == 4 && shim_prot(e[i].p) < 0) { globals_ro[e[i].p] = 1; count(C_RO); } else if (e[i].kind == 1 && globals_ro.count(e[i].p)) { globals_ro[e[i].p] = 0; } else if (e[i].kind == 1) { slabs[e[i].p] = e[i].n; } else if (e[i].kind == 2) for (auto it = slabs.lower_bound(e[i].p); it != slabs.end() && it->first < e[i].p + e[i].n; ++it) { released.insert(it->first); for (uintptr_t a = it->first; a < it->first + it->second; a += 16) sh(a) = 0; } }
    shim_events_clear();
}
extern "C" void *vp_mte_irg(void *p, uint64_t ex) {
    u8 *q = un(p); std::vector<u8> ok; for (int t = 0; t < 16; t++) if (!(ex >> t & 1)) ok.push_back(t);
    count(C_FULLMASK); u8 t = 0;
    if (ok.empty()) t = 0;
    else { t = ok[rng_->below(ok.size())];
        if (irgmode == 2) t = ok[0]; if (irgmode == 3) t = ok.back();
        if (irgmode == 1) { uintptr_t a = (uintptr_t)q; u8 bad[4] = {lasttag.count(a) ? lasttag[a] : (u8)0, lasttag.count(a - curslot) ? lasttag[a - curslot] : (u8)0, lasttag.count(a + curslot) ? lasttag[a + curslot] : (u8)0, 0}; for (u8 b : bad) if (!(ex >> b & 1)) { t = b; break; } } }
    return (void *)((uintptr_t)q | (u64)t << 56);
}
extern "C" void vp_mte_tag_clear(void *tagged, size_t len) {
    uintptr_t a = (uintptr_t)un(tagged);
    if (a & 15 || len & 15) fail("tagging of %lu bytes at an address that is %lu mod 16", len, a & 15);
    if (!is_mte(a, a + len)) fail("tagging instructions used on %s memory that is not mapped with PROT_MTE: no tags are stored there", "slab");
    memset((void *)a, 0, len); for (uintptr_t x = a; x < a + len; x += 16) sh(x) = tg(tagged);
    lastclear = {a, len, tg(tagged), lastclear.n + 1};
}
// the allocator's own accesses through libc: a pointer's tag must match the memory's
static void chk(const void *p, size_t n, const char *what) {
    if (disabled_ || !n) return; events(); uintptr_t a = (uintptr_t)un((void *)p); if (!is_slabmem(a)) { if (tg(p)) fail("%s with a tagged pointer outside the tagged slabs", what); return; }
    count(C_TAGCHK);
    for (uintptr_t x = a & ~15ull; x < a + n; x += 16) if (sh(x) != tg(p)) fail("tag check fault: %s of %lu bytes with tag %u at offset %lu, memory has tag %u", what, n, tg(p), (u64)(x - a), sh(x));
}
extern "C" void *vp_memcpy(void *d, const void *s, size_t n) { chk(d, n, "memcpy write"); chk(s, n, "memcpy read"); memcpy(un(d), un((void *)s), n); return d; }
extern "C" void *vp_memset(void *d, int c, size_t n) { chk(d, n, "memset"); memset(un(d), c, n); return d; }
extern "C" void *vp_memmove(void *d, const void *s, size_t n) { chk(d, n, "memmove write"); chk(s, n, "memmove read"); memmove(un(d), un((void *)s), n); return d; }
extern "C" void *vp_memcpy_chk(void *d, const void *s, size_t n, size_t) { return vp_memcpy(d, s, n); }

static u8 patb(u64 pat, u64 i) { return (u8)(mix(pat, i >> 3) >> (i & 7) * 8) | 1; }
static void fill(B &b) { u8 *q = un(b.p); u64 n = std::min<u64>(b.us, 3000); for (u64 i = 0; i < n; i++) q[i] = patb(b.pat, i); for (u64 i = b.us > 3000 ? b.us - 200 : b.us; i < b.us; i++) if (i >= n) q[i] = patb(b.pat, i); }
static void verify(B &b, u64 lim, const char *when) { u8 *q = un(b.p); u64 n = std::min<u64>(b.us, 3000); auto c = [&](u64 i) { if (i < lim && q[i] != patb(b.pat, i)) fail("%s: byte %lu of a block of %lu changed", when, i, b.us); };
    for (u64 i = 0; i < n; i++) c(i); for (u64 i = b.us > 3000 ? b.us - 200 : b.us; i < b.us; i++) if (i >= n) c(i); }
static void tags_ok(B &b, const char *when) { if (b.cls <= 0 || !b.tag) return; uintptr_t a = (uintptr_t)un(b.p); for (uintptr_t x = a; x < a + b.size; x += 16) if (sh(x) != b.tag) fail("%s: memory of a live block (tag %u, slot of %lu) has tag %u at offset %lu", when, b.tag, b.size, sh(x), (u64)(x - a)); }
static uintptr_t slab_of(uintptr_t a) { auto it = slabs.upper_bound(a); if (it == slabs.begin()) return 0; --it; return a < it->first + it->second ? it->first : 0; }

// canaries protect again the blocks allocated once tagging is disabled
static bool has_canary(const B &b) { return canary() && disabled_ && b.cls > 0 && !b.tag; }
static void canary_ok(B &b) {
    if (!has_canary(b)) return;
    u64 v; memcpy(&v, un(b.p) + b.us, 8); if (v & 0xff) fail("first byte of the canary of a block of %lu is %lu", b.us, v & 0xff);
    if (!v) fail("a block of %lu allocated after tagging was disabled has no canary", b.us);
    uintptr_t sl = slab_of((uintptr_t)un(b.p)); canaries[sl] = v; if (zerodraws) return;
    for (auto &x : canaries) if (x.first != sl) { count(C_CANSLABS); if (x.second == v) fail("two slabs have the same canary %lx", v); }
}
static void check_new(void *p, u64 req, B &b, bool fresh, u64 keep) {
    events();
    b.p = (u8 *)p; b.req = req; b.tag = tg(p); uintptr_t a = (uintptr_t)un(p);
    bool small = is_small_req(req, 1);
    b.us = h_malloc_usable_size(p); if (b.us < req) fail("usable size %lu below request %lu", b.us, req);
    b.cls = small ? cls_for(b.us + (b.us ? canary() : 0)) : -1; b.size = small ? SC[b.cls] : b.us;
    if (h_malloc_object_size(p) != b.us) fail("object size of a tagged pointer is %lu, usable size %lu", (u64)h_malloc_object_size(p), b.us);
    if (h_malloc_object_size_fast(p) != h_malloc_object_size_fast(un(p))) fail("malloc_object_size_fast of a tagged pointer is %lu, without the tag %lu", (u64)h_malloc_object_size_fast(p), (u64)h_malloc_object_size_fast(un(p)));
    if (h_malloc_object_size_fast(p) < b.us) fail("fast object size of a tagged pointer is too small");
    count(C_ALLOC);
    if (!small) { if (b.tag) fail("large block carries tag %u", b.tag); }
    else if (b.cls > 0) {
        uintptr_t s = slab_of(a); if (!s) fail("no slab was made accessible for the block");
        u64 idx = (a - s) / b.size, sz = b.size; if (released.count(s)) count(C_RECYC);
        if (!disabled_) {
            if (!b.tag) fail("small block of %lu bytes carries no tag", req);
            if (lasttag.count(a)) { count(C_REUSE); if (lasttag[a] == b.tag) fail("slot of class %lu reused with the same tag %u", sz, b.tag); }
            if (idx > 0 && lasttag.count(a - sz)) { count(C_NEIGH); if (lasttag[a - sz] == b.tag) fail("class %lu slot %lu: tag %u equals the left neighbour's", sz, idx, b.tag); }
            if (idx + 1 < SLOTS[b.cls] && lasttag.count(a + sz)) { count(C_NEIGH); if (lasttag[a + sz] == b.tag) fail("class %lu slot %lu: tag %u equals the right neighbour's", sz, idx, b.tag); }
            lasttag[a] = b.tag;
            tags_ok(b, "after allocation");
        } else if (b.tag) fail("a block allocated after tagging was disabled carries tag %u", b.tag);
    } else if (b.tag) fail("zero-size block carries tag %u", b.tag);
    if (b.us && fresh) { u8 *q = un(p); for (u64 i = keep; i < b.us; i += (i < 4096 || i > b.us - 4096) ? 1 : 512) if (q[i]) fail("fresh block of %lu not zero at offset %lu", req, i); }
    // neighbours keep their tags
    if (b.cls > 0) for (auto &o : live_) if (o.cls == b.cls && (un(o.p) == un(p) + b.size || un(o.p) + o.size == un(p))) tags_ok(o, "after allocation of a neighbour");
    canary_ok(b); b.pat = rng_->next(); fill(b);
}
static void check_freed(B &b) {
    events(); uintptr_t a = (uintptr_t)un(b.p); if (b.cls <= 0) return; count(C_FREE);
    if (!disabled_ && b.tag) for (uintptr_t x = a; x < a + b.size; x += 16) if (sh(x)) fail("freed slot of class %lu still has tag %u at offset %lu", b.size, sh(x), (u64)(x - a));
    if (shim_prot(a) == 3) { u8 *q = un(b.p); u64 n = disabled_ || !b.tag ? b.us : b.size; for (u64 i = 0; i < n; i += (i < 4096 || i > n - 4096) ? 1 : 256) if (q[i]) fail("freed slot of class %lu not cleared at offset %lu", b.size, i); }
    for (auto &o : live_) if (o.cls == b.cls && (un(o.p) == un(b.p) + b.size || un(o.p) + o.size == un(b.p))) { tags_ok(o, "after a neighbour was freed"); verify(o, o.us, "after a neighbour was freed"); }
}
static u64 gen_size(Ch &c, u64 *focus) {
    u64 mx = maxsmall() - canary();
    switch (c.below(8)) { case 0: return c.below(600); case 1: return std::min<u64>(SC[c.below(nclasses())] + c.below(3), mx); case 2: return c.below(20) ? c.below(5000) : 0; case 3: return c.chance(10) ? mx + 1 + c.below(100000) : c.below(mx); default: { u64 k = focus[c.below(2)]; u64 s = SC[k] - canary(); return c.chance(60) ? s : s - std::min<u64>(s - 1, c.below(9)); } }
}
// every unexpected error of a system call must end the process, running out of memory must not
static void after(const char *what) { events(); globals_ok(); if (fatalmode && shim_fired) fail("%s returned although a system call had failed with errno %d", what, shim_fault.err); if (shim_fired) { CS_->cnt[C_FAULTS] = shim_fired; nontrivial(); } }
static void set_fault(Ch &c) {
    static const int errs[] = {EINVAL, EPERM, EACCES, EAGAIN, EFAULT, EBUSY};
    if (fatalmode) { if (shim_fault.count <= 0) shim_fault = {(long)c.below(c.chance(50) ? 4 : 60), 1, errs[c.below(6)], K_ALL, 0}; }
    else shim_fault = {(long)c.below(c.chance(60) ? 3 : 30), 1 + (long)c.below(4), ENOMEM, c.chance(30) ? (u32)(K_MMAPFIXED | K_MADVISE) : (u32)K_ALL, 0};
}
void run_one(Ch &c) {
    static Rng r(0); r = Rng(mix(c.below(1u << 30), 7)); rng_ = &r; shim_seed(r.next()); shim_rec = true; shim_mmap_hook = on_mmap;
    enomem = arg_mode == "enomem"; fatalmode = arg_mode == "fatal"; bool canmode = arg_mode == "canary";
    if (fatalmode) { shim_abort_hook = [] { if (shim_fired) { CS_->expect = EXP_FATAL; CS_->terminal = 1; nontrivial(); count(C_FATAL); } }; if (c.chance(35)) { shim_fault = {(long)c.below(14), 1, EINVAL, K_ALL, 0}; } }
    irgmode = c.below(5); u64 focus[2]; for (auto &f : focus) f = c.chance(70) ? 1 + c.below(20) : 1 + c.below(nclasses() - 1);
    int n = 20 + c.below(160); u64 recent = 0; std::vector<B> freed; bool andr = &h_malloc_disable_memory_tagging != nullptr; int dis = andr && c.chance(canmode ? 85 : fatalmode ? 40 : 20) ? (int)c.below(canmode ? n / 2 : n) : -1; zerodraws = canmode && c.chance(25);
    if (andr && (dis == 0 || c.chance(6))) { h_malloc_disable_memory_tagging(); after("disabling tags"); disabled_ = true; count(C_DISABLE); dis = -1; } // before initialisation
    note("irg mode %d, classes %u %u, %d ops%s", irgmode, SC[focus[0]], SC[focus[1]], n, dis >= 0 ? ", tagging disabled on the way" : "");
    for (int i = 0; i < n; i++) {
        if (i && (enomem || fatalmode) && c.chance(fatalmode ? 10 : 25)) set_fault(c);
        if (i == dis) { ShimFault keep = shim_fault; if (enomem) shim_fault.count = 0; else if (fatalmode && c.chance(60)) shim_fault = {(long)c.below(2), 1, EACCES, K_ALL, 0}; h_malloc_disable_memory_tagging(); after("disabling tags"); if (enomem) shim_fault = keep; disabled_ = true; count(C_DISABLE); for (auto &b : live_) { if (h_malloc_usable_size(b.p) != b.us) fail("usable size changed when tagging was disabled"); } }
        u64 k = c.below(100);
        if (k < 45 || live_.empty()) {
            u64 m = c.chance(12) ? 1 + c.below(c.chance(20) ? 300 : 70) : 1; u64 sz = gen_size(c, focus); if (m > 1 && sz > 3000) m = 1 + m % 12; int e = c.below(5);
            for (u64 j = 0; j < m && live_.size() < 900; j++) {
                curslot = is_small_req(sz, 1) && sz ? SC[cls_for(sz + canary())] : 0; void *p;
                switch (e) { case 0: p = h_calloc(1, sz); break; case 1: p = h_aligned_alloc(16, sz); break; case 2: p = h_realloc(nullptr, sz); break; case 3: if (h_posix_memalign(&p, 16, sz)) p = nullptr; break; default: p = h_malloc(sz); }
                after("an allocation");
                if (!p) { if (enomem && shim_fired) break; fail("allocation of %lu refused", sz); }
                B b; check_new(p, sz, b, true, 0); live_.push_back(b);
            }
        } else if (k < 80) {
            u64 m = c.chance(10) ? 1 + c.below(60) : 1; int order = c.below(3);
            for (u64 j = 0; j < m && !live_.empty(); j++) {
                u64 x = order == 0 ? live_.size() - 1 : order == 1 ? 0 : c.below(live_.size()); B b = live_[x]; live_.erase(live_.begin() + x);
                verify(b, b.us, "before free"); tags_ok(b, "before free");
                canary_ok(b); if (c.chance(15)) h_free_sized(b.p, b.req); else h_free(b.p);
                after("free");
                check_freed(b); freed.push_back(b);
            }
        } else if (k < 95) {
            u64 x = c.below(live_.size()); B b = live_[x]; u64 sz = c.chance(10) ? 200000 + c.below(100000) : c.chance(30) ? b.req + c.below(40) : gen_size(c, focus); curslot = is_small_req(sz, 1) && sz ? SC[cls_for(sz + canary())] : 0;
            verify(b, b.us, "before realloc"); u8 *p = (u8 *)h_realloc(b.p, sz); after("realloc"); if (!p) { if (!enomem || !shim_fired) fail("realloc to %lu refused", sz); verify(b, b.us, "after a failed realloc"); tags_ok(b, "after a failed realloc"); continue; } count(C_REALLOC);
            if (p == b.p) { events(); if (h_malloc_usable_size(p) < sz) fail("in-place realloc: usable size too small"); b.us = h_malloc_usable_size(p); b.req = sz; if (b.cls < 0) { b.size = b.us; { B ob = b; ob.us = std::min<u64>(2900, std::min(b.us, live_[x].us)); verify(ob, ob.us, "after in-place realloc"); } fill(b); } else { verify(b, b.us, "after in-place realloc"); tags_ok(b, "after in-place realloc"); } live_[x] = b; continue; }
            if (un(p) == un(b.p) && b.cls > 0) fail("realloc returned the same block with another tag");
            count(C_MOVE); B nb; u64 keep = std::min(b.us, sz); 
            { u8 *q = un(p); for (u64 j = 0; j < std::min<u64>(keep, b.us > 3000 ? 2800 : keep); j++) if (q[j] != patb(b.pat, j)) fail("realloc of a tagged block lost byte %lu (%lu to %lu)", j, b.req, sz); }
            live_.erase(live_.begin() + x); check_new(p, sz, nb, false, 0); live_.push_back(nb); check_freed(b); freed.push_back(b);
        } else if (k < 97) { h_malloc_trim(0); after("malloc_trim"); events(); }
        else if (k < 98 && &h_malloc_disable) { h_malloc_disable(); h_malloc_enable(); }
        else for (auto &b : live_) { verify(b, b.us, "verification"); tags_ok(b, "verification"); }
        if (CS_->cnt[C_NEIGH] + CS_->cnt[C_REUSE] > 3) nontrivial();
    }
    shim_fault.count = 0;
    for (auto &b : live_) { verify(b, b.us, "final verification"); tags_ok(b, "final verification"); }
    if (c.chance(canmode ? 70 : 10)) { // a changed canary byte is detected
        std::vector<B> v; for (auto &b : live_) if (has_canary(b)) v.push_back(b);
        if (!v.empty()) {
            B b = v[c.below(v.size())]; u8 *q = un(b.p) + b.us; int k = c.below(8); u8 old = q[k]; q[k] ^= 1 + c.below(255); u64 z; memcpy(&z, q, 8); if (!z) q[k] = old ^ 3;
            count(C_CANARY); note(", then byte %d of a canary changed", k); expect_fatal();
            switch (c.below(3)) { case 0: h_malloc_usable_size(b.p); break; case 1: { u64 sz = b.cls > 5 ? 1 : 5000; void *x = h_realloc(b.p, sz); (void)x; break; } default: h_free(b.p); }
            expect_none(); fail("after tagging was disabled, a changed canary byte %d of a block of %lu went unnoticed", k, b.us);
        }
    }
    if (c.chance(25) && !freed.empty()) { // a freed block is still recognised through a tagged pointer
        B b = freed[c.below(freed.size())]; for (auto &o : live_) if (un(o.p) == un(b.p)) return; if (b.cls < 0) return;
        count(C_DFREE); note(", then a double free"); expect_fatal(); if (c.chance(30)) h_malloc_usable_size(b.p); else h_free(b.p); expect_none(); fail("double free with a tagged pointer returned");
    }
    while (!live_.empty()) { B b = live_.back(); live_.pop_back(); canary_ok(b); h_free(b.p); check_freed(b); }
}
