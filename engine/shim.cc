// Interposition (-Wl,--wrap) of every system-call wrapper the allocator uses. Keeps a shadow of the
// address space the allocator asked for, injects failures, and makes getrandom a function of the case seed.
#include "vp.h"
#include <map>
#include <vector>
#include <set>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);
int __real_pkey_mprotect(void *, size_t, int, int);
void *__real_mremap(void *, size_t, size_t, int, ...);
int __real_madvise(void *, size_t, int);
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __real_write(int, const void *, size_t);
void __real_abort(void) __attribute__((noreturn));
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
}

ShimFault shim_fault = {0, 0, 0, 0, 0};
u64 shim_calls, shim_fired, shim_fired_kinds, shim_getrandom_calls, shim_getrandom_bytes, shim_locks;
bool shim_rawrandom, shim_threads, shim_rec;
static u64 rnd_state = 0x5eed;
void shim_seed(u64 s) { rnd_state = s; }
int (*shim_getrandom_plan)(size_t, size_t *);
void (*shim_unmap_hook)(uintptr_t, size_t); void (*shim_map_hook)(int, uintptr_t, size_t); // 0 range unmapped, 1 contents replaced
void (*shim_abort_hook)(); void (*shim_mmap_hook)(uintptr_t, size_t, int, bool);
void (*shim_sched_hook)(int, void *);
char *shim_fatal_buf; size_t shim_fatal_cap;
volatile int *shim_aborted;
thread_local int vp_api; void (*vp_sys_hook)(long, long, long, long, long, long, long); u64 shim_unowned;
int shim_pkey = -1; static bool fakepkey; static thread_local unsigned fakerights = 1;

struct Seg { uintptr_t hi; int prot; u64 id; int pkey; };
typedef std::map<uintptr_t, Seg> Map;
static Map &M() { static Map m; return m; }
static std::map<uintptr_t, uintptr_t> &E() { static std::map<uintptr_t, uintptr_t> m; return m; }
static std::vector<ShimEv> &EV() { static std::vector<ShimEv> v; return v; }
static u64 next_id = 1;
static pthread_mutex_t shlock = PTHREAD_MUTEX_INITIALIZER;
struct L { bool t; int sv; L() : t(shim_threads), sv(vp_api) { vp_api = 0; if (t) __real_pthread_mutex_lock(&shlock); } ~L() { if (t) __real_pthread_mutex_unlock(&shlock); vp_api = sv; } };
#define REAL(l, x) ([&] { int sv_ = vp_api; vp_api = (l).sv; auto r_ = (x); vp_api = sv_; return r_; }())

static const uintptr_t PG = 4096;
static uintptr_t up(uintptr_t x) { return (x + PG - 1) & ~(PG - 1); }

static void split(uintptr_t a) {
    Map &m = M();
    auto it = m.upper_bound(a);
    if (it == m.begin()) return;
    --it;
    if (it->first < a && a < it->second.hi) { Seg s = it->second; it->second.hi = a; m[a] = s; }
}
static void erase_range(uintptr_t lo, uintptr_t hi) {
    Map &m = M(); split(lo); split(hi);
    auto it = m.lower_bound(lo);
    while (it != m.end() && it->first < hi) it = m.erase(it);
}
static void set_range(uintptr_t lo, uintptr_t hi, int prot, u64 id, int pkey = 0) {
    erase_range(lo, hi);
    Map &m = M();
    auto it = m.emplace(lo, Seg{hi, prot, id, pkey}).first;
    if (it != m.begin()) { auto p = std::prev(it); if (p->second.hi == lo && p->second.prot == prot && p->second.id == id && p->second.pkey == pkey) { p->second.hi = hi; m.erase(it); it = p; } }
    auto n = std::next(it);
    if (n != m.end() && n->first == it->second.hi && n->second.prot == prot && n->second.id == id && n->second.pkey == pkey) { it->second.hi = n->second.hi; m.erase(n); }
}
static void prot_range(uintptr_t lo, uintptr_t hi, int prot, int pkey) {
    Map &m = M(); split(lo); split(hi);
    // collect first: set_range merges
    std::vector<std::pair<uintptr_t, Seg>> v;
    for (auto it = m.lower_bound(lo); it != m.end() && it->first < hi; ++it) v.push_back(*it);
    for (auto &x : v) set_range(x.first, x.second.hi, prot, x.second.id, pkey < 0 ? x.second.pkey : pkey);
    if (prot != PROT_NONE) {
        auto &e = E(); uintptr_t l = lo, h = hi;
        auto it = e.upper_bound(l); if (it != e.begin()) { auto p = std::prev(it); if (p->second >= l) { l = p->first; if (p->second > h) h = p->second; e.erase(p); } }
        it = e.lower_bound(l); while (it != e.end() && it->first <= h) { if (it->second > h) h = it->second; it = e.erase(it); }
        e[l] = h;
    }
}
static bool owned(uintptr_t lo, uintptr_t hi) { // every page of the range is a mapping of the allocator
    Map &m = M(); while (lo < hi) { auto it = m.upper_bound(lo); if (it == m.begin()) return false; --it; if (lo >= it->second.hi) return false; lo = it->second.hi; } return true;
}
static Map::iterator find(uintptr_t a) {
    Map &m = M(); auto it = m.upper_bound(a);
    if (it == m.begin()) return m.end();
    --it; return a < it->second.hi ? it : m.end();
}
int shim_prot(uintptr_t a) { L l; auto it = find(a); return it == M().end() ? -1 : it->second.prot; }
int shim_pkey_of(uintptr_t a) { L l; auto it = find(a); return it == M().end() ? 0 : it->second.pkey; }
u64 shim_id(uintptr_t a) { L l; auto it = find(a); return it == M().end() ? 0 : it->second.id; }
bool shim_seg(uintptr_t a, uintptr_t *lo, uintptr_t *hi, int *prot, u64 *id) {
    L l; auto it = find(a); if (it == M().end()) return false;
    *lo = it->first; *hi = it->second.hi; *prot = it->second.prot; *id = it->second.id; return true;
}
u64 shim_mapped_bytes() { L l; u64 t = 0; for (auto &x : M()) t += x.second.hi - x.first; return t; }
u64 shim_mapped_bytes_except(const u64 *ids, int n) {
    L l; u64 t = 0;
    for (auto &x : M()) { bool skip = false; for (int i = 0; i < n; i++) if (ids[i] == x.second.id) skip = true; if (!skip) t += x.second.hi - x.first; }
    return t;
}
static std::set<u64> &EX() { static std::set<u64> *e = new std::set<u64>; return *e; }
u64 shim_reservations_due() { L l; std::set<u64> s; for (auto &x : M()) if (!EX().count(x.second.id)) s.insert(x.second.id); return s.size(); }
u64 shim_reservations() { L l; std::set<u64> s; for (auto &x : M()) s.insert(x.second.id); return s.size(); }
u64 shim_rw_bytes(u64 id) { L l; u64 t = 0; for (auto &x : M()) if (x.second.id == id && x.second.prot == (PROT_READ | PROT_WRITE)) t += x.second.hi - x.first; return t; }
void shim_ever_run(uintptr_t a, uintptr_t *lo, uintptr_t *hi) {
    L l; auto &e = E(); auto it = e.upper_bound(a); *lo = *hi = a;
    if (it == e.begin()) return;
    --it; if (a < it->second) { *lo = it->first; *hi = it->second; }
}
void shim_foreach(void (*f)(uintptr_t, uintptr_t, int, u64, void *), void *arg) { L l; for (auto &x : M()) f(x.first, x.second.hi, x.second.prot, x.second.id, arg); }
ShimEv *shim_events(size_t *n) { *n = EV().size(); return EV().data(); }
void shim_events_clear() { EV().clear(); }

static bool fault(u32 kind) {
    shim_calls++;
    if (shim_fault.count <= 0 || !(shim_fault.mask & kind)) return false;
    if (shim_fault.skip > 0) { shim_fault.skip--; return false; }
    shim_fault.count--;
    if (shim_fault.period) shim_fault.skip = shim_fault.period;
    shim_fired++; shim_fired_kinds |= kind;
    errno = shim_fault.err;
    return true;
}

extern "C" {
void *__wrap_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if (shim_sched_hook) shim_sched_hook(2, p);
    L l;
    bool fixed = flags & MAP_FIXED;
    if (fault(fixed ? K_MMAPFIXED : K_MMAP)) return MAP_FAILED;
    void *r = REAL(l, __real_mmap(p, n, prot, flags, fd, off));
    if (r == MAP_FAILED) return r;
    uintptr_t lo = (uintptr_t)r, hi = up(lo + n);
    u64 id = 0;
    if (fixed) { auto it = find(lo); if (it != M().end()) id = it->second.id; }
    if (!id) id = next_id++;
    set_range(lo, hi, prot & 7, id);
    if (shim_mmap_hook) shim_mmap_hook(lo, hi - lo, prot, fixed);
    if (fixed && shim_map_hook) shim_map_hook(1, lo, hi - lo);
    if (fixed && shim_rec) EV().push_back({2, lo, hi - lo});
    return r;
}
int __wrap_munmap(void *p, size_t n) {
    if (shim_sched_hook) shim_sched_hook(2, p);
    L l;
    if (fault(K_MUNMAP)) { for (auto &x : M()) if (x.first < (uintptr_t)p + n && (uintptr_t)p < x.second.hi) EX().insert(x.second.id); return -1; } // may legitimately stay mapped
    if (shim_unmap_hook) shim_unmap_hook((uintptr_t)p, n);
    if (!owned((uintptr_t)p, up((uintptr_t)p + n))) shim_unowned++;
    int r = REAL(l, __real_munmap(p, n));
    if (!r) { erase_range((uintptr_t)p, up((uintptr_t)p + n)); if (shim_map_hook) shim_map_hook(0, (uintptr_t)p, up(n)); }
    return r;
}
static int prot_common(void *p, size_t n, int prot, int pkey, bool usepkey) {
    if (shim_sched_hook) shim_sched_hook(2, p);
    L l;
    if (fault(K_MPROTECT)) return -1;
    int r = REAL(l, usepkey ? (fakepkey ? __real_mprotect(p, n, prot) : __real_pkey_mprotect(p, n, prot, pkey)) : __real_mprotect(p, n, prot));
    if (!r) { prot_range((uintptr_t)p, up((uintptr_t)p + n), prot & 7, usepkey ? pkey : -1); if (shim_rec) EV().push_back({prot & PROT_WRITE ? 1 : 4, (uintptr_t)p, up(n)}); }
    return r;
}
int __wrap_mprotect(void *p, size_t n, int prot) { return prot_common(p, n, prot, -1, false); }
int __wrap_pkey_mprotect(void *p, size_t n, int prot, int pkey) { return prot_common(p, n, prot, pkey, true); }
void *__wrap_mremap(void *p, size_t on, size_t nn, int flags, ...) {
    if (shim_sched_hook) shim_sched_hook(2, p);
    L l;
    void *np = nullptr;
    if (flags & MREMAP_FIXED) { va_list ap; va_start(ap, flags); np = va_arg(ap, void *); va_end(ap); }
    if (fault(K_MREMAP)) return MAP_FAILED;
    void *r = REAL(l, (flags & MREMAP_FIXED) ? __real_mremap(p, on, nn, flags, np) : __real_mremap(p, on, nn, flags));
    if (r == MAP_FAILED) return r;
    auto it = find((uintptr_t)p);
    int prot = it == M().end() ? (PROT_READ | PROT_WRITE) : it->second.prot;
    u64 oid = it == M().end() ? 0 : it->second.id;
    u64 id = 0; auto d = find((uintptr_t)r); if (d != M().end()) id = d->second.id;
    if (!id) id = oid ? oid : next_id++;
    erase_range((uintptr_t)p, up((uintptr_t)p + on)); if (shim_map_hook) { shim_map_hook(0, (uintptr_t)p, up(on)); shim_map_hook(1, (uintptr_t)r, up(nn)); }
    set_range((uintptr_t)r, up((uintptr_t)r + nn), prot, id);
    return r;
}
int __wrap_madvise(void *p, size_t n, int a) {
    if (shim_sched_hook) shim_sched_hook(2, p);
    L l;
    if (fault(K_MADVISE)) return -1;
    if (shim_rec) EV().push_back({3, (uintptr_t)p, up(n)});
    return REAL(l, __real_madvise(p, n, a));
}
__attribute__((weak)) ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags) {
    if (shim_sched_hook) shim_sched_hook(3, buf);
    L l;
    shim_getrandom_calls++;
    size_t give = n;
    if (shim_getrandom_plan) { int e = shim_getrandom_plan(n, &give); if (e) { errno = e; return -1; } }
    if (give > n) give = n;
    shim_getrandom_bytes += give;
    if (shim_rawrandom) return REAL(l, __real_getrandom(buf, give, flags));
    if (l.sv == 1 && vp_sys_hook) vp_sys_hook(318, (long)buf, n, flags, 0, 0, 0);
    u8 *b = (u8 *)buf;
    for (size_t i = 0; i < give; i++) b[i] = (u8)(sm64(rnd_state) >> 24);
    return give;
}
static bool shim_prctl_own(uintptr_t b, size_t c) { auto it = find(b); return it != M().end() && !owned(b, up(b + c)); } // starts in a mapping of the allocator and leaves it
// labels of LABEL_MEMORY builds: may fail on any kernel, must be well formed
int __real_prctl(int, ...);
} int shim_prctl_mode; u64 shim_prctl_calls; char shim_prctl_bad[160]; bool shim_pkey_fail; extern "C" {
int __wrap_prctl(int op, ...) {
    va_list ap; va_start(ap, op); unsigned long a = va_arg(ap, unsigned long), b = va_arg(ap, unsigned long), c = va_arg(ap, unsigned long), d = va_arg(ap, unsigned long); va_end(ap);
    if (op != 0x53564d41) return __real_prctl(op, a, b, c, d);
    L l; shim_prctl_calls++; if (l.sv == 1 && vp_sys_hook) vp_sys_hook(157, op, a, b, c, d, 0);
    const char *n = (const char *)d; size_t k = 0; bool ok = n; if (n) { for (; n[k]; k++) ok &= n[k] >= 32 && n[k] < 127 && !strchr("\\`$[]", n[k]); ok &= k > 0 && k < 80; }
    if (!shim_prctl_bad[0] && (a || b & 4095 || !c || !ok || shim_prctl_own(b, c))) snprintf(shim_prctl_bad, sizeof shim_prctl_bad, "prctl(PR_SET_VMA, %lu, %#lx, %lu, \"%.40s\") is malformed", a, b, c, n ? n : "(null)");
    if (shim_prctl_mode == 1 || (shim_prctl_mode == 2 && shim_prctl_calls % 3 == 0)) { errno = shim_prctl_mode == 1 ? EINVAL : ENOMEM; return -1; }
    return 0;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    if (fd == 2 && shim_fatal_buf) {
        size_t l = strlen(shim_fatal_buf); size_t c = n; if (l + c + 1 > shim_fatal_cap) c = shim_fatal_cap - l - 1;
        memcpy(shim_fatal_buf + l, buf, c); shim_fatal_buf[l + c] = 0; return n;
    }
    return __real_write(fd, buf, n);
}
void __wrap_abort(void) {
    if (shim_abort_hook) shim_abort_hook();
    if (shim_aborted) { *shim_aborted = 1; _exit(77); }
    __real_abort();
}
int __real_pkey_alloc(unsigned, unsigned); int __real_pkey_set(int, unsigned); int pkey_get(int);
int __wrap_pkey_alloc(unsigned f, unsigned r) {
    L l; if (l.sv == 1 && vp_sys_hook) vp_sys_hook(330, f, r, 0, 0, 0, 0);
    if (shim_pkey_fail) { errno = ENOSPC; return -1; }
    int k = REAL(l, __real_pkey_alloc(f, r));
    if (k == -1) { fakepkey = true; k = 5; fakerights = r; } // no protection keys here: keep track of the rights only
    shim_pkey = k; return k;
}
int __wrap_pkey_set(int k, unsigned r) { if (fakepkey && k == shim_pkey) { fakerights = r; return 0; } return __real_pkey_set(k, r); }
int shim_pkey_rights() { return shim_pkey == -1 ? -1 : fakepkey ? (int)fakerights : pkey_get(shim_pkey); }
bool shim_pkey_fake() { return fakepkey; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { shim_locks++; if (shim_sched_hook) { shim_sched_hook(0, m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (shim_sched_hook) { shim_sched_hook(1, m); return 0; } return __real_pthread_mutex_unlock(m); }
}
