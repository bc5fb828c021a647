// Distribution engine: a case draws thousands of values (region bases, guard sizes, slots, canaries, quarantine
// delays) from freshly initialised allocators whose operating-system seeds differ, and compares their
// distribution with the documented one (chi-square; the acceptance limit is far beyond sampling noise).
#include "caselib.h"
#include "hist.h"
#include <algorithm>
#include <map>
#include <math.h>
#include <set>
#include <stdarg.h>
#include <unordered_map>
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
const char *engine_name = "dist";
enum { C_PROC, C_VAL, C_TESTS, C_LAYOUT, C_SLOT, C_CANARY, C_QUAR, C_RQUAR, C_FSQ, C_GUARD, C_LOW, C_PURGED };
std::vector<const char *> count_names = {"processes", "values", "distribution_tests", "layout_cases", "slot_cases", "canary_cases", "slot_quarantine_cases", "region_quarantine_cases", "slab_quarantine_cases", "guard_cases", "lowest_slot_allocations", "canaries_after_release"};
static const double ZMAX = 8.5; // standard deviations (one-sided tail below 1e-16)
static char what_[300];
// Wilson-Hilferty: standard normal equivalent of a chi-square value
static double chiz(double x2, double df) { return (pow(x2 / df, 1.0 / 3) - (1 - 2 / (9 * df))) / sqrt(2 / (9 * df)); }
struct Hist { // counts against expected probabilities
    std::vector<double> p; std::vector<u64> n; u64 tot = 0;
    explicit Hist(size_t bins) : p(bins, 1.0 / bins), n(bins, 0) {}
    void add(size_t i) { if (i >= n.size()) fail("%s: value %zu outside 0..%zu", what_, i, n.size() - 1); n[i]++; tot++; }
    void test(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); char b[200]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        // merge bins until every expectation is at least 8
        std::vector<double> e; std::vector<double> o; double ae = 0, ao = 0;
        for (size_t i = 0; i < n.size(); i++) { ae += p[i] * tot; ao += n[i]; if (ae >= 8) { e.push_back(ae); o.push_back(ao); ae = ao = 0; } }
        if (ae > 0 || ao > 0) { if (e.empty()) return; e.back() += ae; o.back() += ao; }
        if (e.size() < 2) return;
        double x = 0; size_t wi = 0; double wd = 0; for (size_t i = 0; i < e.size(); i++) { double d = (o[i] - e[i]) * (o[i] - e[i]) / e[i]; x += d; if (d > wd) wd = d, wi = i; }
        count(C_TESTS); double z = chiz(x, e.size() - 1);
        if (z > ZMAX) fail("%s: not distributed as documented: chi-square %.1f over %zu bins of %lu values (%.1f standard deviations); bin %zu has %.0f, expected %.1f", b, x, e.size(), tot, z, wi, o[wi], e[wi]);
    }
};
// ---- sample processes
static u64 *buf_; static size_t bufn_;
template <class F> static std::vector<u64> process(u64 seed, F f) {
    if (!buf_) { bufn_ = 1 << 21; buf_ = (u64 *)mmap(nullptr, bufn_ * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (buf_ == MAP_FAILED) giveup(); }
    buf_[0] = 0; count(C_PROC);
    pid_t p = fork(); if (p < 0) giveup();
    if (!p) { shim_seed(seed); std::vector<u64> v; f(v); if (v.size() + 1 > bufn_) _exit(77); buf_[0] = v.size(); memcpy(buf_ + 1, v.data(), v.size() * 8); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (CS_->msg[0]) _exit(1); fail("a sample process ended with status %x", st); }
    count(C_VAL, buf_[0]); return std::vector<u64>(buf_ + 1, buf_ + 1 + buf_[0]);
}
static uintptr_t slab_lo; static u64 slab_len; static std::map<uintptr_t, u64> maps_;
static void on_mmap(uintptr_t p, size_t n, int, bool fixed) { if (fixed) return; maps_[p] = n; if (n > slab_len) slab_lo = p, slab_len = n; }
static u64 reqfor(int c) { return c ? SC[c] - canary() : 0; }
static u64 pages(u64 n) { return n >> 12; }
// slab activated by the last allocation, or 0
static uintptr_t newslab(u64 *len = nullptr) { size_t n; ShimEv *e = shim_events(&n); uintptr_t r = 0; for (size_t i = 0; i < n; i++) if (e[i].kind == 1) { r = e[i].p; if (len) *len = e[i].n; } shim_events_clear(); return r; }

// ---- region bases and the guard of the allocator state
struct LT { std::vector<u64> v; };
static void *layout_main(void *a) {
    LT *t = (LT *)a;
    for (int c = 0; c < nclasses(); c++) {
        shim_events_clear(); u8 *p = (u8 *)h_malloc(reqfor(c)); if (!p) fail("allocation of %lu refused", reqfor(c));
        uintptr_t b = newslab(); if (!c) b = (uintptr_t)p & ~4095ull; if (!b) { b = 0; }
        t->v.push_back(b); t->v.push_back(((uintptr_t)p - b) / clssize(c));
    }
    return nullptr;
}
static void layout(Ch &c) {
    snprintf(what_, sizeof what_, "layout"); count(C_LAYOUT);
    int N = (thorough_ ? 3000 : 700), na = CFG.narena, nc = nclasses(); u64 seed = c.below(1ull << 40); u64 real = CFG.region * 2; u64 bound = CFG.region / 4096 - 1;
    note("layout over %d processes", N);
    int nb = bound <= 600 ? (int)bound : 64; auto bin = [&](u64 v) { return nb == (int)bound ? (size_t)v : (size_t)((unsigned __int128)v * nb / bound); };
    Hist all(nb), low(std::min<u64>(64, bound)), nextc(nb), nexta(nb), nextp(nb), mg(real / 4096 <= 1200 ? real / 4096 : 64), fs(16), mgrel(16); std::vector<Hist> per(na * nc, Hist(8)); std::vector<u64> prev; std::set<u64> seen; u64 lowmod = low.n.size();
    std::vector<Hist> slotrel(nc, Hist(2)); for (int k = 1; k < nc; k++) slotrel[k] = Hist(SLOTS[k]);
    for (int i = 0; i < N; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_mmap_hook = on_mmap; shim_rec = true; std::vector<LT> t(na); layout_main(&t[0]);
            for (int a = 1; a < na; a++) { pthread_t th; if (pthread_create(&th, nullptr, layout_main, &t[a])) _exit(78); pthread_join(th, nullptr); }
            // the allocator state: the largest other reservation
            uintptr_t s = 0; u64 sl = 0; for (auto &m : maps_) if (m.first != slab_lo && m.second > sl && shim_prot(m.first) == 0) sl = m.second, s = m.first;
            uintptr_t lo, hi; int pr; u64 id; if (!shim_seg(s, &lo, &hi, &pr, &id)) _exit(79);
            o.push_back(hi - s); o.push_back(slab_lo); for (auto &x : t) for (u64 y : x.v) o.push_back(y);
        });
        u64 g = pages(v[0]); if (v[0] & 4095 || g < 1 || g > real / 4096) fail("guard before the allocator state is %lu pages, documented 1..%lu", g, real / 4096);
        mg.add(mg.n.size() == real / 4096 ? g - 1 : (size_t)((unsigned __int128)(g - 1) * 64 / (real / 4096)));
        std::vector<u64> gap(na * nc, ~0ull);
        for (int a = 0; a < na; a++) for (int k = 0; k < nc; k++) {
            u64 b = v[2 + (a * nc + k) * 2]; if (!b) continue; u64 off = b - v[1]; u64 r = off / real;
            u64 gp = pages(off % real); if (off % 4096) fail("region base not page aligned"); (void)r;
            if (gp < 1 || gp > bound) fail("base of class %u lies %lu pages into its range, documented 1..%lu", SC[k], gp, bound);
            gap[a * nc + k] = gp - 1; all.add(bin(gp - 1)); low.add((gp - 1) % lowmod); per[a * nc + k].add((gp - 1) * 8 / bound);
            if (k && gap[a * nc + k - 1] != ~0ull) nextc.add(bin((gp - 1 + bound - gap[a * nc + k - 1]) % bound));
            if (a && gap[(a - 1) * nc + k] != ~0ull) nexta.add(bin((gp - 1 + bound - gap[(a - 1) * nc + k]) % bound));
            if (!prev.empty() && prev[a * nc + k] != ~0ull) nextp.add(bin((gp - 1 + bound - prev[a * nc + k]) % bound));
            if (a && CFG.slotrand && k && SLOTS[k] > 1) { u64 s1 = v[3 + (a * nc + k) * 2], s0 = v[3 + ((a - 1) * nc + k) * 2]; if (s1 < SLOTS[k] && s0 < SLOTS[k]) slotrel[k].add((s1 + SLOTS[k] - s0) % SLOTS[k]); }
            fs.add(((gp - 1) * 16 / bound + 16 - (g - 1) * 16 / (real / 4096)) % 16);
        }
        prev = gap;
    }
    if (bound % lowmod == 0 || bound > 100000) low.test("low bits of the region bases");
    all.test("region bases"); nextc.test("difference of the bases of adjacent size classes"); nexta.test("difference of the bases of a class in adjacent arenas"); nextp.test("difference of a base between processes");
    mg.test("guard of the allocator state"); fs.test("region base relative to the state guard");
    for (int a = 0; a < na; a++) for (int k = 0; k < nc; k++) per[a * nc + k].test("base of class %u in arena %d", SC[k], a);
    for (int k = 1; k < nc; k++) if (SLOTS[k] > 1) slotrel[k].test("first slot of class %u relative to the one in the previous arena", SC[k]);
    nontrivial();
}
// the guards around the allocator state alone: cheap processes, many of them
static void stateguards(Ch &c) {
    snprintf(what_, sizeof what_, "state guard"); count(C_LAYOUT); u64 seed = c.below(1ull << 40), real = CFG.region * 2; int N = 3000; note("guards of the allocator state over %d processes", N);
    Hist lo(64), up(16); std::vector<u64> ups; std::set<u64> dist; u64 R = real / 4096;
    for (int i = 0; i < N; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_mmap_hook = on_mmap; if (!h_malloc(1)) _exit(80); uintptr_t s = 0; u64 sl = 0; for (auto &m : maps_) if (m.first != slab_lo && m.second > sl && shim_prot(m.first) >= 0) sl = m.second, s = m.first;
            uintptr_t a, b; int pr; u64 id; if (!shim_seg(s, &a, &b, &pr, &id)) _exit(79); o.push_back(pr ? 0 : b - s); o.push_back(sl);
        });
        u64 g = pages(v[0]); if (v[0] & 4095 || g < 1 || g > R) fail("guard before the allocator state is %lu pages, documented 1..%lu", g, R);
        lo.add((size_t)((unsigned __int128)(g - 1) * 64 / R)); ups.push_back(v[1] - v[0]); dist.insert(ups.back());
    }
    lo.test("guard before the allocator state");
    // the state's own size is constant: what varies beyond it is the guard after it
    u64 mn = *std::min_element(ups.begin(), ups.end()), mx = *std::max_element(ups.begin(), ups.end());
    if (mx - mn > real || mx - mn < real / 2 || dist.size() < std::min<u64>(R, N) / 3) fail("the guard after the allocator state takes %zu values within %lu bytes over %d processes, documented 1..%lu pages", dist.size(), mx - mn, N, R);
    nontrivial();
}
// ---- slots
static int multislot(Ch &c, u64 maxsz = 16384) { if (c.chance(25)) return 1 + c.below(3); for (;;) { int k = 1 + c.below(nclasses() - 1); if (SLOTS[k] > 1 && SC[k] <= maxsz) return k; } }
static void slots(Ch &c) {
    int k = multislot(c); int S = SLOTS[k]; bool mixed = !CFG.srand_ && !CFG.squeue && c.chance(60); u64 seed = c.below(1ull << 40); int nproc = 12; u64 per = (thorough_ ? 200000 : 40000) / nproc;
    snprintf(what_, sizeof what_, "slot of class %u", SC[k]); count(C_SLOT); note("slots of class %u%s", SC[k], mixed ? " with frees" : "");
    Hist first(S), pit(32), pitn(16), rel(32); double lastu = -1;
    for (int i = 0; i < nproc; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_rec = true; Rng r(mix(seed, i + 7777)); uintptr_t slab = 0; std::vector<u8 *> in(S, nullptr); int used = 0; u64 n = 0;
            while (n < per) {
                if (mixed && used > 1 && used < S && r.chance(45)) { int j; do j = r.below(S); while (!in[j]); h_free(in[j]); in[j] = nullptr; used--; o.push_back(1000 + j); continue; }
                u8 *p = (u8 *)h_malloc(reqfor(k)); if (!p) _exit(80); uintptr_t ns = newslab();
                if (ns) { if (slab && used != S) _exit(81); slab = ns; std::fill(in.begin(), in.end(), nullptr); used = 0; o.push_back(2000); }
                u64 j = ((uintptr_t)p - slab) / SC[k]; if ((uintptr_t)p < slab || j >= (u64)S || in[j]) _exit(82);
                in[j] = p; used++; o.push_back(j); n++;
            }
        });
        std::vector<bool> u(S, false); Rng r(mix(seed, i)); int used = 0; lastu = -1;
        for (u64 x : v) {
            if (x == 2000) { std::fill(u.begin(), u.end(), false); used = 0; continue; }
            if (x >= 1000) { u[x - 1000] = false; used--; continue; }
            if (CFG.slotrand) {
                if (!used) first.add(x);
                // start at a uniformly random slot, take the next free one: probability integral transform
                if (used < S - 1) { double cdf = 0, px = 0; int run = 0; int firstfree = -1;
                    for (int s = 0; s < S; s++) { if (u[s]) { run++; continue; } if (firstfree < 0) { firstfree = s; } double pr = run + 1; run = 0; if ((u64)s < x) cdf += pr; if ((u64)s == x) px = pr; }
                    // the used run at the end belongs to the first free slot
                    if ((u64)firstfree == x) px += run; else cdf += run;
                    double w = (cdf + px * (r.next() >> 11) * 0x1p-53) / S; size_t b = std::min<size_t>(31, w * 32); pit.add(b);
                    if (lastu >= 0) { double d = w - lastu; if (d < 0) d += 1; rel.add(std::min<size_t>(31, d * 32)); } lastu = w; }
            } else { count(C_LOW); for (u64 s = 0; s < x; s++) if (!u[s]) fail("class %u: slot %lu used although slot %lu is free (slot randomisation off)", SC[k], x, s); }
            u[x] = true; used++;
        }
    }
    if (CFG.slotrand) { first.test("first slot of a slab of class %u", SC[k]); pit.test("slots of class %u", SC[k]); rel.test("consecutive slots of class %u", SC[k]); }
    nontrivial();
}
// slots of slabs used again: kept empty, or released and taken again
static void reslots(Ch &c) {
    if (CFG.srand_ || CFG.squeue || !CFG.slotrand) return slots(c);
    int k = multislot(c); int S = SLOTS[k]; u64 seed = c.below(1ull << 40); int nproc = 8; u64 per = (thorough_ ? 200000 : 40000) / nproc; u64 ptrim = c.below(3) * 45, big = c.chance(50) ? 3 : 10, runs = 1 + c.below(4);
    snprintf(what_, sizeof what_, "slot of class %u", SC[k]); count(C_SLOT); note("slots of reused slabs of class %u, %lu%% trimmed", SC[k], ptrim);
    const char *on[] = {"never used", "kept empty", "released"}; std::vector<Hist> first(3, Hist(S)), second(3, Hist(32)), fd(3, Hist(16));
    for (int i = 0; i < nproc; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_rec = true; Rng r(mix(seed, i + 7777)); struct Sl { std::vector<bool> in; int used, origin; }; std::map<uintptr_t, Sl> slabs; u64 n = 0; std::vector<u8 *> bl;
            while (n < per) {
                u64 m = 1 + r.below(r.chance(big) ? runs * S + 2 : 4);
                for (u64 j = 0; j < m; j++, n++) {
                    u8 *p = (u8 *)h_malloc(reqfor(k)); if (!p) _exit(80); uintptr_t ns = newslab(); bl.push_back(p);
                    if (ns) { auto it = slabs.find(ns); int og = it == slabs.end() ? 0 : 2; if (og && it->second.used) _exit(81); slabs[ns] = Sl{std::vector<bool>(S), 0, og}; }
                    auto it = slabs.upper_bound((uintptr_t)p); if (it == slabs.begin()) _exit(82); --it; Sl &s = it->second; u64 x = ((uintptr_t)p - it->first) / SC[k]; if (x >= (u64)S || s.in[x]) _exit(83);
                    if (s.used < 2) { u64 f = 0; while (f < (u64)S && !s.in[f]) f++; o.push_back((u64)s.used << 40 | (u64)s.origin << 32 | f << 16 | x); }
                    s.in[x] = true; s.used++;
                }
                if (r.chance(50)) for (u64 j = bl.size(); j > 1; j--) std::swap(bl[j - 1], bl[r.below(j)]);
                while (!bl.empty()) { u8 *p = bl.back(); bl.pop_back(); auto it = --slabs.upper_bound((uintptr_t)p); Sl &s = it->second; s.in[((uintptr_t)p - it->first) / SC[k]] = false; if (!--s.used) s.origin = 1; h_free(p); }
                if (r.chance(ptrim)) h_malloc_trim(0);
            }
        });
        Rng r(mix(seed, i)); u64 lastx = ~0ull;
        for (u64 y : v) {
            u64 x = y & 0xffff, f = y >> 16 & 0xffff; int og = y >> 32 & 255; 
            if (!(y >> 40)) { first[og].add(x); if (lastx != ~0ull) fd[og].add((x + S - lastx) % S * 16 / S); lastx = x; continue; }
            // second slot: a uniformly random start, the next free slot
            u64 nx = (f + 1) % S; double lo = 0, w = x == nx ? 2 : 1; for (u64 s = 0; s < x; s++) if (s != f) lo += s == nx ? 2 : 1;
            if (S > 2) second[og].add(std::min<size_t>(31, (lo + w * (r.next() >> 11) * 0x1p-53) / S * 32));
        }
    }
    for (int og = 0; og < 3; og++) { first[og].test("first slot of a %s slab of class %u", on[og], SC[k]); second[og].test("second slot of a %s slab of class %u", on[og], SC[k]); if (S % 16 == 0) fd[og].test("first slot of a %s slab of class %u relative to the one before", on[og], SC[k]); }
    nontrivial();
}
// ---- canaries
static void canaries(Ch &c) {
    if (!CFG.canary) return; count(C_CANARY);
    snprintf(what_, sizeof what_, "canary"); u64 seed = c.below(1ull << 40); int nproc = thorough_ ? 120 : 40, nc = 6; int cl[6]; for (int &k : cl) k = c.chance(70) ? multislot(c) : 1 + c.below(nclasses() - 1); bool rel = !CFG.srand_ && !CFG.squeue;
    note("canaries of classes %u %u %u %u %u %u%s", SC[cl[0]], SC[cl[1]], SC[cl[2]], SC[cl[3]], SC[cl[4]], SC[cl[5]], rel ? " with released slabs" : "");
    std::vector<Hist> by(8, Hist(256)), xr(8, Hist(256)); std::set<u64> seen; 
    for (int i = 0; i < nproc; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_rec = true; Rng r(mix(seed, i)); std::map<uintptr_t, u64> gen, cur; std::map<uintptr_t, u64> active;
            for (int q = 0; q < nc; q++) {
                int k = cl[q]; u64 sz = SC[k]; std::vector<u8 *> bl; int want = 60; u64 lim = want * SLOTS[k]; int rounds = rel ? 4 : 1;
                auto drain = [&](uintptr_t *ns) { size_t n; ShimEv *e = shim_events(&n); for (size_t a = 0; a < n; a++) { if (e[a].kind == 1) { active[e[a].p] = e[a].n; cur.erase(e[a].p); gen[e[a].p]++; if (ns) *ns = e[a].p; } else if (e[a].kind == 2) { for (auto it = active.lower_bound(e[a].p); it != active.end() && it->first < e[a].p + e[a].n;) { cur.erase(it->first); it = active.erase(it); } } } shim_events_clear(); };
                for (int rd = 0; rd < rounds; rd++) {
                    while (bl.size() < lim) {
                        u8 *p = (u8 *)h_malloc(reqfor(k) - (SC[k] > 40 ? r.below(9) : 0)); if (!p) _exit(80); drain(nullptr);
                        auto it = active.upper_bound((uintptr_t)p); if (it == active.begin()) _exit(82); --it; uintptr_t s = it->first;
                        u64 cv; memcpy(&cv, p + sz - 8, 8);
                        auto f = cur.find(s);
                        if (f == cur.end()) { cur[s] = cv; o.push_back(cv); o.push_back(gen[s]); }
                        else if (f->second != cv) { fail("class %lu: slots of one slab have canaries %016lx and %016lx", sz, f->second, cv); }
                        bl.push_back(p);
                    }
                    for (u8 *p : bl) h_free(p); bl.clear(); drain(nullptr);
                }
            }
        });
        u64 last = 0;
        for (size_t j = 0; j + 1 < v.size(); j += 2) {
            u64 x = v[j]; if (x & 0xff) fail("first byte of a canary is %lu, documented zero", x & 0xff); if (v[j + 1] > 1) count(C_PURGED);
            if (!seen.insert(x).second && x != 0x100) fail("canary %016lx was given to two slabs%s", x, v[j + 1] > 1 ? " (a released slab is reused)" : "");
            for (int b = 1; b < 8; b++) { by[b].add(x >> b * 8 & 255); if (last) xr[b].add((x ^ last) >> b * 8 & 255); } last = x;
        }
    }
    for (int b = 1; b < 8; b++) { by[b].test("canary byte %d", b); xr[b].test("canary byte %d relative to the previous slab's", b); }
    nontrivial();
}
// ---- delays
static void geo(Hist &h, u64 R, u64 &w) { // delay bins of equal width, geometric with parameter 1/R; the last bin is the tail
    w = std::max<u64>(1, R / 8); double q = 1 - 1.0 / R; for (size_t i = 0; i < h.p.size(); i++) h.p[i] = i + 1 < h.p.size() ? pow(q, i * (double)w) - pow(q, (i + 1) * (double)w) : pow(q, i * (double)w);
}
static void add_delay(Hist &h, u64 w, u64 R, u64 g, const char *nm) { if (g < 1) fail("%s: reuse after %ld evictions of the random array", nm, (long)g); if (R == 1 && g != 1) fail("%s: delay through a one-element array is %lu", nm, g); h.add(std::min<u64>(h.p.size() - 1, (g - 1) / w)); }
static void slotquar(Ch &c) {
    if (!CFG.srand_) return; int k; u64 R; for (int t = 0;; t++) { k = multislot(c); R = qR(k); if (R <= 2048 || t > 50) break; } u64 Q = qQ(k); int S = SLOTS[k]; count(C_QUAR); u64 seed = c.below(1ull << 40);
    snprintf(what_, sizeof what_, "slot quarantine of class %u", SC[k]); note("slot quarantine delays of class %u (random %lu, queue %lu)", SC[k], R, Q);
    Hist h(40), pair(16); u64 w; geo(h, R, w);
    u64 steps = std::max<u64>(60 * R, thorough_ ? 60000 : 15000); if (steps > 120000) steps = 120000;
    for (int i = 0; i < 2; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_rec = true; Rng r(mix(seed, i)); std::vector<u8 *> pin, pool; u64 W = 32 * R + Q + 64, free_target = W - R - Q; uintptr_t slab = 0; int inslab = 0;
            while (pool.size() < W + 50 || inslab < S) { u8 *p = (u8 *)h_malloc(reqfor(k)); if (!p) _exit(80); uintptr_t ns = newslab(); if (ns) { slab = ns; inslab = 0; pin.push_back(p); } else pool.push_back(p); inslab++; }
            (void)slab; for (size_t j = pool.size(); j > 1; j--) std::swap(pool[j - 1], pool[r.below(j)]);
            for (u64 j = 0; j < W; j++) { h_free(pool.back()); pool.pop_back(); }
            for (u64 j = 0; j < free_target; j++) { u8 *p = (u8 *)h_malloc(reqfor(k)); if (!p || newslab()) { o.clear(); o.push_back(~0ull); return; } pool.push_back(p); }
            std::unordered_map<uintptr_t, u64> at;
            for (u64 t = 0; t < steps; t++) {
                u64 j = r.below(pool.size()); u8 *p = pool[j]; at[(uintptr_t)p] = t; h_free(p); u8 *q = (u8 *)h_malloc(reqfor(k)); if (newslab()) { o.push_back(~0ull - 1); return; }
                pool[j] = q; auto f = at.find((uintptr_t)q); if (f != at.end()) { if (f->second + 40 * R + Q < steps) o.push_back(t - f->second); at.erase(f); }
            }
            for (auto &a : at) if (a.second + 60 * R + Q < steps) o.push_back(1ull << 40);
        });
        if (!v.empty() && v[0] == ~0ull) { CS_->inconclusive = 1; return; } // a quarantine position was never filled (or the geometry differs: another property's matter)
        u64 last = 0;
        for (u64 d : v) { if (d == ~0ull - 1) fail("class %u: with the quarantine full, a free made no slot available (random %lu, queue %lu)", SC[k], R, Q);
            if (d <= Q) fail("class %u: slot reused %lu frees after its own, the queue alone holds %lu", SC[k], d, Q); add_delay(h, w, R, d - Q, what_); last = d; }
        (void)last;
    }
    if (R > 1) h.test("reuse delay of class %u (random array of %lu)", SC[k], R); nontrivial();
}
static std::vector<std::pair<uintptr_t, size_t>> *unmapped;
static void on_unmap(uintptr_t p, size_t n) { unmapped->push_back({p, n}); }
static void regquar(Ch &c) {
    u64 R = CFG.rrand, Q = CFG.rqueue; if (R < 2) return; count(C_RQUAR); u64 seed = c.below(1ull << 40); snprintf(what_, sizeof what_, "region quarantine"); u64 steps = std::max<u64>(70 * R + Q, 4000); int np = thorough_ ? 6 : 2; bool vary = c.chance(50); u64 base = 140000 + c.below(60000);
    note("region quarantine delays (random %lu, queue %lu), %lu frees, sizes from %lu", R, Q, steps * np, base);
    Hist h(40); u64 w; geo(h, R, w);
    for (int i = 0; i < np; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            std::vector<std::pair<uintptr_t, size_t>> un; un.reserve(64); unmapped = &un; std::map<uintptr_t, u64> at; Rng r(mix(seed, i)); u8 *p = (u8 *)h_malloc(base); h_free(p); shim_unmap_hook = on_unmap; std::vector<u8 *> pool;
            for (u64 t = 0; t < steps; t++) {
                p = (u8 *)h_malloc(vary ? base + r.below(800000) : base); if (!p) _exit(80); pool.push_back(p); if (pool.size() > 6) std::swap(pool.back(), pool[r.below(pool.size())]), p = pool.back(); pool.pop_back();
                un.clear(); h_free(p); at[(uintptr_t)p] = t;
                for (auto &u : un) { auto it = at.lower_bound(u.first); if (it != at.end() && it->first < u.first + u.second) { if (it->second + 40 * R + Q < steps) o.push_back(t - it->second); at.erase(it); } }
            }
            for (auto &a : at) if (a.second + 65 * R + Q < steps) o.push_back(1ull << 40);
        });
        for (u64 d : v) { if (d <= Q) fail("large block's address space was released %lu frees after its own, the queue alone holds %lu", d, Q); add_delay(h, w, R, d - Q, what_); }
    }
    h.test("delay of the region quarantine (random array of %lu)", R); nontrivial();
}
static void slabquar(Ch &c) {
    u64 R = CFG.fsq; if (R < 2 || CFG.srand_ || CFG.squeue || !CFG.ext) return; count(C_FSQ); u64 seed = c.below(1ull << 40); int k = 45 + c.below(4); u64 steps = thorough_ ? 40000 : 6000;
    snprintf(what_, sizeof what_, "released slab quarantine of class %u", SC[k]); note("released slab delays of class %u (random %lu)", SC[k], R); Hist h(40); u64 w; geo(h, R, w);
    for (int i = 0; i < 2; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            shim_rec = true; Rng r(mix(seed, i)); std::vector<u8 *> live; u64 M = 40 * R; std::map<uintptr_t, u64> at; u64 t = 0;
            for (u64 j = 0; j < M + 30; j++) live.push_back((u8 *)h_malloc(reqfor(k)));
            for (u64 j = 0; j < M; j++) { h_free(live.back()); live.pop_back(); }
            shim_events_clear(); // one slab is cached, the others were released: the array is full, the rest waits in order
            u64 rest = M - 1 - R; live.push_back((u8 *)h_malloc(reqfor(k))); if (newslab()) { o.push_back(~0ull); return; }
            for (u64 j = 0; j < rest; j++) live.push_back((u8 *)h_malloc(reqfor(k)));
            h_free(live.back()); live.pop_back(); shim_events_clear();
            for (; t < steps; t++) {
                u64 j = r.below(live.size()); u8 *p = live[j]; at[(uintptr_t)p] = t; h_free(p); live[j] = live.back(); live.pop_back();
                size_t n; ShimEv *e = shim_events(&n); bool rel = false; for (size_t a = 0; a < n; a++) rel |= e[a].kind == 2 && e[a].p == (uintptr_t)p; shim_events_clear(); if (!rel) { o.clear(); o.push_back(~0ull); return; }
                live.push_back((u8 *)h_malloc(reqfor(k))); u8 *q = (u8 *)h_malloc(reqfor(k)); live.push_back(q);
                auto f = at.find((uintptr_t)q); if (f != at.end()) { if (f->second + 40 * R < steps) o.push_back(t - f->second); at.erase(f); }
                u64 x = r.below(live.size()); h_free(live[x]); live[x] = live.back(); live.pop_back(); shim_events_clear();
            }
            for (auto &a : at) if (a.second + 60 * R < steps) o.push_back(1ull << 40);
        });
        if (!v.empty() && v[0] == ~0ull) { CS_->inconclusive = 1; return; }
        for (u64 d : v) add_delay(h, w, R, d, what_);
    }
    h.test("reuse delay of released slabs of class %u (random array of %lu)", SC[k], R); nontrivial();
}
// ---- guards of large blocks
static void guards(Ch &c) {
    count(C_GUARD); u64 seed = c.below(1ull << 40); int form = c.below(4); u64 req = maxsmall() + 1 + (c.chance(60) ? c.below(300000) : c.below(6 << 20)); u64 al = form == 1 ? 8192ull << c.below(6) : 1; u64 sz = 0;
    snprintf(what_, sizeof what_, "guard"); const char *fn[] = {"malloc", "aligned", "moving realloc", "threads"}; u64 N = thorough_ ? 12000 : 3000; note("guards of %lu bytes (%s)", req, fn[form]);
    std::vector<Hist> hs; u64 mx = 0; u64 prevg = ~0ull; 
    for (int i = 0; i < 3; i++) {
        auto v = process(mix(seed, i), [&](std::vector<u64> &o) {
            Rng r(mix(seed, i)); std::vector<u8 *> keep; u8 *anchor = (u8 *)h_malloc(req); o.push_back(h_malloc_usable_size(anchor));
            for (u64 j = 0; j < N; j++) {
                u8 *p;
                if (form == 1) p = (u8 *)h_memalign(al, req); else if (form == 2) { p = (u8 *)h_malloc(maxsmall() / 3); if (p) p = (u8 *)h_realloc(p, req); } else p = (u8 *)h_malloc(req);
                if (!p) _exit(80); uintptr_t lo, hi, l2, h2; int pr; u64 id, i2; if (!shim_seg((uintptr_t)p, &lo, &hi, &pr, &id) || lo != (uintptr_t)p) _exit(83);
                if (!shim_seg(lo - 1, &l2, &h2, &pr, &i2) || i2 != id || pr) { o.push_back(0); } else o.push_back(lo - l2);
                if (!shim_seg(hi, &l2, &h2, &pr, &i2) || i2 != id || pr) { o.push_back(0); } else o.push_back(h2 - hi);
                keep.push_back(p); if (keep.size() > 30) { u64 x = r.below(keep.size()); h_free(keep[x]); keep[x] = keep.back(); keep.pop_back(); }
            }
        });
        sz = v[0]; mx = sz / 4096 / CFG.guarddiv; if (!mx) return;
        if (hs.empty()) hs = {Hist(mx <= 400 ? mx : 64), Hist(mx <= 400 ? mx : 64), Hist(mx <= 400 ? mx : 64)};
        auto bin = [&](u64 g) { return mx <= 400 ? (size_t)g : (size_t)((unsigned __int128)g * 64 / mx); };
        for (size_t j = 1; j + 1 < v.size(); j += 2) for (int s = 0; s < 2; s++) {
            u64 g = pages(v[j + s]); if (v[j + s] & 4095 || g < 1 || g > mx) fail("guard %s a large block of %lu bytes is %lu pages, documented 1..%lu", s ? "after" : "before", sz, g, mx);
            hs[s].add(bin(g - 1)); if (!s) { if (prevg != ~0ull) hs[2].add(bin((g - 1 + mx - prevg) % mx)); prevg = g - 1; }
        }
    }
    hs[0].test("guard before blocks of %lu (%s)", req, fn[form]); hs[1].test("guard after blocks of %lu (%s)", req, fn[form]); hs[2].test("consecutive guards of blocks of %lu (%s)", req, fn[form]);
    nontrivial();
}
// ---- randomness after fork: no generator of a child repeats its parent's, a sibling's or a grandchild's output
struct Sq { double bits; std::vector<u64> v; }; // draws of one generator and the entropy they were taken with
static void *fork_draw_main(void *a) {
    std::vector<u64> &o = *(std::vector<u64> *)a; // per class: number of values, 16 * bits, values
    for (int k = 0; k < nclasses(); k++) {
        size_t at = o.size(); o.push_back(0); o.push_back(0); double bits = 0; uintptr_t slab = 0; int used = 0; u64 sz = clssize(k);
        for (int j = 0; j < 400 && bits < 60; j++) {
            shim_events_clear(); u8 *p = (u8 *)h_malloc(reqfor(k)); if (!p) break; o.push_back((uintptr_t)p); uintptr_t ns = newslab();
            if (ns) { slab = ns; used = 0; if (canary() && k) { u64 cv; memcpy(&cv, p + sz - 8, 8); o.push_back(cv); bits += 55; } }
            if (slab && CFG.slotrand && k) { double f = SLOTS[k] - used; if (f > 1) bits += log2(f) * 0.6; used++; } // runs of used slots make the next free one likelier
            if (!k && CFG.slotrand) bits += 2; // zero-size slots: 256 of them, mostly free
        }
        o[at] = o.size() - at - 2; o[at + 1] = bits * 16;
    }
    return nullptr;
}
static void fork_draws(std::vector<u64> &o) {
    shim_rec = true; fork_draw_main(&o); int na = CFG.narena;
    for (int a = 1; a < na; a++) { pthread_t t; if (pthread_create(&t, nullptr, fork_draw_main, &o)) _exit(78); pthread_join(t, nullptr); }
    size_t at = o.size(); o.push_back(0); o.push_back(0); double bits = 0; u64 big = 48ull << 20;
    for (int j = 0; j < 8; j++) { u8 *p = (u8 *)h_malloc(big); if (!p) break; uintptr_t lo, hi; int pr; u64 id; if (!shim_seg((uintptr_t)p - 1, &lo, &hi, &pr, &id)) _exit(83); o.push_back(hi - lo); bits += log2((double)big / 4096 / CFG.guarddiv) - 0.1; }
    o[at] = o.size() - at - 2; o[at + 1] = bits * 16;
}
static void forks(Ch &c) {
    u64 seed = c.below(1ull << 40); int n = 2 + c.below(3), warm = c.below(300), grand = c.chance(50); u64 wk[3] = {c.below(nclasses()), c.below(nclasses()), c.below(nclasses())}; bool thr = c.chance(40); note("%d children%s of a process with %d allocations", n, grand ? ", grandchildren" : "", warm);
    shim_seed(mix(seed, 1)); Rng r(seed); auto churn = [&](int m) { std::vector<void *> v; for (int i = 0; i < m; i++) { if (v.empty() || r.chance(60)) v.push_back(h_malloc(r.chance(95) ? reqfor(wk[r.below(3)]) : 200000 + r.below(1 << 20))); else { h_free(v.back()); v.pop_back(); } } };
    h_free(h_malloc(1)); churn(warm); std::vector<u64> wa; if (thr) { pthread_t t; if (!pthread_create(&t, nullptr, fork_draw_main, &wa)) pthread_join(t, nullptr); wa.clear(); }
    bufn_ = 1 << 21; buf_ = (u64 *)mmap(nullptr, bufn_ * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (buf_ == MAP_FAILED) giveup();
    std::vector<std::vector<u64>> out; std::vector<std::string> who;
    auto spawn = [&](int i, bool g) {
        buf_[0] = 0; shim_seed(mix(seed, 100 + i)); count(C_PROC); pid_t p = fork(); if (p < 0) giveup();
        if (!p) {
            if (g) { shim_seed(mix(seed, 200 + i)); pid_t q = fork(); if (q) { int st; waitpid(q, &st, 0); _exit(st ? 90 : 0); } }
            std::vector<u64> v; fork_draws(v); if (v.size() + 1 > bufn_) _exit(77); buf_[0] = v.size(); memcpy(buf_ + 1, v.data(), v.size() * 8); _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (CS_->msg[0]) _exit(1); fail("a forked process ended with status %x", st); }
        out.push_back(std::vector<u64>(buf_ + 1, buf_ + 1 + buf_[0])); who.push_back(std::string(g ? "grandchild " : "child ") + std::to_string(i)); count(C_VAL, buf_[0]);
    };
    for (int i = 0; i < n; i++) spawn(i, false);
    if (grand) { spawn(n, true); spawn(n + 1, true); }
    shim_seed(mix(seed, 300)); out.emplace_back(); fork_draws(out.back()); who.push_back("the parent");
    auto parse = [&](const std::vector<u64> &v) { std::vector<Sq> s; for (size_t i = 0; i + 1 < v.size();) { Sq q; u64 m = v[i]; q.bits = v[i + 1] / 16.0; q.v.assign(v.begin() + i + 2, v.begin() + i + 2 + m); s.push_back(q); i += 2 + m; } return s; };
    std::vector<std::vector<Sq>> P; for (auto &o : out) P.push_back(parse(o));
    size_t ng = P[0].size(); if (ng < (size_t)CFG.narena * nclasses() + 1) fail("sampling covered %zu generators", ng);
    for (size_t a = 0; a < P.size(); a++) for (size_t b = a + 1; b < P.size(); b++) for (size_t g = 0; g < ng; g++) {
        Sq &x = P[a][g], &y = P[b][g]; if (std::min(x.bits, y.bits) < 50) continue; count(C_TESTS);
        size_t m = std::min(x.v.size(), y.v.size()); if (std::equal(x.v.begin(), x.v.begin() + m, y.v.begin())) { if (g + 1 == ng) fail("after fork, %s and %s draw the same large-block guards", who[a].c_str(), who[b].c_str()); fail("after fork, %s and %s draw the same slots and canaries in class %u (generator %zu)", who[a].c_str(), who[b].c_str(), SC[g % nclasses()], g); }
        // a canary is 56 random bits: none may appear twice
    }
    if (canary()) { std::map<u64, size_t> seen; for (size_t a = 0; a < P.size(); a++) for (size_t g = 0; g + 1 < ng; g++) for (u64 x : P[a][g].v) if (!(x & 255) && x >> 48) { auto it = seen.emplace(x, a); if (!it.second) fail("canary %016lx was drawn after fork by %s and by %s", x, who[it.first->second].c_str(), who[a].c_str()); } }
    nontrivial();
}
void run_one(Ch &c) {
    case_timeout = 120; if (arg_mode == "fork") { forks(c); return; } if (arg_mode == "layout") { layout(c); return; } if (arg_mode == "state") { stateguards(c); return; } 
    if (arg_mode == "slotquar") return slotquar(c); if (arg_mode == "regquar") return regquar(c); if (arg_mode == "slabquar") return slabquar(c); if (arg_mode == "guards") return guards(c);
    u64 k = 4 + c.below(16);
    if (CFG.region < (64u << 20) && k >= 4) k = 17; // small regions run out of slabs: layout and guards only
    if (k < 6) slots(c); else if (k < 9) reslots(c); else if (k < 11) canaries(c); else if (k < 14) slotquar(c); else if (k < 16) regquar(c); else if (k < 17) slabquar(c); else guards(c);
}
