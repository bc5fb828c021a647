// History engine: profiles (one per property) and the history generator.
#pragma once
#include "hist.h"
#include <algorithm>
#include <string.h>

enum { E_MALLOC, E_CALLOC, E_ALIGNED, E_MEMALIGN, E_POSIX, E_VALLOC, E_PVALLOC, E_REALLOC0, E_REALLOC1 };
enum { F_FREE, F_SIZED, F_CFREE };
enum { B_FREED_SMALL, B_FREED_PURGED, B_FREED_LARGE, B_INTERIOR, B_INTERIOR_ODD, B_NEVER, B_FOREIGN, B_GUARD, B_GAP, B_FREED_INTERIOR, B_MAX };
static const char *badname[] = {"freed small", "freed in a released slab", "freed large", "interior", "interior unaligned", "never allocated slot", "foreign", "guard region", "region gap", "inside a freed slot"};
static const char *opname[] = {"none", "alloc", "free", "realloc", "rewrite", "verify", "query", "trim", "stats", "burst", "free_range", "churn", "large_churn", "exhaust", "huge", "bad_align", "null_ops", "fault", "thread", "size_sweep", "foreign_query", "free_all", "canary_write", "drain", "fork", "parallel", "malloc_info_reentrant",
    "bad_free", "bad_query", "bad_realloc", "canary_corrupt", "write_after_free", "sized_mismatch"};
enum Theme { TH_MIX, TH_CLASS, TH_LARGE, TH_REALLOC, TH_ZERO, TH_EXH, TH_QUAR, TH_SWEEP, TH_LEXH, TH_REUSE, TH_N };

struct Prof {
    int id = 0; u64 labels = 0; int thorough = 0;
    int th[TH_N] = {30, 25, 15, 12, 4, 0, 6, 4, 0, 4};
    int fault_pct = 0, fault_case = 0; int term_pct = 0; std::vector<int> terms; int thread_pct = 10; bool enumerate = false; bool final_free = true;
    int fork = 0, info = 0, par_pct = 0; int deep = 0, huge = 1, badalign = 1, query = 3, trim = 2, stats = 0, canwr = 1; int maxops = 60; bool aligned = true;
    bool (*nontrivial)(const u64 *cnt, bool terminal) = nullptr;
};
static inline Prof get_profile(const char *prop) {
    Prof p; p.id = atoi(prop + 1); p.labels = 1ull << p.id;
    auto th = [&](std::initializer_list<int> v) { int i = 0; for (int x : v) p.th[i++] = x; };
    //      MIX CLASS LARGE REALLOC ZERO EXH QUAR SWEEP LEXH REUSE
    p.nontrivial = [](const u64 *c, bool) { return c[0] >= 2; };
    switch (p.id) {
    case 1: th({30, 25, 12, 14, 3, 5, 6, 2, 1, 8}); p.nontrivial = [](const u64 *c, bool) { return c[9] > 0 || c[6] > 0 || c[11] > 0; }; break;       // reuse, moving realloc or recycled slab
    case 2: th({45, 12, 18, 10, 5, 2, 4, 2, 0, 4}); p.badalign = 8; p.nontrivial = [](const u64 *c, bool) { return c[18] > 0 || c[22] > 0 || c[0] > 8; }; break;
    case 3: th({15, 8, 15, 60, 2, 2, 4, 0, 1, 2}); p.huge = 3; p.nontrivial = [](const u64 *c, bool) { return c[6] + c[7] > 0; }; break;
    case 4: th({25, 25, 15, 15, 2, 2, 12, 4, 0, 15}); p.nontrivial = [](const u64 *c, bool) { return c[34] > 0 || c[11] > 0 || c[6] + c[7] > 0; }; break; // zero check on reused memory
    case 5: th({30, 10, 12, 10, 3, 25, 3, 0, 10, 3}); p.huge = 12; p.nontrivial = [](const u64 *c, bool) { return c[15] + c[17] > 0; }; break;
    case 6: th({20, 5, 3, 10, 60, 4, 3, 0, 0, 2}); p.query = 8; p.nontrivial = [](const u64 *c, bool) { return c[3] > 1; }; break;
    case 7: th({40, 20, 15, 10, 8, 0, 4, 3, 0, 3}); p.query = 20; p.nontrivial = [](const u64 *c, bool) { return c[14] > 0; }; break;
    case 8: th({25, 8, 15, 20, 2, 0, 2, 40, 0, 0}); p.nontrivial = [](const u64 *c, bool) { return c[0] > 4; }; break;
    case 9: th({25, 25, 15, 8, 8, 2, 10, 0, 1, 8}); p.term_pct = 100; p.terms = {T_BADFREE}; p.final_free = false; p.nontrivial = [](const u64 *, bool t) { return t; }; break;
    case 10: th({25, 25, 15, 8, 8, 2, 10, 0, 0, 8}); p.term_pct = 100; p.terms = {T_BADQUERY, T_BADREALLOC}; p.final_free = false; p.nontrivial = [](const u64 *, bool t) { return t; }; break;
    case 11: th({30, 20, 20, 15, 6, 0, 4, 6, 0, 4}); p.term_pct = 60; p.terms = {T_SIZEDMIS}; p.nontrivial = [](const u64 *c, bool t) { return t || c[31] > 0; }; break;
    case 12: th({25, 30, 3, 15, 0, 1, 12, 0, 0, 12}); p.term_pct = 70; p.terms = {T_CANARY}; p.canwr = 10; p.nontrivial = [](const u64 *c, bool t) { return t || c[27] > 0; }; break;
    case 13: th({20, 35, 3, 10, 0, 1, 10, 0, 0, 15}); p.term_pct = 100; p.terms = {T_WAF}; p.final_free = false; p.nontrivial = [](const u64 *, bool t) { return t; }; break;
    case 14: th({30, 20, 15, 15, 6, 6, 6, 4, 2, 6}); p.huge = 2; p.nontrivial = [](const u64 *c, bool) { return c[0] >= 5; }; break;
    case 15: th({25, 30, 5, 20, 2, 1, 8, 8, 0, 8}); p.nontrivial = [](const u64 *c, bool) { return c[24] > 0; }; break;
    case 16: th({15, 2, 60, 20, 0, 0, 0, 0, 2, 0}); p.nontrivial = [](const u64 *c, bool) { return c[2] > 0 && c[4] > 0; }; break;
    case 17: th({20, 2, 60, 25, 0, 0, 0, 0, 1, 0}); p.nontrivial = [](const u64 *c, bool) { return c[25] > 0; }; break;
    case 18: th({25, 60, 2, 5, 2, 10, 6, 4, 0, 4}); p.nontrivial = [](const u64 *c, bool) { return c[10] >= 2; }; break;
    case 19: th({15, 40, 0, 6, 3, 4, 50, 0, 0, 20}); p.nontrivial = [](const u64 *c, bool) { return c[9] > 0; }; break;
    case 20: th({10, 60, 0, 4, 2, 6, 10, 0, 0, 20}); p.trim = 10; p.nontrivial = [](const u64 *c, bool) { return c[12] > 0; }; break;
    case 21: th({35, 40, 12, 10, 5, 6, 4, 6, 0, 4}); p.thread_pct = 60; p.nontrivial = [](const u64 *c, bool) { return c[21] > 0 || c[0] > 20; }; break;
    case 26: th({45, 15, 25, 25, 2, 4, 3, 0, 3, 6}); p.enumerate = true; p.maxops = 28; p.term_pct = 25; p.terms = {T_BADFREE}; p.labels |= 1ull << 1 | 1ull << 3; p.nontrivial = [](const u64 *c, bool) { return c[16] > 0; }; break;
    case 27: th({45, 15, 25, 25, 2, 4, 3, 0, 3, 6}); p.enumerate = true; p.maxops = 24; p.final_free = false; p.nontrivial = [](const u64 *, bool t) { return t; }; break;
    case 23: th({40, 20, 20, 20, 6, 3, 4, 2, 1, 6}); p.fault_pct = 20; p.thread_pct = 40; p.huge = 4; p.badalign = 3; p.stats = 4; p.trim = 5; p.fork = 2; p.info = 4; p.par_pct = 6; p.nontrivial = [](const u64 *c, bool) { return c[38] > 20; }; break;
    case 28: th({40, 30, 20, 20, 6, 3, 8, 2, 1, 10}); p.fork = 12; p.thread_pct = 40; p.stats = 2; p.nontrivial = [](const u64 *c, bool) { return c[36] > 0; }; break;
    case 31: th({40, 25, 25, 20, 6, 4, 6, 2, 2, 8}); p.fault_pct = 10; p.thread_pct = 20; p.huge = 4; p.badalign = 2; p.stats = 2; p.trim = 4; p.fork = 1; p.par_pct = 8; p.term_pct = 15; p.terms = {T_BADFREE, T_BADQUERY}; p.nontrivial = [](const u64 *c, bool) { return c[37] > 3; }; break;
    case 30: th({30, 25, 15, 20, 6, 3, 6, 2, 1, 6}); p.stats = 12; p.trim = 5; p.nontrivial = [](const u64 *c, bool) { return c[20] > 0 && c[4] > 0; }; break;
    case 35: th({15, 35, 30, 15, 3, 4, 20, 0, 2, 20}); p.trim = 4; p.nontrivial = [](const u64 *c, bool) { return c[4] > 10; }; break;
    case 36: th({30, 20, 30, 10, 6, 2, 3, 0, 1, 4}); p.fault_pct = 25; p.nontrivial = [](const u64 *c, bool) { return c[30] > 0; }; break;
    }
    switch (p.id) { case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 16: case 17: case 18: case 20: case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 19: case 21: case 28: case 30: case 35: p.fault_case = p.id == 3 ? 35 : 15; }
    switch (p.id) { case 1: case 7: case 9: case 10: case 12: case 14: case 18: case 21: p.deep = 1200; }
    if (getenv("VP_DEEP")) p.deep = atoi(getenv("VP_DEEP"));
    return p;
}

struct Gen {
    const Prof &P; Rng r; std::vector<Op> ops; u32 nh = 0; bool threads = false;
    struct H { u64 size; bool live; bool large; u32 pos = 0; }; std::vector<H> hs; std::vector<u32> lv; u64 bytes = 0; u64 largecnt = 0;
    u64 focus[2]; bool small_region;
    Gen(const Prof &p, u64 seed) : P(p), r(seed) { small_region = CFG.region <= (64u << 20); }
    u64 cap(u64 s) { return s; }
    u64 size_small() {
        u64 mx = maxsmall() - canary(); u64 c = r.below(100);
        if (c < 34) { u64 k = SC[r.below(nclasses())]; long d; switch (r.below(6)) { case 0: d = 0; break; case 1: d = 1; break; case 2: d = -1; break; case 3: d = -(long)canary(); break; case 4: d = 1 - (long)canary(); break; default: d = -(long)r.below(16); } long s = (long)k + d; return s < 0 ? 0 : std::min<u64>(s, mx); }
        if (c < 60) return r.range(1, 512);
        if (c < 82) { u64 b = r.range(0, 16); return std::min<u64>(r.range(1ull << b, 2ull << b), mx); }
        if (c < 87) return 0;
        return focus_size(r.below(2));
    }
    u64 focus_size(int i) { u64 c = focus[i]; u64 hi = SC[c] - (c ? canary() : 0), lo = c > 1 ? SC[c - 1] - canary() + 1 : c; return r.chance(50) ? hi : r.range(lo, hi); }
    u64 size_large() {
        u64 mn = maxsmall() - canary() + 1; u64 c = r.below(100); u64 s;
        if (c < 30) { int b = r.range(CFG.ext ? 17 : 14, 22); s = r.range(1ull << b, 2ull << b); }
        else if (c < 50) { int b = r.range(CFG.ext ? 17 : 14, 23); s = (1ull << b) + (1ull << (b - 2)) * r.below(5) + (long)r.below(3) - 1; }
        else if (c < 65) s = 4096 * r.range(5, 1200) + (long)r.below(3) - 1;
        else if (c < 80) s = mn + r.below(70000);
        else if (c < 92) s = (31ull << 20) + r.below(16ull << 20);
        else if (c < 97) s = (1ull << (!fpct && P.id != 26 && P.id != 27 && r.chance(35) ? r.range(29, 33) : r.range(24, 28))) + (long)r.below(3) - 1;
        else s = 33554432 + (long)r.below(3) - 1;
        return std::max(s, mn);
    }
    u64 size_any() { return r.chance(85) ? size_small() : size_large(); }
    u64 align() { u64 c = r.below(100); if (c < 70) return 1ull << r.range(0, 12); if (c < 95) return 1ull << r.range(13, 21); return 1ull << r.range(22, 27); }
    int thr_tick = 0, fpct = 0;
    void push(Op o) {
        if (threads && --thr_tick < 0) { ops.push_back(Op{O_THREAD, 0, 0, r.below(9), 0, 0}); thr_tick = r.below(8); }
        if (fpct && r.chance(fpct)) ops.push_back(Op{O_FAULT, (int)(r.chance(70) ? K_ALL : 1 << r.below(6)), 0, r.chance(85) ? r.below(4) : r.below(400), r.chance(70) ? 1 : r.range(2, 5), ENOMEM});
        ops.push_back(o);
    }
    u32 newh(u64 n = 1) { u32 h = nh; nh += n; hs.resize(nh, H{0, false, false}); return h; }
    void mark(u32 h, u64 size) { bool lg = size + canary() > maxsmall(); hs[h] = H{size, true, lg, (u32)lv.size()}; lv.push_back(h); bytes += lg ? 16384 : size; largecnt += lg; }
    void unmark(u32 h) { if (!hs[h].live) return; hs[h].live = false; bytes -= hs[h].large ? 16384 : hs[h].size; largecnt -= hs[h].large; u32 i = hs[h].pos; lv[i] = lv.back(); hs[lv[i]].pos = i; lv.pop_back(); }
    u32 pick() { return lv.empty() ? 0 : lv[r.chance(40) ? lv.size() - 1 - r.below(std::min<size_t>(lv.size(), 4)) : r.below(lv.size())]; }
    void alloc(u64 size) {
        static const int ent[] = {E_MALLOC, E_MALLOC, E_MALLOC, E_CALLOC, E_REALLOC0, E_ALIGNED, E_MEMALIGN, E_POSIX, E_VALLOC, E_PVALLOC};
        int e = ent[r.below(P.aligned ? 10 : 5)]; u64 a = 1, n = 1; u32 h = newh();
        if (e == E_CALLOC) { n = r.range(1, 9); if (size % n) n = 1; size /= n; }
        if (e == E_ALIGNED || e == E_MEMALIGN || e == E_POSIX) { a = align(); if (r.chance(10)) size = 0; if (a >= (1 << 22) && r.chance(70)) a = 8192; }
        if (e == E_PVALLOC && !size) size = 1;
        push(Op{O_ALLOC, e, h, size, a, n}); mark(h, size * n);
    }
    int fmode() { u64 c = r.below(10); return c < 6 ? F_FREE : c < 9 ? F_SIZED : F_CFREE; }
    void freeone() { if (lv.empty()) return; u32 h = pick(); push(Op{O_FREE, fmode(), h, 0, 0, 0}); unmark(h); }
    void extras() {
        int w = P.huge + P.badalign + P.query + P.trim + P.stats + P.canwr + P.fork + P.info + 2; int c = r.below(w + 30);
        if ((c -= P.huge) < 0) return huge();
        if ((c -= P.badalign) < 0) return badalign();
        if ((c -= P.query) < 0) { if (r.chance(15)) push(Op{O_FOREIGNQ, 0, 0, r.next(), 0, 0}); else if (!lv.empty()) push(Op{O_QUERY, 0, pick(), r.next(), 0, 0}); return; }
        if ((c -= P.trim) < 0) return push(Op{O_TRIM, 0, 0, 0, 0, 0});
        if ((c -= P.stats) < 0) return push(Op{O_STATS, 0, 0, 0, 0, 0});
        if ((c -= P.canwr) < 0) { if (!lv.empty()) push(Op{O_CANWRITE, 0, pick(), r.below(256), 0, 0}); return; }
        if ((c -= P.fork) < 0) return push(Op{O_FORK, 0, 0, r.below(20), 0, r.next()});
        if ((c -= P.info) < 0) return push(Op{O_INFO, 0, 0, r.next() >> 8, 0, 0});
        if (c == -0) return push(Op{O_VERIFY, 0, 0, 0, 0, 0});
        if (c == 1) return push(Op{O_NULLOPS, 0, 0, r.next(), 0, 0});
        if (c < 6 && !lv.empty()) push(Op{O_REFILL, 0, pick(), 0, 0, 0});
    }
    void huge() {
        static const int ent[] = {E_MALLOC, E_CALLOC, E_ALIGNED, E_MEMALIGN, E_POSIX, E_VALLOC, E_PVALLOC, E_REALLOC0, E_REALLOC1};
        int e = ent[r.below(9)]; u64 a, b = 1, c = 16; u64 w = r.below(8);
        switch (w) { case 0: a = ~0ull - r.below(20); break; case 1: a = ~0ull - r.below(1 << 20); break; case 2: a = (1ull << 63) + (long)r.below(5) - 2; break; case 3: a = (1ull << r.range(48, 63)) + r.below(8192) - 4096; break;
        case 4: a = ~0ull - 4096 * r.below(40) - r.below(3); break; case 5: a = 0xfull << 60; a += r.below(1ull << 60); break; case 6: a = (7ull << 61) + (long)r.below(3) - 1; break; default: a = r.next() | 1ull << 62; }
        if (e == E_CALLOC) { // products that overflow, some wrapping to small values
            switch (r.below(4)) { case 0: a = 1ull << r.range(32, 63); b = (1ull << (64 - (63 - __builtin_clzll(a)))) + r.below(3); break;
            case 1: a = r.next() | 1ull << 40; b = ~0ull / a + 1 + r.below(5); break; case 2: b = ~0ull; a = r.range(2, 1000); break; default: b = 1 + r.below(16); a = (1ull << 63) / b * 2 > (1ull << 50) ? (1ull << 62) : (1ull << 62); } if (r.chance(50)) std::swap(a, b); }
        if (e == E_ALIGNED || e == E_MEMALIGN || e == E_POSIX) { c = 1ull << r.range(0, 30); if (r.chance(30)) { c = 1ull << r.range(48, 63); a = r.chance(50) ? r.below(100000) : a; if (r.chance(30)) a = ~0ull - r.below(100); } }
        u32 h = lv.empty() ? 0 : pick(); if (e == E_REALLOC1 && lv.empty()) e = E_MALLOC;
        push(Op{O_HUGE, e, h, a, b, c});
    }
    void badalign() {
        static const int ent[] = {E_ALIGNED, E_MEMALIGN, E_POSIX}; int e = ent[r.below(3)]; u64 al;
        switch (r.below(5)) { case 0: al = 0; break; case 1: al = 3 * r.range(1, 100); break; case 2: al = (1ull << r.range(2, 62)) + 1 + r.below(3); break; case 3: al = r.next() | 3; break; default: al = (1ull << r.range(5, 40)) | (1ull << r.range(0, 4)); }
        if (e == E_POSIX && r.chance(40)) al = 1ull << r.range(0, 2);
        if (!(al & (al - 1)) && al && !(e == E_POSIX && al < 8)) al = 24;
        if (!al && false) al = 3;
        push(Op{O_BADALIGN, e, 0, r.chance(20) ? 0 : r.below(20000), al, 0});
    }
    void t_mix(int n, int plarge) {
        for (int i = 0; i < n; i++) {
            u64 c = r.below(100);
            if (c < 42 || lv.empty()) { u64 s = r.chance(plarge) ? size_large() : size_small(); if (bytes > (6u << 20)) s = s % 1000; alloc(s); }
            else if (c < 68) freeone();
            else if (c < 82) { u32 h = pick(); u64 s = r.chance(plarge) ? size_large() : size_small(); push(Op{O_REALLOC, 0, h, s, 0, 0}); unmark(h); mark(h, s); }
            else extras();
        }
    }
    void t_class(int n) {
        for (int i = 0; i < n; i++) {
            int f = r.below(2); u64 c = r.below(100); u64 cls = focus[f]; u64 perslab = SLOTS[cls];
            u64 lim = std::min<u64>(std::max<u64>((3u << 20) / clssize(cls), 2), 800); 
            if (c < 35) { u64 k = r.chance(30) ? perslab * r.range(1, 4) + r.below(3) - 1 : r.range(1, perslab * 2 + 4); k = std::min(k, lim); if (!k) k = 1;
                if (r.chance(P.id == 18 ? 15 : 4)) { k = std::min<u64>(perslab * (P.id == 18 && perslab <= 64 ? r.range(36, 600) : r.range(36, 160)), std::min<u64>((P.id == 18 ? 64u << 20 : 24u << 20) / clssize(cls), 20000)); if (nh + k > 40000) k = 1; u32 h = newh(k); u64 s = focus_size(f); push(Op{O_BURST, E_MALLOC, h, s, k, 1}); for (u64 j = 0; j < k; j++) mark(h + j, s); push(Op{O_FREERANGE, (int)r.below(5), h, k, r.next(), 0}); if (ops.back().e != 4) for (u64 j = 0; j < k; j++) unmark(h + j); continue; }
                if (bytes + k * clssize(cls) > (8u << 20)) { u32 b = 0; push(Op{O_FREERANGE, (int)r.below(5), b, nh, r.next(), 0}); continue; }
                u32 h = newh(k); u64 s = focus_size(f); push(Op{O_BURST, r.chance(80) ? E_MALLOC : E_CALLOC, h, s, k, 1}); for (u64 j = 0; j < k; j++) mark(h + j, s); }
            else if (c < 65 && nh) { u32 b = r.below(nh); u64 k = r.chance(40) ? nh - b : r.range(1, nh - b); push(Op{O_FREERANGE, (int)r.below(5), b, k, r.next(), 0}); if (ops.back().e != 4) for (u64 j = 0; j < k; j++) unmark(b + j); }
            else if (c < 72) freeone();
            else if (c < 80) alloc(focus_size(f));
            else if (c < 83) churn(f, 200);
            else if (c < 86 && P.trim) push(Op{O_TRIM, 0, 0, 0, 0, 0});
            else extras();
        }
    }
    void churn(int f, u64 maxn) { u64 s = focus_size(f); u64 cls = focus[f]; u64 n = qR(cls) + qQ(cls) + 2 * SLOTS[cls]; n = std::min(n * (1 + r.below(3)), maxn); push(Op{O_CHURN, r.chance(85) ? E_MALLOC : E_CALLOC, 0, s, n, r.chance(50) ? r.below(4) : r.below(2 * SLOTS[cls])}); }
    void t_large(int n) {
        for (int i = 0; i < n; i++) {
            u64 c = r.below(100);
            if (c < 40 || lv.empty()) { if (largecnt > 60) { freeone(); continue; } u64 s = size_large(); if (r.chance(25)) { u32 h = newh(); s = r.chance(40) ? r.below(maxsmall()) : s; static const int ent[] = {E_ALIGNED, E_MEMALIGN, E_POSIX}; push(Op{O_ALLOC, ent[r.below(3)], h, s, 1ull << r.range(12, 21), 1}); mark(h, s); hs[h].large = true; } else alloc(s); }
            else if (c < 65) freeone();
            else if (c < 82) { u32 h = pick(); u64 s = r.chance(85) ? (r.chance(40) && hs[h].size > 4096 ? std::max<u64>(maxsmall(), hs[h].size * r.range(1, 40) / 20) : size_large()) : size_small(); push(Op{O_REALLOC, 0, h, s, 0, 0}); unmark(h); mark(h, s); }
            else if (c < 90) { u64 cnt = r.range(4, CFG.rrand + CFG.rqueue <= 40 ? 90 : 30), s = r.chance(80) ? maxsmall() + 1 + r.below(200000) : size_large(), to = 0; // allocate, perhaps resize (in place, by copy, by remapping), free
                if (r.chance(45)) { switch (r.below(4)) { case 0: to = maxsmall() + 1 + r.below(s); break; case 1: s = (32ull << 20) + r.below(4u << 20); to = s + (1u << 20) + r.below(16u << 20); if (r.chance(50)) cnt = r.range(60, 260); break; case 2: to = size_small(); break; default: to = s + r.below(s); } }
                push(Op{O_LCHURN, r.chance(70) ? E_MALLOC : E_ALIGNED, 0, s, cnt, to}); }
            else extras();
        }
    }
    void t_deep() {
        u64 cls = nclasses() - 1 - r.below(3), span = clssize(cls) * SLOTS[cls], k = ((4ull << 30) / span * CFG.guardint / (CFG.guardint + 1) + r.range(20, 400)) * SLOTS[cls];
        focus[0] = cls; u64 s = SC[cls] - canary() - r.below(3); u32 h = newh(k); push(Op{O_BURST, E_MALLOC, h, s, k, 1}); for (u64 j = 0; j < k; j++) mark(h + j, s);
        u32 tail = h + k - r.range(1, 400);
        for (int i = 0; i < 8; i++) { u64 c = r.below(100); // work at the far end, where offsets pass 2^32
            if (c < 40) { u32 b = tail + r.below(h + k - tail); u64 n = r.range(1, h + k - b); push(Op{O_FREERANGE, (int)r.below(4), b, n, r.next(), 0}); for (u64 j = 0; j < n; j++) unmark(b + j); }
            else if (c < 60) { u32 b = newh(20); push(Op{O_BURST, E_CALLOC, b, s, 20, 1}); for (int j = 0; j < 20; j++) mark(b + j, s); }
            else if (c < 80) { u32 b = tail + r.below(h + k - tail); if (hs[b].live) { u64 z = r.chance(50) ? size_small() : size_large(); push(Op{O_REALLOC, 0, b, z, 0, 0}); unmark(b); mark(b, z); } }
            else { u32 b = h + r.below(k); if (hs[b].live) { push(Op{O_FREE, F_FREE, b, 0, 0, 0}); unmark(b); } } }
        if (!lv.empty()) for (int i = 0; i < 6; i++) push(Op{O_QUERY, 0, lv[lv.size() - 1 - r.below(std::min<size_t>(lv.size(), 300))], r.next() >> 8, 0, 0});
    }
    void t_realloc(int n) {
        u32 base = newh(4); for (int j = 0; j < 4; j++) { u64 s = size_any(); int e = r.chance(60) ? E_MALLOC : r.chance(50) ? E_CALLOC : E_ALIGNED; push(Op{O_ALLOC, e, base + j, s, e == E_ALIGNED ? align() : 1, 1}); mark(base + j, s); }
        for (int i = 0; i < n; i++) {
            if (r.chance(12)) { extras(); continue; } if (r.chance(10)) { alloc(size_any()); continue; } if (r.chance(8)) { freeone(); continue; }
            u32 h = r.chance(80) ? base + r.below(4) : lv.empty() ? base : pick(); u64 old = hs[h].size, s; u64 c = r.below(100);
            if (!hs[h].live) { u64 s2 = size_any(); push(Op{O_ALLOC, E_MALLOC, h, s2, 1, 1}); mark(h, s2); continue; }
            if (c < 35) s = size_small(); else if (c < 65) s = size_large(); else if (c < 72) s = old + r.below(64); else if (c < 79) s = old > 64 ? old - r.below(64) : 0; else if (c < 84) s = old * 2 + 1; else if (c < 90) s = old / 2; else if (c < 93) s = 0; else s = (32ull << 20) + r.below(48ull << 20);
            if (s > (300ull << 20)) s = size_large();
            push(Op{O_REALLOC, 0, h, s, 0, 0}); unmark(h); mark(h, s);
        }
    }
    void t_zero(int n) {
        for (int i = 0; i < n; i++) {
            u64 c = r.below(100); static const int ent[] = {E_MALLOC, E_CALLOC, E_REALLOC0, E_ALIGNED, E_POSIX, E_MEMALIGN};
            if (c < 40) { int e = ent[r.below(6)]; u32 h = newh(); push(Op{O_ALLOC, e, h, 0, r.chance(70) ? 16u : align(), r.chance(50) ? 1 : r.below(5)}); mark(h, 0); }
            else if (c < 55) { u64 k = r.chance(85) ? r.range(1, 600) : r.range(2000, 9500); if (nh > 15000) k = 10; u32 h = newh(k); push(Op{O_BURST, E_MALLOC, h, 0, k, 1}); for (u64 j = 0; j < k; j++) mark(h + j, 0); }
            else if (c < 68 && nh) { u32 b = r.below(nh); push(Op{O_FREERANGE, (int)r.below(5), b, r.range(1, nh - b), r.next(), 0}); }
            else if (c < 78) freeone();
            else if (c < 86 && !lv.empty()) { u32 h = pick(); u64 s = r.chance(50) ? 0 : size_small(); push(Op{O_REALLOC, 0, h, s, 0, 0}); unmark(h); mark(h, s); }
            else if (c < 92) alloc(size_small());
            else extras();
            if (!lv.empty() && r.chance(10)) push(Op{O_QUERY, 0, pick(), r.next(), 0, 0});
        }
    }
    void t_exh(int n) {
        if (!small_region) return t_class(n);
        for (int i = 0; i < n; i++) {
            u64 cls = r.range(CFG.region <= (2u << 20) ? 17 : 29, nclasses() - 1); u64 total = CFG.region / slabsize(cls) * SLOTS[cls] + 4; if (total > 9000 || (nh > 20000)) { t_mix(4, 5); continue; }
            u64 s = SC[cls] - canary(); u32 h = newh(total);
            push(Op{O_EXHAUST, E_MALLOC, h, s, total, 1}); if (r.chance(60)) { u32 g = newh(); push(Op{O_ALLOC, r.chance(50) ? E_MALLOC : E_CALLOC, g, s, 1, 1}); }
            if (r.chance(50)) { push(Op{O_REALLOC, 0, h, size_small(), 0, 0}); }
            t_mix(r.below(4), 5);
            push(Op{O_FREERANGE, (int)r.below(5), h, total, r.next(), 0});
            if (r.chance(50)) { u32 g = newh(total); push(Op{O_EXHAUST, E_MALLOC, g, s, total, 1}); push(Op{O_FREERANGE, (int)r.below(4), g, total, r.next(), 0}); }
            if (r.chance(40)) push(Op{O_TRIM, 0, 0, 0, 0, 0});
        }
    }
    void t_lexh(int n) { // large table growth / exhaustion
        for (int i = 0; i < n; i++) { u64 k = r.range(90, small_region ? 110 : 420); u32 h = newh(k); u64 s = maxsmall() + 1 + r.below(60000); bool al = r.chance(25); push(Op{small_region ? O_EXHAUST : O_BURST, al ? E_ALIGNED : E_MALLOC, h, s, k, al ? 8192ull << r.below(4) : 1});
            if (r.chance(50)) t_mix(3, 30); push(Op{O_VERIFY, 0, 0, 0, 0, 0}); push(Op{O_FREERANGE, (int)r.below(5), h, k, r.next(), 0}); if (r.chance(60)) t_mix(4, 40); }
    }
    void t_quar(int n) {
        for (int i = 0; i < n; i++) { int f = r.below(2); churn(f, P.thorough || r.chance(10) ? 40000 : 2500); if (r.chance(50)) t_class(2); if (r.chance(20)) extras(); }
    }
    void t_reuse(int n) { // fill slabs, empty them in order so they are released, fill again
        for (int i = 0; i < n; i++) {
            int f = r.below(2); u64 cls = focus[f]; u64 nsl = r.range(1, cache_limit() / slabsize(cls) + (r.chance(25) ? 60 : 8)); u64 k = std::min<u64>(nsl * SLOTS[cls], std::min<u64>(1500, (6u << 20) / clssize(cls) + 1));
            u32 h = newh(k); push(Op{O_BURST, E_MALLOC, h, focus_size(f), k, 1}); if (r.chance(30)) t_mix(2, 5);
            push(Op{O_FREERANGE, (int)r.below(5), h, k, r.next(), 0}); if (r.chance(30)) push(Op{O_TRIM, 0, 0, 0, 0, 0}); if (r.chance(30)) churn(f, 800);
        }
    }
    void t_sweep() {
        for (int i = 0; i < (int)r.range(1, 4); i++) { u64 a, n = r.range(50, 400), st = 1;
            switch (r.below(5)) { case 0: a = 0; break; case 1: a = SC[r.below(nclasses())]; a = a > 40 ? a - 40 : 0; n = 80; break; case 2: a = r.below(maxsmall()); st = r.range(1, 300); break; case 3: a = maxsmall() - 30; n = 60; break; default: { int b = r.range(CFG.ext ? 17 : 14, 25); a = (1ull << b) + (1ull << (b - 2)) * r.below(5) - 3; n = 7; } }
            if (a + n * st > maxsmall() && n > 90) n = 90;
            push(Op{O_SIZES, r.chance(70) ? E_MALLOC : r.chance(50) ? E_CALLOC : E_ALIGNED, 0, a, n, st}); }
    }
    void terminal() {
        int k = P.terms[r.below(P.terms.size())]; Op o{k, 0, 0, r.next() >> 8, r.next() >> 8, 0};
        // arrange a target: make sure something live/freed exists
        u32 h = lv.empty() ? 0 : pick();
        auto fresh = [&](u64 s) { u32 g = newh(); ops.push_back(Op{O_ALLOC, E_MALLOC, g, s, 1, 1}); mark(g, s); return g; };
        auto pick_small = [&]() { for (int t = 0; t < 20 && !lv.empty(); t++) { u32 x = pick(); if (!hs[x].large && hs[x].size) return x; } return fresh(1 + size_small()); };
        auto pick_large = [&]() { for (int t = 0; t < 20 && !lv.empty(); t++) { u32 x = pick(); if (hs[x].large) return x; } return fresh(size_large()); };
        if (k == T_BADFREE || k == T_BADQUERY || k == T_BADREALLOC) {
            static const int w[] = {30, 12, 16, 12, 6, 14, 6, 4, 4, 6}; u64 x = r.below(110); for (o.e = 0; o.e < B_MAX - 1; o.e++) { if (x < (u64)w[o.e]) break; x -= w[o.e]; }
            if (o.e == B_NEVER) h = r.chance(85) ? pick_small() : fresh(0);
            if (o.e == B_GUARD) h = pick_large();
            if ((o.e == B_INTERIOR || o.e == B_INTERIOR_ODD) && (lv.empty() || r.chance(50))) h = r.chance(40) ? pick_small() : r.chance(60) ? fresh(SC[r.range(1, nclasses() - 1)] - canary()) : pick_large();
            if (o.e == B_FREED_SMALL || o.e == B_FREED_INTERIOR) if (r.chance(50)) { u32 g = pick_small(); ops.push_back(Op{O_FREE, 0, g, 0, 0, 0}); unmark(g); if (r.chance(50)) t_mix(r.below(6), 10); }
            if (o.e == B_FREED_LARGE && r.chance(70)) { u32 g = pick_large(); if (r.chance(80)) ops.push_back(Op{O_FREE, 0, g, 0, 0, 0}); else ops.push_back(Op{O_REALLOC, 0, g, size_large() * 2, 0, 0}); unmark(g); if (r.chance(50)) t_mix(r.below(6), 20); if (r.chance(30)) ops.push_back(Op{O_LCHURN, E_MALLOC, 0, maxsmall() + 1 + r.below(50000), r.range(1, 40), 0}); }
            if (o.e == B_FREED_PURGED && r.chance(70)) { t_reuse(1); }
            o.c = size_any();
        } else if (k == T_SIZEDMIS) {
            u64 c = r.below(100); h = c < 15 ? fresh(0) : c < 70 ? pick_small() : pick_large();
            c = r.below(100); if (c < 50) o.c = size_small(); else if (c < 70) o.c = size_large(); else if (c < 85) o.c = ~0ull - r.below(r.chance(50) ? 20 : 1ull << 40); else if (c < 92) o.c = 0; else o.c = 1ull << r.range(30, 63); o.a = size_any();
        } else if (k == T_CANARY) { h = pick_small(); o.e = r.below(4); o.c = r.next() >> 8; if (r.chance(30)) { u32 g = fresh(focus_size(0) + 1); h = g; } }
        else if (k == T_WAF) { // classes whose quarantine can be driven through in reasonable time are preferred
            u64 cls; for (int t = 0;; t++) { cls = r.range(1, nclasses() - 1); u64 q = qR(cls) * 3 + qQ(cls); if (q < 1500 || (q < 8000 && r.chance(25)) || r.chance(P.thorough ? 10 : 2)) break; }
            u32 g = fresh(SC[cls] - canary()); h = g; if (r.chance(30)) { u32 q = pick_small(); if (hs[q].size > 4000) h = q; } o.c = r.next() >> 8; if (r.chance(40) && SLOTS[cls] > 1) { u64 n2 = r.range(1, SLOTS[cls]); u32 b = newh(n2); ops.push_back(Op{O_BURST, E_MALLOC, b, SC[cls] - canary(), n2, 1}); } }
        o.h = h; ops.push_back(o);
    }
    void run() {
        fpct = P.fault_pct ? P.fault_pct : r.chance(P.fault_case) ? r.range(5, 30) : 0;
        threads = r.chance(P.thread_pct);
        for (int i = 0; i < 2; i++) { u64 c = r.below(100); focus[i] = c < 40 ? r.below(21) + 0 : r.below(nclasses()); if (!focus[i] && P.id != 6) focus[i] = 1; }
        if (P.id == 18 || P.id == 20 || P.id == 35) for (int i = 0; i < 2; i++) focus[i] = r.range(1, nclasses() - 1);
        if (P.id == 19) for (int i = 0; i < 2; i++) focus[i] = r.chance(70) ? r.range(13, nclasses() - 1) : r.range(1, nclasses() - 1);
        if (P.deep && CFG.ext && CFG.region > (8ull << 30) && r.below(P.deep) == 0) { // more than 4 GiB of one class
            fpct = 0; t_deep(); if (P.terms.size() && r.chance(P.term_pct)) terminal(); return; }
        int tot = 0; for (int t = 0; t < TH_N; t++) tot += P.th[t];
        int x = r.below(tot), t = 0; while ((x -= P.th[t]) >= 0) t++;
        int n = r.range(4, P.maxops);
        switch (t) { case TH_MIX: t_mix(n, r.chance(30) ? 40 : 8); break; case TH_CLASS: t_class(n / 2 + 2); break; case TH_LARGE: t_large(n); break; case TH_REALLOC: t_realloc(n); break; case TH_ZERO: t_zero(n / 2 + 1); break;
        case TH_EXH: t_exh(r.range(1, 3)); break; case TH_QUAR: t_quar(r.range(1, 4)); break; case TH_SWEEP: t_sweep(); break; case TH_LEXH: t_lexh(r.range(1, 2)); break; case TH_REUSE: t_reuse(r.range(1, 5)); break; }
        if (P.par_pct && r.chance(P.par_pct)) push(Op{O_PAR, 0, 0, r.range(2, 6), r.range(20, 400), r.next() >> 8});
        if (P.terms.size() && r.chance(P.term_pct)) terminal();
        else if (P.stats) push(Op{O_STATS, 0, 0, 0, 0, 0});
    }
};
