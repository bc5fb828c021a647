// History engine: shared types.
#pragma once
#include "vp.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" {
void *h_malloc(size_t); void *h_calloc(size_t, size_t); void *h_realloc(void *, size_t); void h_free(void *);
void *h_aligned_alloc(size_t, size_t); void *h_memalign(size_t, size_t); int h_posix_memalign(void **, size_t, size_t);
void *h_valloc(size_t); void *h_pvalloc(size_t); void h_cfree(void *); void h_free_sized(void *, size_t);
size_t h_malloc_usable_size(void *); size_t h_malloc_object_size(const void *); size_t h_malloc_object_size_fast(const void *);
int h_malloc_trim(size_t); int h_mallopt(int, int); void h_malloc_stats(void);
}

// ---- documented geometry (README size class table) ----
static const u32 SC[] = {0, 16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048,
    2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072};
static const u32 SLOTS[] = {256, 256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64, 64, 64, 64, 64, 64, 64, 64, 64, 16, 16, 16, 16,
    8, 8, 8, 8, 8, 8, 8, 8, 6, 5, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
static inline int nclasses() { return CFG.ext ? 49 : 37; }
static inline u64 maxsmall() { return CFG.ext ? 131072 : 16384; }
static inline u64 canary() { return CFG.canary ? 8 : 0; }
static inline u64 pgup(u64 n) { return (n + 4095) & ~4095ull; }
static inline u64 clssize(int c) { return c ? SC[c] : 16; }
static inline u64 slabsize(int c) { return pgup((u64)SLOTS[c] * clssize(c)); }
static inline int cls_for(u64 sz) { int n = nclasses(); for (int i = 0; i < n; i++) if (SC[i] >= sz) return i; return -1; }
static inline bool is_small_req(u64 req, u64 align) { return align <= 4096 && (req == 0 || (req <= maxsmall() && req + canary() <= maxsmall())); }
static inline u64 quar_scale(int c) { u64 s = clssize(c); int msh = CFG.ext ? 17 : 14; int lg = 63 - __builtin_clzll(s); return 1ull << (msh - lg); }
static inline u64 qR(int c) { return CFG.srand_ * quar_scale(c); }
static inline u64 qQ(int c) { return CFG.squeue * quar_scale(c); }
static inline u64 cache_limit() { return CFG.ext ? 131072 : 65536; }
// documented large rounding; 0 on overflow
static inline u64 large_size(u64 n) {
    if (!CFG.largecls) { if (n < 4096) n = 4096; return n > ~0ull - 4095 ? 0 : pgup(n); }
    if (n <= 4096) return 4096;
    int lg = 63 - __builtin_clzll(n - 1); u64 sp = 1ull << (lg - 2); u64 r = (n + sp - 1) & ~(sp - 1); return r;
}

// usable size of a plain large allocation: requests up to the largest slab class carry the canary into the rounding
static inline u64 large_for(u64 req) { return large_size(req && req <= maxsmall() ? req + canary() : req); }

enum OpK { O_NONE, O_ALLOC, O_FREE, O_REALLOC, O_REFILL, O_VERIFY, O_QUERY, O_TRIM, O_STATS, O_BURST, O_FREERANGE, O_CHURN, O_LCHURN, O_EXHAUST, O_HUGE, O_BADALIGN,
    O_NULLOPS, O_FAULT, O_THREAD, O_SIZES, O_FOREIGNQ, O_FREEALL, O_CANWRITE, O_DRAIN, O_FORK, O_PAR, O_INFO,
    T_BADFREE, T_BADQUERY, T_BADREALLOC, T_CANARY, T_WAF, T_SIZEDMIS, O_MAX };
struct Op { int k; int e; u32 h; u64 a, b, c; };
