// Shared definitions of the verification engines.
#ifndef VP_H
#define VP_H
#include <errno.h>
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

struct Cfg {
    const char *name;
    int zero, waf, slotrand, canary;
    long srand_, squeue;           // slab quarantine: random array, queue (unscaled)
    int ext, largecls;
    long guardint, guarddiv;
    long rrand, rqueue; u64 rskip; // region quarantine
    long fsq;                      // free slab random array
    u64 region; int narena, stats, seal;
};
extern const Cfg CFG;

static inline u64 sm64(u64 &s) { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline u64 mix(u64 a, u64 b) { u64 s = a * 0xd6e8feb86659fd93ull + b + 0x1234567; sm64(s); return sm64(s); }
struct Rng { u64 s; explicit Rng(u64 seed) : s(seed) {} u64 next() { return sm64(s); } u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; } u64 range(u64 a, u64 b) { return a + below(b - a + 1); } bool chance(unsigned pct) { return below(100) < pct; } };

// ---- shim: interposed system calls of the allocator ----
enum { K_MMAP = 1, K_MUNMAP = 2, K_MPROTECT = 4, K_MREMAP = 8, K_MADVISE = 16, K_MMAPFIXED = 32, K_ALL = 63 };
struct ShimFault { long skip; long count; int err; u32 mask; long period; };
extern ShimFault shim_fault;
extern u64 shim_calls;      // allocator memory system calls so far
extern u64 shim_fired;      // injected failures so far
extern u64 shim_fired_kinds;
extern u64 shim_getrandom_calls, shim_getrandom_bytes;
extern u64 shim_locks;      // mutex acquisitions
extern bool shim_rawrandom; // pass getrandom through
void shim_seed(u64 seed);
// getrandom fault plan: for call n, plan returns length limit / errno
extern int (*shim_getrandom_plan)(size_t want, size_t *give); // return errno or 0
extern void (*shim_unmap_hook)(uintptr_t p, size_t n);
extern void (*shim_map_hook)(int kind, uintptr_t p, size_t n);
extern void (*shim_abort_hook)();
extern void (*shim_mmap_hook)(uintptr_t p, size_t n, int prot, bool fixed);
extern void (*shim_sched_hook)(int kind, void *arg);
extern char *shim_fatal_buf; extern size_t shim_fatal_cap;
extern volatile int *shim_aborted;
extern u64 shim_unowned;    // unmappings that hit memory the allocator does not own
extern thread_local int vp_api; // inside an allocator API call (and not in the harness's own code)
extern void (*vp_sys_hook)(long nr, long a, long b, long c, long d, long e, long f);
extern int shim_pkey;       // protection key of the allocator state, -1 if none was allocated
int shim_pkey_of(uintptr_t a);
extern "C" int shim_pkey_rights(); // this thread's rights to it (0: full access)
extern "C" bool shim_pkey_fake();  // the machine has no protection keys, rights are only recorded
extern bool shim_pkey_fail; // no protection key is available
extern int shim_prctl_mode; extern char shim_prctl_bad[160]; // labels: 0 succeed, 1 unsupported, 2 every third fails; first malformed call
// engine/api.cc
extern void (*vp_exit_hook)(const char *fn); // an allocator API call has returned
extern void (*vp_bad_syscall)(const char *msg); // an undocumented system call inside the allocator
extern u64 vp_syscalls_seen[8];
bool vp_trap_syscalls();
extern bool shim_threads; // take a lock around the shadow map
int shim_prot(uintptr_t a);            // -1 not mapped by the allocator, else PROT_*
u64 shim_id(uintptr_t a);              // reservation id, 0 if unmapped
bool shim_seg(uintptr_t a, uintptr_t *lo, uintptr_t *hi, int *prot, u64 *id); // maximal run of same prot+id around a
u64 shim_mapped_bytes();               // all bytes currently mapped by the allocator
u64 shim_mapped_bytes_except(const u64 *ids, int n);
u64 shim_reservations_due();           // the same without those an unmapping of which failed
u64 shim_reservations();               // number of distinct ids mapped
u64 shim_rw_bytes(u64 id);             // RW bytes in a reservation
void shim_ever_run(uintptr_t a, uintptr_t *lo, uintptr_t *hi); // maximal run of pages ever made accessible around a
void shim_foreach(void (*f)(uintptr_t lo, uintptr_t hi, int prot, u64 id, void *), void *arg);
// events on the slab reservation, for slab reuse order
struct ShimEv { int kind; uintptr_t p; size_t n; }; // kind: 1 protect rw, 2 protect none (fixed map), 3 purge
extern bool shim_rec; 
ShimEv *shim_events(size_t *n); void shim_events_clear();
#endif
