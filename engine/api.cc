// Brackets around every allocator entry point (-Wl,--wrap): system calls made inside are the allocator's, and a
// hook runs whenever a call has returned. A seccomp filter makes every system call of the process visible.
#include "vp.h"
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <linux/audit.h>

extern "C" int __real_pkey_set(int, unsigned);
void (*vp_exit_hook)(const char *fn);
struct Api { int sv; const char *fn; Api(const char *f, int v = 1) : sv(vp_api), fn(f) { vp_api = v; } ~Api() { vp_api = 0; int e = errno; if (vp_exit_hook) vp_exit_hook(fn); errno = e; vp_api = sv; } };
#define W(ret, name, params, args, kind) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { Api api_(#name, kind); return __real_##name args; }
W(void *, h_malloc, (size_t n), (n), 1)
W(void *, h_calloc, (size_t a, size_t b), (a, b), 1)
W(void *, h_realloc, (void *p, size_t n), (p, n), 1)
W(int, h_posix_memalign, (void **p, size_t a, size_t n), (p, a, n), 1)
W(void *, h_aligned_alloc, (size_t a, size_t n), (a, n), 1)
W(void *, h_memalign, (size_t a, size_t n), (a, n), 1)
extern "C" { __attribute__((weak)) void *__real_h_valloc(size_t); __attribute__((weak)) void *__real_h_pvalloc(size_t); __attribute__((weak)) int __real_h_malloc_info(int, FILE *); } // absent from the Android build
extern "C" void *__wrap_h_valloc(size_t n) { Api api_("h_valloc"); return __real_h_valloc ? __real_h_valloc(n) : __real_h_memalign(4096, n); }
extern "C" void *__wrap_h_pvalloc(size_t n) { Api api_("h_pvalloc"); if (__real_h_pvalloc) return __real_h_pvalloc(n); u64 m = (n + 4095) & ~4095ull; return __real_h_memalign(4096, m < n ? n : m); }
W(void, h_free, (void *p), (p), 1)
W(void, h_cfree, (void *p), (p), 1)
W(void, h_free_sized, (void *p, size_t n), (p, n), 1)
W(size_t, h_malloc_usable_size, (void *p), (p), 1)
W(size_t, h_malloc_object_size, (const void *p), (p), 1)
W(size_t, h_malloc_object_size_fast, (const void *p), (p), 1)
W(int, h_mallopt, (int a, int b), (a, b), 1)
W(int, h_malloc_trim, (size_t n), (n), 1)
W(void, h_malloc_stats, (void), (), 1)
W(struct mallinfo2, h_mallinfo2, (void), (), 1)
W(struct mallinfo, h_mallinfo, (void), (), 1)
extern "C" int __wrap_h_malloc_info(int o, FILE *f) { Api api_("h_malloc_info", 2); return __real_h_malloc_info ? __real_h_malloc_info(o, f) : 0; }
bool vp_android() { return !__real_h_malloc_info; }
#define WW(ret, name, params, args) extern "C" { __attribute__((weak)) ret __real_##name params; } extern "C" ret __wrap_##name params { Api api_(#name); return __real_##name args; }
WW(size_t, h_mallinfo_narenas, (void), ())
WW(size_t, h_mallinfo_nbins, (void), ())
WW(struct mallinfo, h_mallinfo_arena_info, (size_t a), (a))
WW(struct mallinfo, h_mallinfo_bin_info, (size_t a, size_t b), (a, b))
WW(void, h_malloc_disable, (void), ())
WW(void, h_malloc_enable, (void), ())

// ---- every system call is trapped; the handler performs it through the gadget
asm(".text\n.globl vp_gadget\nvp_gadget:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl vp_gadget_ret\nvp_gadget_ret:\n ret\n");
extern "C" long vp_gadget(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char vp_gadget_ret[];
void (*vp_bad_syscall)(const char *msg);
u64 vp_syscalls_seen[8]; // per kind: futex, getrandom, mmap, mprotect, munmap, mremap, madvise, other
static void check(long nr, long a, long b, long c, long d, long e, long f) {
    char m[200]; const char *why = nullptr; int k = 7;
    switch (nr) {
    case SYS_futex: k = 0; if (b == (FUTEX_WAIT | FUTEX_PRIVATE_FLAG)) { if (d) why = "futex wait with a timeout"; } else if (b != (FUTEX_WAKE | FUTEX_PRIVATE_FLAG)) why = "futex operation"; break;
    case SYS_getrandom: k = 1; if (c) why = "getrandom flags"; break;
    case SYS_mmap: k = 2; if (c != PROT_NONE) why = "mmap protection"; else if ((int)e != -1 || f) why = "mmap file"; else if (!(a ? d == (MAP_ANONYMOUS | MAP_PRIVATE | MAP_FIXED) : d == (MAP_ANONYMOUS | MAP_PRIVATE))) why = "mmap flags"; break;
    case SYS_mprotect: k = 3; if (c != PROT_READ && c != (PROT_READ | PROT_WRITE)) why = "mprotect protection"; break;
    case SYS_pkey_mprotect: k = 3; if (!CFG.seal) why = "pkey_mprotect without sealing"; else if (c != PROT_READ && c != (PROT_READ | PROT_WRITE)) why = "pkey_mprotect protection"; break;
    case SYS_pkey_alloc: if (!CFG.seal || a || b) why = "pkey_alloc"; break;
    case SYS_munmap: k = 4; break;
    case SYS_mremap: k = 5; if (d && d != (MREMAP_MAYMOVE | MREMAP_FIXED)) why = "mremap flags"; break;
    case SYS_madvise: k = 6; if (c != MADV_DONTNEED) why = "madvise advice"; break;
    case SYS_prctl: if (strncmp(CFG.name, "label", 5)) why = "prctl in a build without labels"; else if (a != 0x53564d41 || b) why = "prctl operation"; break;
    case SYS_write: if (a != 2) why = "write to a descriptor other than standard error"; break;
    default: why = "system call not documented";
    }
    __atomic_add_fetch(&vp_syscalls_seen[k], 1, __ATOMIC_RELAXED);
    if (why && vp_bad_syscall) { vp_api = 0; snprintf(m, sizeof m, "%s: system call %ld(%#lx, %#lx, %#lx, %#lx, %#lx, %#lx)", why, nr, a, b, c, d, e, f); vp_bad_syscall(m); }
}
static void on_sys(int, siginfo_t *, void *x) {
    ucontext_t *u = (ucontext_t *)x; auto *g = u->uc_mcontext.gregs; long nr = g[REG_RAX];
    long a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8], f = g[REG_R9];
    if (CFG.seal && shim_pkey > 0 && !shim_pkey_fake()) __real_pkey_set(shim_pkey, 0); // the kernel may have to reach a lock word; undone by the return from the handler
    if (vp_api == 1) check(nr, a, b, c, d, e, f);
    u64 set; if (nr == SYS_rt_sigprocmask && b && d == 8) { memcpy(&set, (void *)b, 8); set &= ~(1ull << (SIGSYS - 1)); b = (long)&set;
        // the mask is that of the interrupted context: apply it there
        u64 cur; memcpy(&cur, &u->uc_sigmask, 8); if (c) memcpy((void *)c, &cur, 8);
        if (a == SIG_BLOCK) cur |= set; else if (a == SIG_UNBLOCK) cur &= ~set; else cur = set;
        memcpy(&u->uc_sigmask, &cur, 8); g[REG_RAX] = 0; return; }
    g[REG_RAX] = vp_gadget(nr, a, b, c, d, e, f);
}
bool vp_trap_syscalls() {
    vp_sys_hook = check;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&sa.sa_mask);
    if (sigaction(SIGSYS, &sa, nullptr)) return false;
    u64 ip = (u64)vp_gadget_ret;
#define ALLOW(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
    struct sock_filter flt[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)ip, 0, 3),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)(ip >> 32), 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        ALLOW(SYS_clone), ALLOW(SYS_clone3), ALLOW(SYS_fork), ALLOW(SYS_vfork), ALLOW(SYS_rt_sigreturn), ALLOW(SYS_exit), ALLOW(SYS_exit_group), ALLOW(SYS_execve),
        ALLOW(SYS_pkey_alloc), // changes the caller's rights, which a signal handler cannot do; its wrapper is checked instead
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
    struct sock_fprog pr = {sizeof flt / sizeof *flt, flt};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr) == 0;
}
