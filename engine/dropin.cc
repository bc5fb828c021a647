// Drop-in engine: the libraries built by /repo's Makefile, used by a dynamically linked process (this one, a plugin
// and the C library's own allocating functions) through every entry point, mixed at random, against a model.
#include "caselib.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wchar.h>
#define h_malloc malloc
#define h_free free
extern "C" { size_t malloc_object_size(const void *) __attribute__((weak)); size_t malloc_object_size_fast(const void *) __attribute__((weak)); void free_sized(void *, size_t) __attribute__((weak)); }
// geometry
static const u32 SC[] = {0, 16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048,
    2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072};
static u64 maxs() { return CFG.ext ? 131072 : 16384; }
static u64 can() { return CFG.canary ? 8 : 0; }
static u64 want_usable(u64 n) { // of a plain allocation
    if (!n) return 0; if (n + can() <= maxs()) { for (u32 s : SC) if (s >= n + can()) return s - can(); }
    if (n <= maxs()) n += can(); if (!CFG.largecls) return (n + 4095) & ~4095ull; int lg = 63 - __builtin_clzll(n - 1); u64 sp = 1ull << (lg - 2); return (n + sp - 1) & ~(sp - 1);
}
const char *engine_name = "dropin";
enum { C_SYM, C_ALLOC, C_FREE, C_REALLOC, C_LIBC, C_PLUG, C_THREAD, C_FORK, C_BAD, C_QUERY, C_CXX, C_GLOB };
std::vector<const char *> count_names = {"symbols_resolved", "allocations", "releases", "reallocations", "blocks_from_libc_functions", "plugin_calls", "threads", "forks", "misuses", "queries", "cxx_objects", "writable_words_scanned"};
// ---- interposed from the executable: only the library's own calls come here
static u64 rnd_seed = 1; static bool booted;
extern "C" ssize_t getrandom(void *b, size_t n, unsigned f) { if (!booted) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = sm64(rnd_seed); return n; }
static char errbuf[600]; static size_t errn; static bool capture;
extern "C" ssize_t write(int fd, const void *b, size_t n) { if (!capture) return syscall(SYS_write, fd, b, n); if (fd == 2) { size_t m = n; if (m > sizeof errbuf - 1 - errn) m = sizeof errbuf - 1 - errn; memcpy(errbuf + errn, b, m); errn += m; return n; } return syscall(SYS_write, fd, b, n); }
extern "C" void abort() { if (CS_) { memcpy(CS_->fatal, errbuf, std::min<size_t>(errn, sizeof CS_->fatal - 1)); CS_->aborted = 1; } _exit(77); }
struct Map { uintptr_t lo, hi; }; static Map maps_[1 << 16]; static int nmaps_; // everything the process mapped anonymously
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); if (p != MAP_FAILED && (fl & MAP_ANONYMOUS) && (fl & MAP_PRIVATE) && !(fl & (MAP_FIXED | MAP_STACK)) && nmaps_ < (1 << 16)) maps_[nmaps_++] = {(uintptr_t)p, (uintptr_t)p + n}; return p; }
static const char *SYMS[] = {"malloc", "calloc", "realloc", "free", "cfree", "aligned_alloc", "memalign", "posix_memalign", "valloc", "pvalloc", "malloc_usable_size", "mallopt", "malloc_trim", "malloc_stats", "mallinfo", "mallinfo2", "malloc_info", "malloc_get_state", "malloc_set_state",
    "malloc_object_size", "malloc_object_size_fast", "free_sized",
    "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t",
    "_ZdlPv", "_ZdaPv", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t", "_ZdaPvSt11align_val_tRKSt9nothrow_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"};
static bool inlib(void *f) { Dl_info i; return f && dladdr(f, &i) && i.dli_fname && strstr(i.dli_fname, "libhardened_malloc"); }
static void *S(const char *n) { return dlsym(RTLD_DEFAULT, n); }
static void *plug;
template <class T> static T P(const char *n) { static std::map<std::string, void *> m; void *&f = m[n]; if (!f) f = dlsym(plug, n); return (T)f; }
void engine_init() {
    Dl_info i; if (!dladdr((void *)run_one, &i)) return; 
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 20); if (n < 0) return; exe[n] = 0; strcpy(strrchr(exe, '/'), "/dropplug.so");
    plug = dlopen(exe, RTLD_NOW); if (!plug) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(4); }
}
static void symbols() {
    for (const char *s : SYMS) {
        void *f = S(s); count(C_SYM);
        if (!f) fail("%s is not defined in the process", s);
        if (!inlib(f)) { Dl_info i; fail("%s resolves to %s, not to the library", s, dladdr(f, &i) ? i.dli_fname : "?"); }
    }
    for (int i = 0;; i++) { const char *nm; void *g = P<void *(*)(int, const char **)>("plug_sym")(i, &nm); if (!g) break; count(C_SYM); if (!inlib(g) || g != S(nm)) fail("%s resolves differently from a plugin", nm); }
    // addresses taken by this program, and by the C and C++ libraries' own references
    void *here[] = {(void *)&malloc, (void *)&calloc, (void *)&realloc, (void *)&free, (void *)&aligned_alloc, (void *)&memalign, (void *)&posix_memalign, (void *)&valloc, (void *)&pvalloc, (void *)&malloc_usable_size, (void *)&malloc_trim, (void *)&mallinfo2, (void *)(void *(*)(size_t)) & ::operator new, (void *)(void (*)(void *) noexcept) & ::operator delete};
    for (void *f : here) { count(C_SYM); if (!inlib(f)) fail("an entry point referenced by the program resolves outside the library"); }
}
struct B { u8 *p; u64 n, us; u8 pat; int kind; u64 al; bool plain; };
static std::vector<B> L; static std::map<uintptr_t, u64> ext;
static const char *KN[] = {"malloc", "calloc", "realloc(NULL)", "aligned_alloc", "memalign", "posix_memalign", "valloc", "pvalloc", "new", "new[]", "new nothrow", "new[] nothrow", "new align", "new[] align", "new align nothrow", "new[] align nothrow",
    "strdup", "strndup", "asprintf", "getline", "reallocarray", "open_memstream", "realpath", "getcwd", "wcsdup", "fmemopen", "plugin", "thread", "getdelim"};
enum { K_STRDUP = 16, K_PLUG = 26, K_THREAD = 27, K_N = 29 };
static void put(B &b) { for (u64 i = 0; i < b.us; i += b.us < 8192 ? 1 : 253) b.p[i] = b.pat + (u8)(i * 7); }
static void chk(const B &b, const char *w) { for (u64 i = 0; i < b.us; i += b.us < 8192 ? 1 : 253) if (b.p[i] != (u8)(b.pat + (u8)(i * 7))) fail("%s: block of %lu bytes from %s changed at offset %lu", w, b.n, KN[b.kind], i); }
static int live_errno;
static void accept(void *p, u64 n, u64 al, int kind, bool plain, bool zero, bool fill = true) {
    if (!p) fail("%s(%lu, align %lu) failed although memory is available (errno %d)", KN[kind], n, al, errno);
    uintptr_t a = (uintptr_t)p; if (a & (al - 1) || (n && a & 15)) fail("%s(%lu, align %lu) returned %p", KN[kind], n, al, p);
    u64 us = malloc_usable_size(p); if (us < n) fail("%s(%lu): usable size %lu", KN[kind], n, us);
    if (plain && us != want_usable(n)) fail("%s(%lu): usable size %lu, want %lu", KN[kind], n, us, want_usable(n));
    u64 o = malloc_object_size(p); if (o != us && !(us == 0 && o == 0)) fail("%s(%lu): object size %lu, usable size %lu", KN[kind], n, o, us);
    o = malloc_object_size_fast(p); if (o != us && o != SIZE_MAX) fail("%s(%lu): fast object size %lu, usable size %lu", KN[kind], n, o, us);
    auto it = ext.upper_bound(a); u64 e = us ? us : 1; if (it != ext.end() && it->first < a + e) fail("%s(%lu) overlaps a live block", KN[kind], n); if (it != ext.begin()) { --it; if (it->first + it->second > a) fail("%s(%lu) overlaps a live block", KN[kind], n); }
    ext[a] = e; if (zero) for (u64 i = 0; i < (CFG.zero ? us : n); i++) if (((u8 *)p)[i]) fail("%s(%lu): byte %lu of fresh memory is %02x", KN[kind], n, i, ((u8 *)p)[i]);
    B b{(u8 *)p, n, us, (u8)(L.size() * 31 + 5), kind, al, plain}; if (fill) put(b); L.push_back(b); count(C_ALLOC);
}
static u64 gs(Ch &c) { switch (c.below(9)) { case 0: return c.below(40); case 1: { long s = (long)SC[c.below(CFG.ext ? 49 : 37)] + (long)c.below(20) - 18; return s < 0 ? 0 : s; } case 2: return c.below(3000); case 3: return c.below(maxs()); case 4: return maxs() - 30 + c.below(60); case 5: return maxs() + c.below(1 << 20); case 6: return 0; case 7: return 1ull << c.below(22); default: return 1 + c.below(200); } }
static u64 ga(Ch &c) { u64 k = c.below(10); return k < 7 ? 1ull << c.below(13) : 1ull << c.range(13, 21); }
struct TA { int k; u64 n, al; void *p; };
static void *ta(void *x) { TA *t = (TA *)x; static thread_local std::string keep(200, 'x'); keep += 'y'; t->p = P<void *(*)(int, size_t, size_t)>("plug_alloc")(t->k, t->n, t->al); return nullptr; }
static void alloc(Ch &c) {
    int k = c.below(K_N); u64 n = gs(c), al = ga(c); bool zf = CFG.zero; void *p = nullptr; errno = 0; volatile size_t vn = n; n = vn;
    switch (k) {
        case 0: accept(malloc(n), n, 1, k, true, zf); return;
        case 1: { u64 m = 1 + c.below(9); accept(calloc(m, n / m), m * (n / m), 1, k, true, true); return; }
        case 2: accept(realloc(nullptr, n), n, 1, k, true, zf); return;
        case 3: accept(aligned_alloc(al, n), n, al, k, false, zf); return;
        case 4: accept(memalign(al, n), n, al, k, false, zf); return;
        case 5: if (al < 8) al = 8; if (int e = posix_memalign(&p, al, n)) fail("posix_memalign(%lu, %lu) returned %d", al, n, e); accept(p, n, al, k, false, zf); return;
        case 6: accept(valloc(n), n, 4096, k, false, zf); return;
        case 7: if (!n) n = 1; p = pvalloc(n); accept(p, (n + 4095) & ~4095ull, n ? 4096 : 1, k, false, zf); return;
        case 8: accept(::operator new(n), n, 1, k, true, zf); return; case 9: accept(::operator new[](n), n, 1, k, true, zf); return;
        case 10: accept(::operator new(n, std::nothrow), n, 1, k, true, zf); return; case 11: accept(::operator new[](n, std::nothrow), n, 1, k, true, zf); return;
        case 12: accept(::operator new(n, std::align_val_t(al)), n, al, k, false, zf); return; case 13: accept(::operator new[](n, std::align_val_t(al)), n, al, k, false, zf); return;
        case 14: accept(::operator new(n, std::align_val_t(al), std::nothrow), n, al, k, false, zf); return; case 15: accept(::operator new[](n, std::align_val_t(al), std::nothrow), n, al, k, false, zf); return;
        default: break;
    }
    u64 m = n % 70000; std::string s(m, 'q'); for (u64 i = 0; i < m; i++) s[i] = 'a' + (i * 5 + m) % 26; count(C_LIBC);
    auto same = [&](void *q, u64 l) { if (!q || memcmp(q, s.data(), l)) fail("%s of %lu bytes: wrong result", KN[k], m); };
    switch (k) {
        case 16: p = strdup(s.c_str()); same(p, m + 1); accept(p, m + 1, 1, k, true, false); return;
        case 17: p = strndup(s.c_str(), m / 2 + 1); same(p, m / 2); accept(p, std::min(m, m / 2 + 1) + 1, 1, k, true, false); return;
        case 18: { char *q = nullptr; if (asprintf(&q, "%s", s.c_str()) != (int)m) fail("asprintf of %lu bytes failed", m); same(q, m + 1); accept(q, m + 1, 1, k, false, false); return; }
        case 19: case 28: { FILE *f = fmemopen((void *)s.data(), m + 1, "r"); if (!f) fail("fmemopen failed"); char *q = nullptr; size_t cap = 0; if (c.below(2)) { cap = 1 + c.below(300); q = (char *)malloc(cap); } ssize_t r = k == 19 ? getline(&q, &cap, f) : getdelim(&q, &cap, 0, f); fclose(f); if (r < (ssize_t)m) fail("%s of %lu bytes returned %ld", KN[k], m, r); same(q, m); accept(q, std::max<u64>(cap, m + 1), 1, k, true, false); return; }
        case 20: accept(reallocarray(nullptr, 1 + m / 3, 3), (1 + m / 3) * 3, 1, k, true, zf); return;
        case 21: { char *q = nullptr; size_t l = 0; FILE *f = open_memstream(&q, &l); if (!f) fail("open_memstream failed"); for (u64 i = 0; i < m; i += 1000) fwrite(s.data() + i, 1, std::min<u64>(1000, m - i), f); fclose(f); if (l != m) fail("open_memstream: %zu of %lu bytes", l, m); same(q, m); accept(q, m + 1, 1, k, false, false); return; }
        case 22: { char *q = realpath("/usr/../usr/./lib", nullptr); if (!q || strcmp(q, "/usr/lib")) fail("realpath: wrong result"); accept(q, 9, 1, k, false, false); return; }
        case 23: { char *q = getcwd(nullptr, 0); if (!q || q[0] != '/') fail("getcwd: wrong result"); accept(q, strlen(q) + 1, 1, k, false, false); return; }
        case 24: { std::wstring w(s.begin(), s.end()); wchar_t *q = wcsdup(w.c_str()); if (!q || wcscmp(q, w.c_str())) fail("wcsdup: wrong result"); accept(q, 4 * (m + 1), 1, k, true, false); return; }
        case 25: { FILE *f = fmemopen(nullptr, 100 + m, "w+"); if (!f) fail("fmemopen failed"); fputs("hello", f); rewind(f); char t[10]; if (!fgets(t, 10, f) || strcmp(t, "hello")) fail("fmemopen: wrong result"); fclose(f); return; }
        case K_PLUG: { int j = c.below(10); count(C_PLUG); p = P<void *(*)(int, size_t, size_t)>("plug_alloc")(j, n, al); accept(p, n, j == 3 || j == 4 || j == 8 || j == 9 ? al : j == 5 ? std::max<u64>(8, al) : 1, k, j < 3 || j == 6 || j == 7, j == 1 || zf); return; }
        case K_THREAD: { int j = c.below(10); TA t{j, n, al, nullptr}; count(C_THREAD); pthread_t th; if (pthread_create(&th, nullptr, ta, &t)) giveup(); pthread_join(th, nullptr); accept(t.p, n, j == 3 || j == 4 || j == 8 || j == 9 ? al : j == 5 ? std::max<u64>(8, al) : 1, k, j < 3 || j == 6 || j == 7, j == 1 || zf); return; }
    }
}
static void *tf(void *x) { free(x); return nullptr; }
static int nfree = 17;
static const char *FN[] = {"free", "cfree", "delete", "delete[]", "delete nothrow", "delete[] nothrow", "delete align", "delete[] align", "delete align nothrow", "realloc to 0", "free_sized", "sized delete", "sized delete[]", "free in the plugin", "delete in the plugin", "free in another thread", "delete[] align nothrow"};
static void release(int f, B b) {
    void *p = b.p; int e = 1000 + (int)(b.n & 63); errno = e;
    switch (f) {
        case 0: free(p); break; case 1: ((void (*)(void *))S("cfree"))(p); break; case 2: ::operator delete(p); break; case 3: ::operator delete[](p); break; case 4: ::operator delete(p, std::nothrow); break; case 5: ::operator delete[](p, std::nothrow); break;
        case 6: ::operator delete(p, std::align_val_t(b.al)); break; case 7: ::operator delete[](p, std::align_val_t(b.al)); break; case 8: ::operator delete(p, std::align_val_t(b.al), std::nothrow); break; case 16: ::operator delete[](p, std::align_val_t(b.al), std::nothrow); break;
        case 9: { void *q = realloc(p, 0); if (!q) fail("realloc(%lu bytes, 0) returned null", b.n); if (malloc_usable_size(q)) fail("realloc(p, 0): usable size not 0"); free(q); e = errno; break; }
        case 10: free_sized(p, b.n); e = errno; break; case 11: ::operator delete(p, (size_t)b.n); e = errno; break; case 12: ::operator delete[](p, (size_t)b.n); e = errno; break;
        case 13: count(C_PLUG); P<void (*)(int, void *)>("plug_free")(0, p); break; case 14: count(C_PLUG); P<void (*)(int, void *)>("plug_free")(1 + b.n % 4, p); break;
        default: { count(C_THREAD); pthread_t th; if (pthread_create(&th, nullptr, tf, p)) { free(p); break; } pthread_join(th, nullptr); e = errno; }
    }
    if (errno != e) fail("%s of a block of %lu bytes from %s changed errno from %d to %d", FN[f], b.n, KN[b.kind], e, errno);
    count(C_FREE);
}
static void drop(size_t i, int f) { B b = L[i]; if (f >= 10 && f <= 12 && !b.plain) f = 0; L[i] = L.back(); L.pop_back(); ext.erase((uintptr_t)b.p); chk(b, "before its release"); release(f, b); }
static void reall(Ch &c, size_t i) {
    B b = L[i]; u64 n = gs(c); chk(b, "before realloc"); int how = c.below(3); count(C_REALLOC); ext.erase((uintptr_t)b.p); L[i] = L.back(); L.pop_back();
    u8 *q = (u8 *)(how == 0 ? realloc(b.p, n) : how == 1 ? reallocarray(b.p, n, 1) : P<void *(*)(void *, size_t)>("plug_realloc")(b.p, n)); if (!q) fail("realloc of %lu bytes (%s) to %lu failed", b.n, KN[b.kind], n);
    u64 m = std::min(b.n, n); for (u64 i = 0; i < m; i += b.us < 8192 ? 1 : 253) if (q[i] != (u8)(b.pat + (u8)(i * 7))) fail("realloc of %lu bytes (%s) to %lu lost byte %lu", b.n, KN[b.kind], n, i);
    bool inplace_al = b.al > 4096; accept(q, n, 1, 2, !(q == b.p && !b.plain) && !inplace_al, false);
}
// C22: no pointer to memory the library obtained in its writable data
static int ph(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libhardened_malloc")) return 0;
    uintptr_t ro0 = 0, ro1 = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, ro1 = ro0 + i->dlpi_phdr[k].p_memsz;
    FILE *f = fopen("/proc/self/maps", "r"); char line[500]; std::vector<Map> w; if (!f) giveup(); while (fgets(line, sizeof line, f)) { unsigned long a, b; char pr[8]; if (sscanf(line, "%lx-%lx %7s", &a, &b, pr) == 3 && pr[1] == 'w') w.push_back({a, b}); } fclose(f);
    u64 seen = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        for (u64 *q = (u64 *)((i->dlpi_addr + h.p_vaddr + 7) & ~7ull); (uintptr_t)(q + 1) <= i->dlpi_addr + h.p_vaddr + h.p_memsz; q++) {
            bool wr = false; for (auto &m : w) wr |= (uintptr_t)q >= m.lo && (uintptr_t)q < m.hi; if ((uintptr_t)q >= ro0 && (uintptr_t)q < ro1 && !wr) continue; u64 v = *q; count(C_GLOB);
            for (int m = 0; m < nmaps_; m++) if (v >= maps_[m].lo && v < maps_[m].hi) { if (wr) fail("writable data of the library (offset %lx) holds a pointer to memory it obtained", (u64)q - i->dlpi_addr); seen++; break; }
        } }
    if (seen < 2) fail("no pointer to the allocator's state was found in the library's read-only data: the scan is blind"); return 1;
}
static void verify() { for (auto &b : L) chk(b, "check"); }
void run_one(Ch &c) {
    case_timeout = 60; symbols(); rnd_seed = c.below(1ull << 40); booted = true; capture = true; bool scan = arg_mode == "scan"; L.reserve(2000);
    int n = 5 + c.below(90); unsigned kinds = 0; note("%d operations", n);
    for (int i = 0; i < n; i++) {
        u64 k = c.below(100);
        if (k < 45 || L.empty()) { u64 m = c.chance(8) ? 1 + c.below(60) : 1; for (u64 j = 0; j < m && L.size() < 500; j++) alloc(c); if (!L.empty()) kinds |= 1u << L.back().kind; }
        else if (k < 72) { u64 m = c.chance(8) ? 1 + c.below(60) : 1; for (u64 j = 0; j < m && !L.empty(); j++) drop(c.below(L.size()), c.below(nfree)); }
        else if (k < 84) reall(c, c.below(L.size()));
        else if (k < 88) { count(C_QUERY); B &b = L[c.below(L.size())]; if (malloc_usable_size(b.p) != b.us || P<size_t (*)(void *)>("plug_usable")(b.p) != b.us) fail("usable size of a live block of %lu bytes (%s) changed", b.n, KN[b.kind]); verify(); }
        else if (k < 91) { count(C_CXX); u64 m = gs(c) % 100000; std::string *s = P<std::string *(*)(size_t, char)>("plug_string")(m, 'z'); *s += std::string(m / 2, 'y'); if (s->size() != m + m / 2 || (m && (*s)[m - 1] != 'z')) fail("std::string across the plugin boundary is wrong"); if (c.below(2)) delete s; else P<void (*)(std::string *)>("plug_string_free")(s);
            std::map<int, std::vector<u16>> mp; for (int j = 0; j < 40; j++) mp[(j * 7) % 40].assign(j * 3, j); for (auto &x : mp) for (u16 v : x.second) if ((v * 7) % 40 != x.first) fail("a standard container holds a wrong value"); }
        else if (k < 93) { malloc_trim(0); malloc_stats(); struct mallinfo2 mi = mallinfo2(); (void)mi; if (mallopt(M_MMAP_THRESHOLD, 1) != 0) fail("mallopt did not return 0"); errno = 0; void *(*gst)() = (void *(*)())S("malloc_get_state"); if (gst()) fail("malloc_get_state returned a state"); if (errno != ENOSYS) fail("malloc_get_state: errno %d", errno); int (*sst)(void *) = (int (*)(void *))S("malloc_set_state"); if (sst(nullptr) != -2) fail("malloc_set_state did not return -2");
            char *q = nullptr; size_t l = 0; FILE *f = open_memstream(&q, &l); int r = malloc_info(0, f); if (r) fail("malloc_info failed"); errno = 0; if (malloc_info(1, f) != -1 || errno != EINVAL) fail("malloc_info(1) was accepted"); fclose(f); if (strncmp(q, "<malloc version=\"hardened_malloc-1\">", 36) || !strstr(q, "</malloc>")) fail("malloc_info printed %.60s", q); free(q); }
        else if (k < 95) { count(C_FORK); pid_t p = fork(); if (!p) { verify(); while (!L.empty()) drop(L.size() - 1, (int)(L.size() % nfree)); void *q = malloc(100000); free(q); _exit(0); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 77)) _exit(WEXITSTATUS(st)); fail("forked child ended with status %x", st); } verify(); }
        else if (k < 97) { free(nullptr); ::operator delete(nullptr); ::operator delete[](nullptr, std::align_val_t(64)); ::operator delete(nullptr, (size_t)5); free_sized(nullptr, 3); ((void (*)(void *))S("cfree"))(nullptr); if (malloc_usable_size(nullptr) || malloc_object_size(nullptr) || malloc_object_size_fast(nullptr)) fail("size of null is not 0"); }
        else if (k < 99) { errno = 0; volatile size_t huge = ~0ull - c.below(1 << 20); if (malloc(huge) || errno != ENOMEM) fail("malloc of %zu: not refused with ENOMEM", (size_t)huge); volatile size_t h2 = 1ull << 33; errno = 0; if (calloc(h2, h2) || errno != ENOMEM) fail("overflowing calloc not refused"); errno = 0; if (reallocarray(nullptr, h2, h2) || errno != ENOMEM) fail("overflowing reallocarray not refused"); errno = 0; if (aligned_alloc(24, 100) || errno != EINVAL) fail("aligned_alloc(24) not refused"); if (pvalloc(huge) ) fail("pvalloc of %zu succeeded", (size_t)huge); static int hn; hn = 0; auto old = std::set_new_handler([] { if (++hn == 2) std::set_new_handler(nullptr); }); std::align_val_t av = std::align_val_t(64); int form = c.below(8); void *volatile q = nullptr; bool threw = false;
            try { switch (form) { case 0: q = ::operator new(huge); break; case 1: q = ::operator new[](huge); break; case 2: q = ::operator new(huge, av); break; case 3: q = ::operator new[](huge, av); break; case 4: q = ::operator new(huge, std::nothrow); break; case 5: q = ::operator new[](huge, std::nothrow); break; case 6: q = ::operator new(huge, av, std::nothrow); break; default: q = ::operator new[](huge, av, std::nothrow); } } catch (std::bad_alloc &) { threw = true; }
            std::set_new_handler(old); if (q) fail("operator new form %d of %zu bytes returned %p", form, (size_t)huge, q); if (threw != (form < 4)) fail("operator new form %d of %zu bytes %s", form, (size_t)huge, threw ? "threw" : "did not throw"); if (hn != 2) fail("operator new form %d: the new-handler was called %d times, 2 expected", form, hn); }
        else if (scan) { dl_iterate_phdr(ph, nullptr); nontrivial(); }
        if (__builtin_popcount(kinds) >= 5) nontrivial();
        if (i + 1 == n && c.chance(25) && !L.empty() && !scan) { // misuse through any pair of entry points
            B b = L[c.below(L.size())]; int f = c.below(nfree - 2); if (f >= 10 && f <= 12 && !b.plain) f = 0; if (f == 15) f = 0; int g = c.below(9); count(C_BAD); note("; %s, then %s again, of %lu bytes from %s", FN[f], FN[g], b.n, KN[b.kind]); release(f, b); expect_fatal(); release(g, b); expect_none(); fail("block of %lu bytes from %s was released by %s and again by %s", b.n, KN[b.kind], FN[f], FN[g]);
        }
    }
    if (scan) dl_iterate_phdr(ph, nullptr), nontrivial();
    verify(); while (!L.empty()) drop(L.size() - 1, c.below(nfree));
}
