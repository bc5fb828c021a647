// C32 (and the C++ part of C11): every operator new / delete form of new.cc, called under renamed symbols.
#include "caselib.h"
#include "hist.h"
#include <new>
#include <string.h>
#include <stdio.h>
const char *engine_name = "cxx";
std::vector<const char *> count_names = {"new_calls", "over_aligned", "delete_calls", "sized_deletes", "handler_calls", "bad_alloc", "null_returns", "oom_then_success", "mismatch_aborts", "null_deletes", "zero_size", "small_class_exhausted"};
enum { N_NEW, N_OVER, N_DEL, N_SIZED, N_HAND, N_BAD, N_NULL, N_RETRY, N_MIS, N_NDEL, N_ZERO, N_SMALLX };
typedef std::align_val_t AV; typedef const std::nothrow_t &NT;
#define W __attribute__((weak))
W void *n1(size_t) asm("vp_Znwm"); W void *n2(size_t) asm("vp_Znam");
W void *n3(size_t, NT) asm("vp_ZnwmRKSt9nothrow_t"); W void *n4(size_t, NT) asm("vp_ZnamRKSt9nothrow_t");
W void *n5(size_t, AV) asm("vp_ZnwmSt11align_val_t"); W void *n6(size_t, AV) asm("vp_ZnamSt11align_val_t");
W void *n7(size_t, AV, NT) asm("vp_ZnwmSt11align_val_tRKSt9nothrow_t"); W void *n8(size_t, AV, NT) asm("vp_ZnamSt11align_val_tRKSt9nothrow_t");
W void d1(void *) asm("vp_ZdlPv"); W void d2(void *) asm("vp_ZdaPv"); W void d3(void *, NT) asm("vp_ZdlPvRKSt9nothrow_t"); W void d4(void *, NT) asm("vp_ZdaPvRKSt9nothrow_t");
W void d5(void *, size_t) asm("vp_ZdlPvm"); W void d6(void *, size_t) asm("vp_ZdaPvm");
W void d7(void *, AV) asm("vp_ZdlPvSt11align_val_t"); W void d8(void *, AV) asm("vp_ZdaPvSt11align_val_t");
W void d9(void *, AV, NT) asm("vp_ZdlPvSt11align_val_tRKSt9nothrow_t"); W void d10(void *, AV, NT) asm("vp_ZdaPvSt11align_val_tRKSt9nothrow_t");
W void d11(void *, size_t, AV) asm("vp_ZdlPvmSt11align_val_t"); W void d12(void *, size_t, AV) asm("vp_ZdaPvmSt11align_val_t");

static bool isnothrow(int f) { return f == 3 || f == 4 || f == 7 || f == 8; }
static bool isaligned(int f) { return f >= 5; }
static bool isarray(int f) { return f % 2 == 0; }
static void *call_new(int f, size_t n, size_t a) {
    switch (f) { case 1: return n1(n); case 2: return n2(n); case 3: return n3(n, std::nothrow); case 4: return n4(n, std::nothrow); case 5: return n5(n, AV(a)); case 6: return n6(n, AV(a)); case 7: return n7(n, AV(a), std::nothrow); default: return n8(n, AV(a), std::nothrow); }
}
// form: 0 plain, 1 nothrow, 2 sized
static void call_delete(bool arr, bool al, int form, void *p, size_t n, size_t a) {
    if (!al) { if (!arr) form == 0 ? d1(p) : form == 1 ? d3(p, std::nothrow) : d5(p, n); else form == 0 ? d2(p) : form == 1 ? d4(p, std::nothrow) : d6(p, n); }
    else { if (!arr) form == 0 ? d7(p, AV(a)) : form == 1 ? d9(p, AV(a), std::nothrow) : d11(p, n, AV(a)); else form == 0 ? d8(p, AV(a)) : form == 1 ? d10(p, AV(a), std::nothrow) : d12(p, n, AV(a)); }
}
// ---- new handlers
static int h_mode, h_left, h_calls, h_other; // mode 0: clear fault at the last call, 1: remove, 2: throw bad_alloc, 3: throw derived, 4: install the second handler
struct Derived : std::bad_alloc {};
static void handler2() { h_other++; shim_fault.count = 0; }
static void handler() {
    h_calls++; count(N_HAND); if (h_calls > 200) fail("the new-handler was called more than 200 times");
    if (--h_left > 0) return;
    switch (h_mode) { case 0: shim_fault.count = 0; return; case 1: std::set_new_handler(nullptr); return; case 2: throw std::bad_alloc(); case 3: throw Derived(); default: std::set_new_handler(handler2); }
}
struct Bk { u8 *p; size_t n, a, us; int f; u8 pat; };
static std::vector<Bk> B;
static void check(const Bk &b, const char *w) { for (size_t i = 0; i < b.us; i += b.us < 4096 ? 1 : 509) if (b.p[i] != (u8)(b.pat + i)) fail("%s: block of %zu bytes from new form %d changed at %zu", w, b.n, b.f, i); }
static void put(Bk &b) { for (size_t i = 0; i < b.us; i += b.us < 4096 ? 1 : 509) b.p[i] = (u8)(b.pat + i); }
static size_t gsize(Ch &c) {
    u64 mx = maxsmall();
    switch (c.below(8)) { case 0: return c.below(64); case 1: { long s = (long)SC[c.below(nclasses())] + (long)c.below(19) - 17; return s < 0 ? 0 : s; } case 2: return c.below(5000); case 3: return c.below(mx + 1); case 4: return mx - 20 + c.below(40); case 5: return mx + c.below(400000); case 6: return 0; default: return 1ull << c.below(21); }
}
static size_t galign(Ch &c) { u64 w = c.below(10); return w < 7 ? 1ull << c.below(13) : 1ull << c.range(13, 20); }
static void accept(void *p, size_t n, size_t a, int f) {
    if (((uintptr_t)p & 15) && n) fail("new form %d(%zu) returned a misaligned block %p", f, n, p);
    if ((uintptr_t)p & (a - 1)) fail("new form %d(%zu, align %zu) returned %p", f, n, a, p);
    size_t us = h_malloc_usable_size(p); if (us < n) fail("new form %d(%zu): usable size %zu", f, n, us);
    for (auto &b : B) { uintptr_t x = (uintptr_t)p, y = (uintptr_t)b.p; if (x < y + (b.us ? b.us : 1) && y < x + (us ? us : 1)) fail("new form %d(%zu) overlaps a live block", f, n); }
    Bk b{(u8 *)p, n, a, us, f, (u8)(37 * B.size() + 11)}; put(b); B.push_back(b);
}
void run_one(Ch &c) {
    if (!n1 || !n2 || !n3 || !n4 || !n5 || !n6 || !n7 || !n8 || !d1 || !d2 || !d3 || !d4 || !d5 || !d6 || !d7 || !d8 || !d9 || !d10 || !d11 || !d12) fail("an operator form is missing from the library");
    shim_seed(c.below(1ull << 40)); h_free(h_malloc(1)); B.reserve(400);
    int n = c.range(1, 40); bool c11 = arg_mode == "mismatch"; unsigned kinds = 0;
    for (int i = 0; i < n; i++) {
        u64 w = c.below(100);
        if (w < 45 || B.empty()) {
            int f = c.range(1, 8); size_t s = gsize(c), a = isaligned(f) ? galign(c) : 16; count(N_NEW); if (a > 16) count(N_OVER); if (!s) count(N_ZERO);
            void *p; try { p = call_new(f, s, a); } catch (std::bad_alloc &) { p = nullptr; fail("new form %d(%zu, align %zu) threw although memory is available", f, s, a); }
            if (!p) fail("new form %d(%zu, align %zu) returned null although memory is available", f, s, a);
            accept(p, s, isaligned(f) ? a : 1, f); kinds |= 1u << f;
        } else if (w < 80) {
            u64 k = c.below(B.size()); Bk b = B[k]; B.erase(B.begin() + k); int form = c.below(3); check(b, "before delete"); count(N_DEL); if (form == 2) count(N_SIZED);
            call_delete(isarray(b.f), isaligned(b.f), form, b.p, b.n, b.a); kinds |= 1u << (10 + form + 3 * isaligned(b.f));
            for (auto &o : B) check(o, "after another block was deleted");
        } else if (w < 84) { for (int arr = 0; arr < 2; arr++) for (int al = 0; al < 2; al++) for (int fo = 0; fo < 3; fo++) { call_delete(arr, al, fo, nullptr, gsize(c), galign(c)); count(N_NDEL); }
        } else if (w < 97) { // exhaustion
            int f = c.range(1, 8); size_t a = isaligned(f) ? galign(c) : 16; bool huge = c.below(2); size_t s = huge ? (c.below(2) ? ~0ull - c.below(5000) : (1ull << 62) + c.below(1ull << 62)) : maxsmall() + 1 + c.below(300000);
            bool hasH = c.below(4) != 0; h_mode = c.below(5); if (huge && (h_mode == 0 || h_mode == 4)) h_mode = 1 + c.below(3); int k = c.range(1, 6); h_left = k; h_calls = h_other = 0;
            std::vector<void *> fillers; bool small = !huge && c.below(2); // a small class is exhausted by taking every slot it can still hand out
            if (small) {
                s = gsize(c); if (!s) s = 1; size_t u = c.below(2) ? a : 16; if (isaligned(f) && a > 2048) { a = 1ull << c.range(4, 11); u = a; } if (s > 3000) s %= 3000; if (!s) s = 7; if (isaligned(f)) u = a;
                shim_fault.skip = 0; shim_fault.count = 1000000000; shim_fault.mask = K_MMAP | K_MPROTECT | K_MMAPFIXED; shim_fault.err = ENOMEM; shim_fault.period = 0;
                for (int t = 0; t < 6000; t++) { void *q = isaligned(f) ? h_aligned_alloc(u, s) : h_malloc(s); if (!q) break; fillers.push_back(q); }
                shim_fault.count = 0; count(N_SMALLX);
            }
            std::set_new_handler(hasH ? handler : nullptr);
            if (small) { shim_fault.skip = 0; shim_fault.count = 1000000; shim_fault.mask = K_MMAP | K_MPROTECT | K_MMAPFIXED; shim_fault.err = ENOMEM; shim_fault.period = 0; }
            else if (!huge) { shim_fault.skip = 0; shim_fault.count = 1000000; shim_fault.mask = K_MMAP; shim_fault.err = ENOMEM; shim_fault.period = 0; }
            bool threw = false; void *p = nullptr; try { p = call_new(f, s, a); } catch (std::bad_alloc &) { threw = true; }
            shim_fault.count = 0; bool still = std::get_new_handler() != nullptr; std::set_new_handler(nullptr); (void)still;
            bool succeed = hasH && (h_mode == 0 || h_mode == 4) && !huge; int wantcalls = hasH ? k : 0;
            if (h_calls != wantcalls) fail("new form %d(%zu) under exhaustion: handler called %d times, want %d (mode %d)", f, s, h_calls, wantcalls, h_mode);
            if (succeed) { if (!p) fail("new form %d(%zu): memory became available in the handler but the call %s", f, s, threw ? "threw" : "returned null"); if (h_mode == 4 && h_other != 1) fail("new form %d: the handler installed by the handler was called %d times", f, h_other); count(N_RETRY); accept(p, s, isaligned(f) ? a : 1, f); }
            else if (isnothrow(f)) { if (threw) fail("nothrow new form %d threw", f); if (p) fail("nothrow new form %d returned a block for an impossible request", f); count(N_NULL); }
            else { if (!threw) fail("new form %d(%zu) did not throw std::bad_alloc (returned %p)", f, s, p); count(N_BAD); }
            for (void *q : fillers) h_free(q);
            kinds |= 1u << 20; for (auto &o : B) check(o, "after exhaustion");
        } else for (auto &o : B) check(o, "check");
        if (B.size() > 300) break;
    }
    note("%d operator calls, forms %#x, %zu live", n, kinds, B.size());
    if (__builtin_popcount(kinds) >= 3) nontrivial();
    if (c11 && !B.empty()) { // sized delete with the size of another class
        Bk b = B[c.below(B.size())]; size_t s = 0; bool al = isaligned(b.f); bool ok = false;
        for (int t = 0; t < 20 && !ok; t++) {
            s = c.below(4) == 0 ? ~0ull - c.below(1ull << c.below(40)) : gsize(c);
            if (s > (1ull << 40)) { ok = true; break; }
            void *q = al ? n7(s, AV(b.a), std::nothrow) : n3(s, std::nothrow); if (!q) continue; size_t us = h_malloc_usable_size(q); al ? d7(q, AV(b.a)) : d1(q);
            ok = us != b.us;
        }
        if (ok) { note("; mismatch: block of %zu (usable %zu, align %zu) deleted with size %zu", b.n, b.us, b.a, s); count(N_MIS); expect_fatal(); call_delete(isarray(b.f), al, 2, b.p, s, b.a); expect_none(); fail("sized delete with %zu of a block of usable size %zu (align %zu, form %d) returned", s, b.us, b.a, b.f); }
    } else for (auto &b : B) { check(b, "at the end"); call_delete(isarray(b.f), isaligned(b.f), c.below(3), b.p, b.n, b.a); }
}
