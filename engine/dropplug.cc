// Plugin loaded with dlopen by the drop-in engine: allocates and releases on its own symbol references.
#include <malloc.h>
#include <memory>
#include <new>
#include <stdlib.h>
#include <string.h>
#include <string>
extern "C" {
void *plug_alloc(int k, size_t n, size_t a) {
    void *p = nullptr;
    switch (k) {
        case 0: return malloc(n); case 1: return calloc(1, n); case 2: return realloc(nullptr, n); case 3: return aligned_alloc(a, n); case 4: return memalign(a, n);
        case 5: return posix_memalign(&p, a < 8 ? 8 : a, n) ? nullptr : p; case 6: return ::operator new(n, std::nothrow); case 7: return ::operator new[](n, std::nothrow);
        case 8: return ::operator new(n, std::align_val_t(a), std::nothrow); default: return ::operator new[](n, std::align_val_t(a), std::nothrow);
    }
}
void plug_free(int k, void *p) { switch (k) { case 0: free(p); return; case 1: ::operator delete(p); return; case 2: ::operator delete[](p); return; case 3: ::operator delete(p, std::nothrow); return; default: ::operator delete(p, std::align_val_t(64)); } }
void *plug_realloc(void *p, size_t n) { return realloc(p, n); }
void *plug_sym(int i, const char **n) {
    static const struct { const char *n; void *f; } T[] = {{"malloc", (void *)&malloc}, {"calloc", (void *)&calloc}, {"realloc", (void *)&realloc}, {"free", (void *)&free}, {"aligned_alloc", (void *)&aligned_alloc}, {"memalign", (void *)&memalign}, {"posix_memalign", (void *)&posix_memalign},
        {"valloc", (void *)&valloc}, {"pvalloc", (void *)&pvalloc}, {"malloc_usable_size", (void *)&malloc_usable_size}, {"_Znwm", (void *)(void *(*)(size_t))&::operator new}, {"_ZdlPv", (void *)(void (*)(void *) noexcept)&::operator delete}, {"_ZdlPvm", (void *)(void (*)(void *, size_t) noexcept)&::operator delete}, {"_ZdaPv", (void *)(void (*)(void *) noexcept)&::operator delete[]}};
    if (i >= (int)(sizeof T / sizeof *T)) return nullptr; *n = T[i].n; return T[i].f;
}
size_t plug_usable(void *p) { return malloc_usable_size(p); }
std::string *plug_string(size_t n, char c) { return new std::string(n, c); }
void plug_string_free(std::string *s) { delete s; }
}
