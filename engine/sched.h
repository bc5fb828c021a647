#pragma once
#include "vp.h"
enum { MAXT = 6 };
extern thread_local int sc_tid, sc_in; // scheduled thread, inside an allocator call
extern u32 sc_vc[MAXT][MAXT];
extern u64 sc_accesses; extern bool sc_detect;
void sc_access(uintptr_t a, size_t n, bool w, void *pc);
void sc_forget(uintptr_t a, size_t n);
extern "C" void sc_acquire(const void *a);
extern "C" void sc_release(const void *a);
void sc_point_access(); // scheduling points
void sc_point_sync();
const char *sc_describe(uintptr_t a);
