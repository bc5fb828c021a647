// Stand-in for bionic's header: used when /repo is built with -D__ANDROID__ on this machine.
#include <stdint.h>
#pragma once
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define async_safe_fatal(fmt, s) do { const char *m_ = "fatal allocator error: "; (void)!write(2, m_, strlen(m_)); (void)!write(2, (s), strlen(s)); (void)!write(2, "\n", 1); abort(); } while (0)
#ifndef M_PURGE
#define M_PURGE (-101)
#endif
