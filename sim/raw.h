// Real system calls, bypassing the interposed libc symbols.
#pragma once
#include <sys/syscall.h>
#include <errno.h>
static inline long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
