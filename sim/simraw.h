#ifndef SIMRAW_H
#define SIMRAW_H
#include <errno.h>
/* raw system calls: never wrapped, never intercepted */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
    return ret;
}
#define RAW_N(_1,_2,_3,_4,_5,_6,_7,N,...) N
#define raw_1(n) raw6(n,0,0,0,0,0,0)
#define raw_2(n,a) raw6(n,(long)(a),0,0,0,0,0)
#define raw_3(n,a,b) raw6(n,(long)(a),(long)(b),0,0,0,0)
#define raw_4(n,a,b,c) raw6(n,(long)(a),(long)(b),(long)(c),0,0,0)
#define raw_5(n,a,b,c,d) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),0,0)
#define raw_6(n,a,b,c,d,e) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),0)
#define raw_7(n,a,b,c,d,e,f) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))
#define RAW_CAT_(x,y) x##y
#define RAW_CAT(x,y) RAW_CAT_(x,y)
#define raw_syscall(...) RAW_CAT(raw_, RAW_N(__VA_ARGS__,7,6,5,4,3,2,1))(__VA_ARGS__)
#endif
