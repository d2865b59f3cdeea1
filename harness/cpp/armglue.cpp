// Host definitions of the Fr_raw* routines that run the generated ARM64 code in the emulator.
#include "fr.hpp"
#include "a64emu.h"
#include "arm_image.h"   // generated: VP_ARM_BASE, arm_image[], arm_syms[]
#include <sys/mman.h>
#include <cstring>
#include <cstdio>
#include <unistd.h>
unsigned vp_arm_bad;
static uint64_t sym(const char *n) {
    static bool init;
    if (!init) {
        size_t sz = (sizeof arm_image + 8191) & ~4095UL;
        void *p = mmap((void *)VP_ARM_BASE, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)VP_ARM_BASE) { printf("TOOL: cannot map the ARM64 image\n"); fflush(stdout); _exit(42); }
        memcpy(p, arm_image, sizeof arm_image); mprotect(p, sz, PROT_READ); init = true;
    }
    for (auto &s : arm_syms) if (!strcmp(s.n, n)) return s.a;
    printf("TOOL: symbol %s missing\n", n); fflush(stdout); _exit(42);
}
static const int B = Fr_N64 * 8;
static uint64_t go(uint64_t pc, const void *a0, uint64_t a1, uint64_t a2, const void *w0, const void *w1 = 0) {
    a64::Range r[2] = {{(uint64_t)w0, (uint64_t)w0 + B}, {(uint64_t)w1, (uint64_t)w1 + B}};
    return a64::run(pc, (uint64_t)a0, a1, a2, r, w1 ? 2 : w0 ? 1 : 0, &vp_arm_bad);
}
typedef uint64_t *P; typedef const uint64_t *CP;
#define S(n) static uint64_t pc = sym(#n)
#define U(x) ((uint64_t)(x))
extern "C" {
void Fr_rawCopy(P r, CP a) { S(Fr_rawCopy); go(pc, r, U(a), 0xdead, r); }
void Fr_rawSwap(P r, P a) { S(Fr_rawSwap); go(pc, r, U(a), 0xdead, r, a); }
void Fr_rawAdd(P r, CP a, CP b) { S(Fr_rawAdd); go(pc, r, U(a), U(b), r); }
void Fr_rawSub(P r, CP a, CP b) { S(Fr_rawSub); go(pc, r, U(a), U(b), r); }
void Fr_rawNeg(P r, CP a) { S(Fr_rawNeg); go(pc, r, U(a), 0xdead, r); }
void Fr_rawMMul(P r, CP a, CP b) { S(Fr_rawMMul); go(pc, r, U(a), U(b), r); }
void Fr_rawMMul1(P r, CP a, uint64_t b) { S(Fr_rawMMul1); go(pc, r, U(a), b, r); }
void Fr_rawFromMontgomery(P r, CP a) { S(Fr_rawFromMontgomery); go(pc, r, U(a), 0xdead, r); }
int Fr_rawIsEq(CP a, CP b) { S(Fr_rawIsEq); return (int)go(pc, a, U(b), 0xdead, 0); }
int Fr_rawIsZero(CP a) { S(Fr_rawIsZero); return (int)go(pc, a, 0xdead, 0xdead, 0); }
void Fr_rawCopyS2L(P r, int64_t v) { S(Fr_rawCopyS2L); go(pc, r, U(v), 0xdead, r); }
void Fr_rawAddLS(P r, P a, uint64_t b) { S(Fr_rawAddLS); go(pc, r, U(a), b, r); }
void Fr_rawSubSL(P r, uint64_t a, P b) { S(Fr_rawSubSL); go(pc, r, a, U(b), r); }
void Fr_rawSubLS(P r, P a, uint64_t b) { S(Fr_rawSubLS); go(pc, r, U(a), b, r); }
void Fr_rawNegLS(P r, P a, uint64_t b) { S(Fr_rawNegLS); go(pc, r, U(a), b, r); }
int Fr_rawCmp(P a, P b) { S(Fr_rawCmp); return (int)go(pc, a, U(b), 0xdead, 0); }
void Fr_rawAnd(P r, P a, P b) { S(Fr_rawAnd); go(pc, r, U(a), U(b), r); }
void Fr_rawOr(P r, P a, P b) { S(Fr_rawOr); go(pc, r, U(a), U(b), r); }
void Fr_rawXor(P r, P a, P b) { S(Fr_rawXor); go(pc, r, U(a), U(b), r); }
void Fr_rawShl(P r, P a, uint64_t b) { S(Fr_rawShl); go(pc, r, U(a), b, r); }
void Fr_rawShr(P r, P a, uint64_t b) { S(Fr_rawShr); go(pc, r, U(a), b, r); }
void Fr_rawNot(P r, P a) { S(Fr_rawNot); go(pc, r, U(a), 0xdead, r); }
void Fr_rawSubRegular(P r, P a, P b) { S(Fr_rawSubRegular); go(pc, r, U(a), U(b), r); }
}
