// Big-number calls of instrumented code (linked with --wrap): their operands are accesses.
#include <gmp.h>
#include <cstddef>
extern "C" void vp_access(const void *, size_t, int);
static void R(const void *p) { vp_access(p, sizeof(__mpz_struct), 0); }
static void W(const void *p) { vp_access(p, sizeof(__mpz_struct), 1); }
static void r(const void *p, long n) { if (n > 0) vp_access(p, n * 8, 0); }
static void w(const void *p, long n) { if (n > 0) vp_access(p, n * 8, 1); }
#define X(n) __real___gmpz_##n
#define Y(n) __wrap___gmpz_##n
#define M(n) __real___gmpn_##n
#define N(n) __wrap___gmpn_##n
typedef __mpz_struct *Z; typedef const __mpz_struct *C; typedef mp_limb_t L; typedef mp_limb_t *P; typedef const mp_limb_t *Q;
extern "C" {
#define ZCC(n) void X(n)(Z, C, C); void Y(n)(Z a, C b, C c) { R(b); R(c); W(a); X(n)(a, b, c); }
ZCC(add) ZCC(sub) ZCC(mul) ZCC(fdiv_q) ZCC(fdiv_r) ZCC(tdiv_q) ZCC(tdiv_r) ZCC(mod) ZCC(and) ZCC(ior) ZCC(xor)
int X(invert)(Z, C, C); int Y(invert)(Z a, C b, C c) { R(b); R(c); W(a); return X(invert)(a, b, c); }
void X(powm)(Z, C, C, C); void Y(powm)(Z a, C b, C c, C d) { R(b); R(c); R(d); W(a); X(powm)(a, b, c, d); }
#define ZCU(n) void X(n)(Z, C, unsigned long); void Y(n)(Z a, C b, unsigned long c) { R(b); W(a); X(n)(a, b, c); }
ZCU(add_ui) ZCU(sub_ui) ZCU(mul_ui) ZCU(mul_2exp) ZCU(fdiv_q_2exp) ZCU(fdiv_r_2exp) ZCU(tdiv_q_2exp)
#define Z1(n) void X(n)(Z); void Y(n)(Z a) { W(a); X(n)(a); }
Z1(init) Z1(clear)
#define ZC(n) void X(n)(Z, C); void Y(n)(Z a, C b) { R(b); W(a); X(n)(a, b); }
ZC(set) ZC(init_set) ZC(com)
#define ZU(n) void X(n)(Z, unsigned long); void Y(n)(Z a, unsigned long b) { W(a); X(n)(a, b); }
ZU(set_ui) ZU(init_set_ui) ZU(init2)
#define ZI(n) void X(n)(Z, long); void Y(n)(Z a, long b) { W(a); X(n)(a, b); }
ZI(set_si) ZI(init_set_si)
#define ZS(n) int X(n)(Z, const char *, int); int Y(n)(Z a, const char *s, int b) { W(a); return X(n)(a, s, b); }
ZS(set_str) ZS(init_set_str)
#define CI(n, T) T X(n)(C); T Y(n)(C a) { R(a); return X(n)(a); }
CI(fits_sint_p, int) CI(get_si, long) CI(get_ui, unsigned long)
int X(cmp)(C, C); int Y(cmp)(C a, C b) { R(a); R(b); return X(cmp)(a, b); }
int X(cmp_ui)(C, unsigned long); int Y(cmp_ui)(C a, unsigned long b) { R(a); return X(cmp_ui)(a, b); }
int X(tstbit)(C, unsigned long); int Y(tstbit)(C a, unsigned long b) { R(a); return X(tstbit)(a, b); }
size_t X(sizeinbase)(C, int); size_t Y(sizeinbase)(C a, int b) { R(a); return X(sizeinbase)(a, b); }
char *X(get_str)(char *, int, C); char *Y(get_str)(char *s, int b, C a) { R(a); char *t = X(get_str)(s, b, a); if (s) { size_t n = 0; while (t[n]) n++; vp_access(t, n + 1, 1); } return t; }
void *X(export)(void *, size_t *, int, size_t, int, size_t, C);
void *Y(export)(void *p, size_t *c, int o, size_t s, int e, size_t k, C a) { R(a); size_t n; if (!c) c = &n; else vp_access(c, 8, 1); void *q = X(export)(p, c, o, s, e, k, a); if (p && *c) vp_access(p, *c * s, 1); return q; }
void X(import)(Z, size_t, int, size_t, int, size_t, const void *);
void Y(import)(Z a, size_t n, int o, size_t s, int e, size_t k, const void *p) { W(a); if (n) vp_access(p, n * s, 0); X(import)(a, n, o, s, e, k, p); }
#define PQQ(n) L M(n)(P, Q, Q, long); L N(n)(P a, Q b, Q c, long k) { r(b, k); r(c, k); w(a, k); return M(n)(a, b, c, k); }
PQQ(add_n) PQQ(sub_n)
#define VQQ(n) void M(n)(P, Q, Q, long); void N(n)(P a, Q b, Q c, long k) { r(b, k); r(c, k); w(a, k); M(n)(a, b, c, k); }
VQQ(and_n) VQQ(ior_n) VQQ(xor_n)
#define PQL(n, x) L M(n)(P, Q, long, L); L N(n)(P a, Q b, long k, L v) { r(b, k); if (x) r(a, k); w(a, k); return M(n)(a, b, k, v); }
PQL(mul_1, 0) PQL(addmul_1, 1) PQL(submul_1, 1) PQL(add_1, 0) PQL(sub_1, 0)
#define PQU(n) L M(n)(P, Q, long, unsigned); L N(n)(P a, Q b, long k, unsigned v) { r(b, k); w(a, k); return M(n)(a, b, k, v); }
PQU(lshift) PQU(rshift)
#define PQ(n) void M(n)(P, Q, long); void N(n)(P a, Q b, long k) { r(b, k); w(a, k); M(n)(a, b, k); }
PQ(com) PQ(copyi) PQ(copyd)
void M(zero)(P, long); void N(zero)(P a, long k) { w(a, k); M(zero)(a, k); }
int M(cmp)(Q, Q, long); int N(cmp)(Q a, Q b, long k) { r(a, k); r(b, k); return M(cmp)(a, b, k); }
}
