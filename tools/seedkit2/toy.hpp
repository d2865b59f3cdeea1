// A prime field with a small prime chosen at run time, with the interface of the generated Raw classes.
// Elements are residues 0..P-1 in the low half of a word; the rest of the word repeats them, so that a torn copy shows.
#pragma once
#include <cstdint>
#include <string>
#include <cstring>
#include <gmp.h>
class Toy {
public:
    static uint32_t P;
    struct Element { uint64_t v; };
    static const int N64 = 1;
    static Toy field;
private:
    Element fZero, fOne, fNegOne;
    static Element mk(uint64_t x) { x %= P; Element e; e.v = x | (x << 32); return e; }
    static uint64_t g(const Element &e) { uint32_t lo = e.v, hi = e.v >> 32; return lo == hi ? lo : bad(); }
    static uint64_t bad();
public:
    Toy() { reset(); }
    void reset() { fZero = mk(0); fOne = mk(1); fNegOne = mk(P - 1); }
    static void setPrime(uint32_t p) { P = p; field.reset(); }
    const Element &zero() { return fZero; }
    const Element &one() { return fOne; }
    const Element &negOne() { return fNegOne; }
    void copy(Element &r, const Element &a) { r = a; }
    void swap(Element &a, Element &b) { Element t = a; a = b; b = t; }
    void add(Element &r, const Element &a, const Element &b) { r = mk(g(a) + g(b)); }
    void sub(Element &r, const Element &a, const Element &b) { r = mk(g(a) + P - g(b)); }
    void mul(Element &r, const Element &a, const Element &b) { r = mk(g(a) * g(b)); }
    void neg(Element &r, const Element &a) { r = mk(P - g(a)); }
    void square(Element &r, const Element &a) { r = mk(g(a) * g(a)); }
    void inv(Element &r, const Element &a) { uint64_t b = g(a), e = P - 2, x = 1; for (; e; e >>= 1, b = b * b % P) if (e & 1) x = x * b % P; r = mk(x); }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    void exp(Element &r, const Element &base, uint8_t *s, unsigned n) {
        uint64_t b = g(base), x = 1;
        for (int i = n * 8 - 1; i >= 0; i--) { x = x * x % P; if (s[i >> 3] & (1 << (i & 7))) x = x * b % P; }
        r = mk(x);
    }
    int eq(const Element &a, const Element &b) { return g(a) == g(b); }
    int isZero(const Element &a) { return g(a) == 0; }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) {
        mpz_t m; mpz_init_set_str(m, s.c_str(), radix); unsigned long x = mpz_fdiv_ui(m, P); mpz_clear(m); r = mk(x);
    }
    std::string toString(const Element &a, uint32_t radix = 10) {
        mpz_t m; mpz_init_set_ui(m, g(a)); char *t = mpz_get_str(0, radix, m); std::string s(t); free(t); mpz_clear(m); return s;
    }
    void fromUI(Element &r, unsigned long v) { r = mk(v); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, g(a)); }
    void fromMpz(Element &r, const mpz_t a) { r = mk(mpz_fdiv_ui(a, P)); }
    void toMontgomery(Element &r, const Element &a) { r = a; }
    void fromMontgomery(Element &r, const Element &a) { r = a; }
};
