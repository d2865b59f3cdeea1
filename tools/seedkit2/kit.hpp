// A field with a small prime, the integers modulo 2^61-1 as a group, and the headers under test.
#pragma once
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "toy.hpp"
#include <splitparstr.hpp>
#include <misc.hpp>
#include <fft.hpp>
#include <f2field.hpp>
#include <curve.hpp>
uint32_t Toy::P = 97;
Toy Toy::field;
uint64_t Toy::bad() { abort(); }
struct ZGroup {
    static const uint64_t M = (1ULL << 61) - 1;
    struct Point { uint64_t v; };
    struct PointAffine { uint64_t v; };
    Point fz{0};
    Point &zero() { return fz; }
    template <class R, class A> void copy(R &r, A &a) { r.v = a.v; }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { r.v = (a.v + b.v) % M; }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { r.v = (a.v + M - b.v) % M; }
    template <class R, class A> void dbl(R &r, A &a) { r.v = 2 * a.v % M; }
    template <class R, class A> void neg(R &r, A &a) { r.v = (M - a.v) % M; }
    template <class A> bool isZero(A &a) { return a.v == 0; }
    void mulByScalar(Point &r, Point &b, uint8_t *s, unsigned n) { nafMulByScalar<ZGroup, Point, Point>(*this, r, b, s, n); }
    void mulByScalar(Point &r, PointAffine &b, uint8_t *s, unsigned n) { nafMulByScalar<ZGroup, PointAffine, Point>(*this, r, b, s, n); }
};
// the sum of products by the schoolbook
template <class PA> uint64_t sumOf(const PA *b, const uint8_t *s, size_t ss, size_t n) {
    unsigned __int128 t = 0;
    for (size_t i = 0; i < n; i++) { unsigned __int128 k = 0; for (size_t j = ss; j--;) k = ((k << 8) + s[i * ss + j]) % ZGroup::M; t = (t + k * b[i].v) % ZGroup::M; }
    return (uint64_t)t;
}
static inline uint64_t rnd() { static uint64_t x = 88172645463325252ULL; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
