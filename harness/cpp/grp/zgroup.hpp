// The integers modulo 2^61-1 under addition, in the shape of a Curve: sums of products can be told exactly.
#pragma once
#include "io.hpp"
#ifndef VP_ALT      // those headers are there already, without guards of their own
#include <misc.hpp>
#include <naf.hpp>
#include <exp.hpp>
#include <multiexp.hpp>
#include <msm.hpp>
#endif
struct ZGroup {
    static const uint64_t M = (1ULL << 61) - 1;
    // the padding shows torn or partial copies
    struct Point { uint64_t v, w[3]; };
    struct PointAffine { uint64_t v, w; };
    Point fz; ZGroup() { set(fz, 0); }
    static void bad() { fprintf(stderr, "torn group element\n"); abort(); }
    static uint64_t g(const Point &p) { if (p.w[0] != p.v || p.w[1] != p.v || p.w[2] != p.v) bad(); return p.v; }
    static uint64_t g(const PointAffine &p) { if (p.w != p.v) bad(); return p.v; }
    static void set(Point &p, uint64_t x) { x %= M; p.v = p.w[0] = p.w[1] = p.w[2] = x; }
    static void set(PointAffine &p, uint64_t x) { x %= M; p.v = p.w = x; }
    Point &zero() { return fz; }
    template <class R, class A> void copy(R &r, A &a) { set(r, g(a)); }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { set(r, g(a) + g(b)); }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { set(r, g(a) + M - g(b)); }
    template <class R, class A> void dbl(R &r, A &a) { set(r, 2 * g(a)); }
    template <class R, class A> void neg(R &r, A &a) { set(r, M - g(a)); }
    template <class A> bool isZero(A &a) { return g(a) == 0; }
    template <class A, class B> bool eq(A &a, B &b) { return g(a) == g(b); }
    void mulByScalar(Point &r, Point &b, uint8_t *s, unsigned n) { nafMulByScalar<ZGroup, Point, Point>(*this, r, b, s, n); }
    void mulByScalar(Point &r, PointAffine &b, uint8_t *s, unsigned n) { nafMulByScalar<ZGroup, PointAffine, Point>(*this, r, b, s, n); }
};
