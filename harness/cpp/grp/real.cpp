// The real curves, as alt_bn128.cpp sets them up.
#include "io.hpp"
#include <alt_bn128.hpp>
#define VP_ALT
#include "curvedrv.hpp"
using namespace AltBn128;
struct IOq : IORaw<RawFq> {};
struct IOq2 {
    typedef F2Field<RawFq> F;
    static void parse(F &f, In &in, F::Element &e) { IOq::parse(f.F, in, e.a); IOq::parse(f.F, in, e.b); }
    static void print(F &f, Out &o, F::Element &e) { o << '['; IOq::print(f.F, o, e.a); o << ','; IOq::print(f.F, o, e.b); o << ']'; }
};
static CurveDrv<RawFq, IOq> &d1() { static CurveDrv<RawFq, IOq> d; if (!d.c) { d.f = &AltBn128::F1; d.c = &AltBn128::G1; } return d; }
static CurveDrv<F2Field<RawFq>, IOq2> &d2() { static CurveDrv<F2Field<RawFq>, IOq2> d; if (!d.c) { d.f = &AltBn128::F2; d.c = &AltBn128::G2; } return d; }
static Reg r1("b1", [](In &in) { d1().cmd(in); });
static Reg r2("b2", [](In &in) { d2().cmd(in); });
// the same through the engine object
static Reg r3("e1", [](In &in) { d1().f = &Engine::engine.f1; d1().c = &Engine::engine.g1; d1().cmd(in); });
static Reg r4("e2", [](In &in) { d2().f = &Engine::engine.f2; d2().c = &Engine::engine.g2; d2().cmd(in); });
