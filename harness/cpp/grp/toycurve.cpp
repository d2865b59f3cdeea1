#include "io.hpp"
#include "curvedrv.hpp"
static CurveDrv<Toy, IO<Toy>> d;
static Toy tf;
// tc p a b gx gy
static Reg r0("tc", [](In &in) {
    Toy::setPrime(num(in)); tf.reset();
    Toy::Element a, b, gx, gy; tf.fromUI(a, num(in)); tf.fromUI(b, num(in)); tf.fromUI(gx, num(in)); tf.fromUI(gy, num(in));
    delete d.c; d.f = &tf; d.c = new Curve<Toy>(tf, a, b, gx, gy);
});
static Reg r1("t", [](In &in) { d.cmd(in); });
