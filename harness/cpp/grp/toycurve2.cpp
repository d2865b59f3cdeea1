#include "io.hpp"
#include "curvedrv.hpp"
#include <f2field.hpp>
typedef F2Field<Toy> F2;
struct IO2 {
    static void parse(F2 &f, In &in, F2::Element &e) { IO<Toy>::parse(f.F, in, e.a); IO<Toy>::parse(f.F, in, e.b); }
    static void print(F2 &f, Out &o, F2::Element &e) { o << '['; IO<Toy>::print(f.F, o, e.a); o << ','; IO<Toy>::print(f.F, o, e.b); o << ']'; }
};
static CurveDrv<F2, IO2> d;
// tc2 p nr a0 a1 b0 b1 gx0 gx1 gy0 gy1
static Reg r0("tc2", [](In &in) {
    Toy::setPrime(num(in));
    Toy t; Toy::Element nr; t.fromUI(nr, num(in));
    delete d.c; d.f = new F2(nr);
    F2::Element a, b, gx, gy; IO2::parse(*d.f, in, a); IO2::parse(*d.f, in, b); IO2::parse(*d.f, in, gx); IO2::parse(*d.f, in, gy);
    d.c = new Curve<F2>(*d.f, a, b, gx, gy);
});
static Reg r1("t2", [](In &in) { d.cmd(in); });
