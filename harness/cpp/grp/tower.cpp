#include "tower.hpp"
typedef TowerDrv<Toy, IO<Toy>> D;
static D::A2 *f2; static D::A6 *f6; static D::A12 *f12;
// tw p nr
static Reg r0("tw", [](In &in) {
    Toy::setPrime(num(in)); long nr = num(in);
    delete f2; delete f6; delete f12;
    f2 = new D::A2(std::to_string(nr)); f6 = new D::A6(); f12 = new D::A12();
});
static Reg r1("tt", [](In &in) { D::cmd(*f2, *f6, *f12, in); });
