#include <alt_bn128.hpp>
#define VP_ALT
#include "tower.hpp"
typedef IORaw<RawFq> IOq;
typedef TowerDrv<RawFq, IOq> D;
static D::A2 *f2x;
// bf <0|1>: the namespace's or the engine's objects; bn nr: another non-residue for the quadratic level
static bool eng;
static Reg r0("bf", [](In &in) { eng = num(in); delete f2x; f2x = 0; });
static Reg r1("bn", [](In &in) { delete f2x; f2x = new D::A2(tok(in)); });
static Reg r2("bt", [](In &in) {
    if (eng) D::cmd(f2x ? *f2x : AltBn128::Engine::engine.f2, AltBn128::Engine::engine.f6, AltBn128::Engine::engine.f12, in);
    else D::cmd(f2x ? *f2x : AltBn128::F2, AltBn128::F6, AltBn128::F12, in);
});
