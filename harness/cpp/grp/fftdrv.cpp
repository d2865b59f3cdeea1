#include "fftdrv.hpp"
static FftDrv<Toy, IO<Toy>> d;
static Reg r0("fp", [](In &in) { Toy::setPrime(num(in)); d.f = &Toy::field; d.t = 0; });
static Reg r1("ft", [](In &in) { d.cmd(in); });
