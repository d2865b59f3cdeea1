#include <alt_bn128.hpp>
#define VP_ALT
#include "fftdrv.hpp"
static FftDrv<RawFr, IORaw<RawFr>> d;
static Reg r1("fr", [](In &in) { d.f = &RawFr::field; d.cmd(in); });
