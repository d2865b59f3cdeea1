// A64 (ARMv8-A, integer subset) interpreter working directly on host memory.
#pragma once
#include <cstdint>
#include <cstddef>
namespace a64 {
enum Bad { X19 = 1, SP = 2, WILD = 4, X18 = 8, RET = 16 };
struct Range { uint64_t lo, hi; };
// Runs the routine at pc with the AAPCS arguments, stores allowed only to the ranges w and to the emulated stack.
// Adds Bad bits to *bad.  Instructions outside the subset end the process with status 42 (a limit of the tool).
uint64_t run(uint64_t pc, uint64_t a0, uint64_t a1, uint64_t a2, const Range *w, int nw, unsigned *bad);
}
