import os as _o
_cpp = lambda n: open(_o.path.join(V, "harness", "cpp", n)).read()
ID="c09-shr-whole-words"; PROP="C09"; KIT="field"
NEEDS="the ARM64 right shift by a multiple of 64"
BREAKS="the complementary count is 64 - k taken modulo 64, so a shift by whole words ORs every word with its neighbour"
A="src/armbuilder.js"
EDITS=[(A,'''        this.op("and", "x3", "x2", "0x3f");
        this.op("mov", "x4", "0x3f");
        this.op("sub", "x4", "x4", "x3");
''','''        this.op("and", "x3", "x2", "0x3f");
        this.op("neg", "x4", "x3");
''',"first"),
(A,'''            this.op("orr",  this.r1[i], this.r1[i],    c0, "lsl #1");''','''            this.op("orr",  this.r1[i], this.r1[i],    c0);''',1)]
FILES={"a64emu.cpp":_cpp("a64emu.cpp"),"a64emu.h":_cpp("a64emu.h"),"armglue.cpp":_cpp("armglue.cpp"),"mkimage.py":r'''
import subprocess, sys
d = sys.argv[1]
run = lambda *a: subprocess.run(a, check=True, stdout=subprocess.PIPE, cwd=d).stdout.decode()
run("clang", "--target=aarch64-linux-gnu", "-c", "fr_raw_arm64.s", "-o", "arm.o")
open(d + "/arm.ld", "w").write("SECTIONS { . = 0x5A000000; .all : { *(.text*) *(.rodata*) *(.data*) *(.bss*) } }\n")
run("lld", "-flavor", "gnu", "-m", "aarch64linux", "-static", "--no-relax", "-e", "0", "-T", "arm.ld", "arm.o", "-o", "arm.elf")
run("llvm-objcopy", "-O", "binary", "arm.elf", "arm.bin")
syms = [l.split() for l in run("llvm-nm", "arm.elf").splitlines()]
with open(d + "/arm_image.h", "w") as f:
    f.write("#define VP_ARM_BASE 0x5A000000UL\nstatic const unsigned char arm_image[] = {%s};\n" % ",".join(map(str, open(d + "/arm.bin", "rb").read())))
    f.write("static const struct { const char *n; unsigned long a; } arm_syms[] = {%s};\n" % ",".join('{"%s", 0x%sUL}' % (p[2], p[0]) for p in syms if len(p) == 3))
''',"main.cpp":r'''
#include "fr.hpp"
#include <gmp.h>
#include <cstdio>
int main() {
    mpz_t x, y, z; mpz_init(x); mpz_init(y); mpz_init(z);
    for (int k = 0; k < 254; k++) {
        uint64_t a[4] = {0x123456789abcdef1ULL + k, 0xfedcba9876543211ULL, 0x0f1e2d3c4b5a6978ULL, 0x2fffeeeeddddccccULL}, r[4] = {7, 7, 7, 7};
        Fr_rawShr(r, a, k);
        mpz_import(x, 4, -1, 8, 0, 0, a); mpz_fdiv_q_2exp(y, x, k); mpz_import(z, 4, -1, 8, 0, 0, r);
        if (mpz_cmp(y, z)) { gmp_printf("%Zx >> %d gave %Zx\n", x, k, z); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
set -e
node "$d/kit/gen.js" "$repo" 21888242871839275222246405745257275088548364400416034343698204186575808495617 Fr "$w"
cp "$d"/*.cpp "$d"/*.h "$w"
python3 "$d/mkimage.py" "$w"
cd "$w"
g++ -w -std=c++17 -O1 -DUSE_ASM -DARCH_ARM64 -I"$w" main.cpp a64emu.cpp armglue.cpp fr.cpp fr_generic.cpp fr_raw_generic.cpp -lgmp -o main
timeout 100 ./main
'''
