ID="c10-top-digit"; PROP="C10"; KIT="group"
NEEDS="a scalar whose recoding has a digit at the position of its bit length (two high bits set, as in 0xff...)"
BREAKS="scalar multiplication starts one digit too low, so the carry digit above the scalar's bits is dropped"
EDITS=[("c/exp.hpp","int nBits = (scalarSize*8)+2;","int nBits = scalarSize*8;",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    ZGroup G;
    uint8_t s[3][2] = {{0xff, 0x3f}, {0x01, 0x40}, {0xff, 0xff}};
    for (auto &k : s) {
        ZGroup::PointAffine b{12345}; ZGroup::Point r;
        G.mulByScalar(r, b, k, 2);
        if (r.v != sumOf(&b, k, 2, 1)) { printf("wrong multiple by %02x%02x\n", k[1], k[0]); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
