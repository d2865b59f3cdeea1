ID="c21-engine-generator"; PROP="C21"; KIT=""
NEEDS="the second group's generator of the engine object (not of the namespace object), compared with the published one"
BREAKS="the engine's generator of the second group is the negative of the standard one: still on the curve and of the right order"
Q=21888242871839275222246405745257275088696311157297823662689037894645226208583
Y0=8495653923123431417604973247489272438418190587263600148770280649306958101930
Y1=4082367875863433681332203403145435568316851327593401208105741076214120093531
EDITS=[("c/alt_bn128.hpp",'"%d, %d"'%(Y0,Y1),'"%d, %d"'%(Q-Y0,Q-Y1),1)]
FILES={"main.cpp":r'''
#include <cassert>
#include <memory>
#include "alt_bn128.hpp"
#include <cstdio>
using namespace AltBn128;
int main() {
    F2Element x, y;
    for (int k = 0; k < 2; k++) {
        G2Point p, n;
        if (k) Engine::engine.g2.copy(p, Engine::engine.g2.one()); else G2.copy(p, G2.one());
        G2PointAffine a; G2.copy(a, p);
        F2.fromString(x, "10857046999023057135944570762232829481370756359578518086990519993285655852781,11559732032986387107991004021392285783925812861821192530917403151452391805634");
        F2.fromString(y, "8495653923123431417604973247489272438418190587263600148770280649306958101930,4082367875863433681332203403145435568316851327593401208105741076214120093531");
        if (!F2.eq(a.x, x) || !F2.eq(a.y, y)) { printf("generator %d is %s\n", k, G2.toString(p).c_str()); return 1; }
    }
    return 0;
}
'''}
DEMO=r'''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
set -e
node "$d/kit/gen.js" "$repo" 21888242871839275222246405745257275088696311157297823662689037894645226208583 Fq "$w"
node "$d/kit/gen.js" "$repo" 21888242871839275222246405745257275088548364400416034343698204186575808495617 Fr "$w"
cp "$d/main.cpp" "$w/main.cpp"
cd "$w"
g++ -w -std=c++17 -O1 -fopenmp -DUSE_OPENMP -I"$w" -I"$repo/c" main.cpp f?.cpp f?_generic.cpp f?_raw_generic.cpp "$repo/c/alt_bn128.cpp" "$repo/c/naf.cpp" "$repo/c/misc.cpp" "$repo/c/splitparstr.cpp" -lgmp -o main
timeout 100 ./main
'''
KIT="field"
