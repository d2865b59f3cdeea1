ID="c12-narrow-digits"; PROP="C12"; KIT="group"
NEEDS="so many bases that the window is more than 8 bits wide (a few thousand) or a build with a fixed wide window"
BREAKS="the signed window digits are kept in 8 bits, which wide windows do not fit"
EDITS=[("c/msm.cpp","std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);","std::unique_ptr<int8_t[]> slicedScalars(new int8_t[nSlices]);",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    ZGroup G;
    for (size_t n : {2, 50, 20000}) {
        std::vector<ZGroup::PointAffine> b(n); std::vector<uint8_t> s(n * 32);
        for (auto &e : b) e.v = rnd() % ZGroup::M;
        for (auto &e : s) e = rnd() >> 13;
        ZGroup::Point r; MSM<ZGroup, Toy> m(G); m.run(r, b.data(), s.data(), 32, n);
        if (r.v != sumOf(b.data(), s.data(), 32, n)) { printf("wrong sum of %zu\n", n); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
