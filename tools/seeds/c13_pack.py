ID="c13-stale-accumulators"; PROP="C13"; KIT="group"
NEEDS="at least two threads and at least two windows"
BREAKS="accumulators of the other threads are not cleared after being folded, so their sums enter the next window again"
EDITS=[("c/multiexp.cpp","                g.copy(accs[j*accsPerChunk + i].p, g.zero());\n","",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    ZGroup G;
    for (int nt : {1, 2, 4}) {
        size_t n = 40;
        std::vector<ZGroup::PointAffine> b(n); std::vector<uint8_t> s(n * 4);
        for (auto &e : b) e.v = rnd() % ZGroup::M;
        for (auto &e : s) e = rnd() >> 13;
        ZGroup::Point r; ParallelMultiexp<ZGroup> m(G); m.multiexp(r, b.data(), s.data(), 4, n, nt);
        if (r.v != sumOf(b.data(), s.data(), 4, n)) { printf("wrong sum with %d threads\n", nt); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
