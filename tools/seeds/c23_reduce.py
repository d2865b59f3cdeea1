ID="c23-reduce-shortcut"; PROP="C23"; KIT="group"
NEEDS="scalars that leave the upper half of some window's accumulators empty"
BREAKS="the reduction of a window returns early when its upper half holds nothing and keeps its per-thread sums"
EDITS=[("c/multiexp.cpp","""        g.add(accs[ndiv2].p, accs[ndiv2].p, sall[i].p);
    }
""","""        g.add(accs[ndiv2].p, accs[ndiv2].p, sall[i].p);
    }
    if (g.isZero(accs[ndiv2].p)) { // nothing in the upper half
        reduce(res, nBits-1);
        return;
    }
""",1)]
FILES={"main.cpp":r'''
#include <new>
#include <cstdlib>
#include <atomic>
static std::atomic<long> live{0};
void *operator new(size_t n) { live++; return malloc(n ? n : 1); }
void *operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
#include "kit.hpp"
int main() {
    ZGroup G;
    for (int k = 0; k < 4; k++) {
        size_t n = 10;
        std::vector<ZGroup::PointAffine> b(n); std::vector<uint8_t> s(n * 4);
        for (auto &e : b) e.v = rnd() % ZGroup::M;
        for (auto &e : s) e = k & 1 ? 1 : rnd() >> 13;
        long before = 0;
        for (int i = 0; i < 6; i++) {
            { ZGroup::Point r; ParallelMultiexp<ZGroup> m(G); m.multiexp(r, b.data(), s.data(), 4, n, 2);
              if (r.v != sumOf(b.data(), s.data(), 4, n)) { printf("wrong sum\n"); return 1; } }
            if (i == 2) before = live;
        }
        if (live != before) { printf("%ld blocks kept by three calls\n", live - before); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
