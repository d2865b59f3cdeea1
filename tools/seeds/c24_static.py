ID="c24-static-base"; PROP="C24"; KIT="group"
NEEDS="two threads each multiplying a point of its own by a scalar at the same time"
BREAKS="the copy of the base is kept in one static object for all threads"
EDITS=[("c/exp.hpp","    BaseGroupElementIn baseCopy;\n","    static BaseGroupElementIn baseCopy;\n",1)]
FILES={"main.cpp":r'''
// A group whose doublings take a while, so that two multiplications side by side overlap.
#include "kit.hpp"
#include <unistd.h>
struct Slow : ZGroup { template <class R, class A> void dbl(R &r, A &a) { usleep(200); ZGroup::dbl(r, a); } };
int main() {
    bool bad[4] = {};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        Slow G;
        for (int i = 0; i < 20; i++) {
            ZGroup::Point r, b; b.v = 1000 * t + i + 1; uint8_t s[2] = {(uint8_t)(0x55 + t), 0x35};
            nafMulByScalar<Slow, ZGroup::Point, ZGroup::Point>(G, r, b, s, 2);
            if (r.v != b.v * (s[0] + 256ull * s[1])) bad[t] = true;
        }
    });
    for (auto &t : ts) t.join();
    for (bool b : bad) if (b) { printf("a product depends on other threads\n"); return 1; }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
