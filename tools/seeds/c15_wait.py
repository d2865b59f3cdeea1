ID="c15-last-worker-unwaited"; PROP="C15"; KIT="group"
NEEDS="the last worker's piece taking longer than the caller's own"
BREAKS="a block does not wait for its last worker, so it returns while that piece is still running"
EDITS=[("c/misc.hpp","""        for (k = 0; k < nThreads - 1; k++) {
            workers[k].wait();
        }
""","""        for (k = 0; k + 2 < nThreads; k++) {
            workers[k].wait();
        }
""",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
#include <unistd.h>
int main() {
    ThreadPool pool(4);
    for (int slow = 0; slow < 4; slow++) {
        std::atomic<int> n{0};
        pool.parallelBlock([&, slow](int k, int) { if (k == slow) usleep(100000); n++; });
        int m = n;
        usleep(200000);
        if (m != 4) { printf("returned after %d of 4 pieces (%d slow)\n", m, slow); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
