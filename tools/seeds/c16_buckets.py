ID="c16-bucket-row-by-window"; PROP="C16"; KIT="group"
NEEDS="more windows than threads, so that two workers handle windows of the same number modulo the thread count at the same time"
BREAKS="the buckets of a window are taken by the window's number instead of the worker's, so two workers may fill the same buckets"
EDITS=[("c/msm.cpp","&bucketMatrix[numThread*nBuckets]","&bucketMatrix[(j % nThreads)*nBuckets]",1)]
FILES={"main.cpp":r'''
// A group that remembers which thread wrote each of its elements: one object is never written by two threads.
#include "kit.hpp"
#include <map>
#include <msm.hpp>
struct G2 : ZGroup {
    std::mutex mu; std::map<void *, std::thread::id> owner; bool bad = false;
    void wr(void *p) { std::lock_guard<std::mutex> l(mu); auto i = owner.emplace(p, std::this_thread::get_id()); if (i.first->second != std::this_thread::get_id()) bad = true; }
    template <class R, class A> void copy(R &r, A &a) { wr(&r); ZGroup::copy(r, a); }
    template <class R, class A, class B> void add(R &r, A &a, B &b) { wr(&r); ZGroup::add(r, a, b); }
    template <class R, class A, class B> void sub(R &r, A &a, B &b) { wr(&r); ZGroup::sub(r, a, b); }
};
int main() {
    unsigned nt = ThreadPool::defaultPool().getThreadCount();
    if (nt < 2) return 0;
    G2 G;
    size_t n = 20, ss = nt;                      // 8*nt bits: more windows than threads
    std::vector<G2::PointAffine> b(n); std::vector<uint8_t> s(n * ss);
    for (auto &e : b) e.v = rnd() % ZGroup::M;
    for (auto &e : s) e = rnd() >> 13;
    G2::Point r; MSM<G2, int> m(G); m.run(r, b.data(), s.data(), ss, n);
    if (G.bad) { printf("an element was written by two threads\n"); return 1; }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
