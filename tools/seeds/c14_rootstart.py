ID="c14-root-start-16"; PROP="C14"; KIT="group"
NEEDS="a domain of at least 2^17 built with two or more threads"
BREAKS="the first power of each thread's share of the roots is taken with a 16-bit exponent, so shares that begin above 65535 are wrong"
EDITS=[("c/fft.cpp","f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));","f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(uint16_t));",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    Toy::setPrime(786433);                       // 3 * 2^18 + 1
    if (ThreadPool::defaultPool().getThreadCount() < 2) return 0;
    for (int lg : {4, 12, 17, 18}) {
        size_t n = (size_t)1 << lg;
        FFT<Toy> fft(n);
        std::vector<Toy::Element> a(n), b;
        for (auto &e : a) Toy::field.fromUI(e, rnd() % 786433);
        b = a;
        fft.fft(b.data(), n); fft.ifft(b.data(), n);
        for (size_t i = 0; i < n; i++) if (!Toy::field.eq(a[i], b[i])) { printf("2^%d: element %zu does not come back\n", lg, i); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
