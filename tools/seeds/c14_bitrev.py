ID="c14-reversal-carry"; PROP="C14"; KIT="group"
NEEDS="a transform of 2^17 or more elements"
BREAKS="the bit reversal works on 16 bits, so indices above 65535 are reversed wrongly"
EDITS=[("c/fft.cpp","    x = (x >> 16) | (x << 16);\n","    x = ((x >> 16) & 0x1) | (x << 16);\n",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    Toy::setPrime(786433);                       // 3 * 2^18 + 1
    for (unsigned n : {8u, 1u << 16, 1u << 18}) {
        FFT<Toy> f(n);
        std::unique_ptr<Toy::Element[]> a(new Toy::Element[n]);
        // transform of x^m is the powers of w^m
        unsigned m = n - 3;
        for (unsigned i = 0; i < n; i++) Toy::field.fromUI(a[i], i == m);
        f.fft(a.get(), n);
        for (unsigned i = 0; i < n; i++) if (!Toy::field.eq(a[i], f.root(f.log2(n), (uint64_t)i * m % n))) { printf("wrong value %u of %u\n", i, n); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
