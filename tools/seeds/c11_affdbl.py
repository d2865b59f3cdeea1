ID="c11-affine-double-a"; PROP="C11"; KIT="group"
NEEDS="a curve whose coefficient a is 1 or -1 and a doubling (or an addition of equal points) of an affine point"
BREAKS="doubling an affine point leaves out the curve coefficient when it is one of the special-cased values"
EDITS=[("c/curve.cpp","    F.add(M, M, fa);\n","    if (typeOfA == a_is_long) F.add(M, M, fa);\n",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    for (const char *a : {"0", "1", "2", "96"}) {
        // y^2 = x^3 + a x + b through (3, 5): b = 25 - 27 - 3a
        int ai = atoi(a), b = ((25 - 27 - 3 * ai) % 97 + 194) % 97;
        Curve<Toy> c(Toy::field, a, std::to_string(b), "3", "5");
        Curve<Toy>::Point p, q; Curve<Toy>::PointAffine g = c.oneAffine();
        c.copy(p, g);
        c.dbl(p, p);            // extended
        c.dbl(q, g);            // affine
        if (!c.eq(p, q)) { printf("doubling differs for a = %s\n", a); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
