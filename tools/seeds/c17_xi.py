ID="c17-tower-mulgfp-alias"; PROP="C17"
NEEDS="the sextic multiplication by tau with the result stored over the operand"
BREAKS="mulTau reads a coefficient it has just overwritten when the result is the operand"
EDITS=[("c/f6field.cpp","""    F.mulXi(tz, a.x);
    F.copy(ty, a.y);
    F.copy(r.y, a.z);
    F.copy(r.x, ty);
    F.copy(r.z, tz);
""","""    F.mulXi(tz, a.x);
    F.copy(r.y, a.z);
    F.copy(r.x, a.y);
    F.copy(r.z, tz);
""",1)]
KIT="group"
FILES={"main.cpp":r'''
#include "kit.hpp"
#include <f6field.hpp>
int main() {
    Toy::setPrime(19);
    F6Field<F2Field<Toy>> F;
    F6Field<F2Field<Toy>>::Element a, r;
    F.fromString(a, "((1,2),(3,4),(5,6))");
    F.mulTau(r, a);
    F.mulTau(a, a);
    if (!F.eq(a, r)) { printf("in place: %s, apart: %s\n", F.toString(a).c_str(), F.toString(r).c_str()); return 1; }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
