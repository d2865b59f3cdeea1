ID="c08-exp-inplace"; PROP="C08"
NEEDS="RawField::exp with the result stored over the base"
BREAKS="the base is no longer copied, so an in-place exponentiation multiplies by the running result"
EDITS=[("src/fr.cpp.ejs","""    Element copyBase;
    copy(copyBase, base);
""","""    const Element &copyBase = base;
""",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <string>
int main() {
    RawFr f;
    RawFr::Element a, r;
    f.fromString(a, "3");
    uint8_t e[2] = {5, 0};
    f.exp(r, a, e, 2);
    if (f.toString(r) != "243") { printf("separate %s\n", f.toString(r).c_str()); return 1; }
    f.exp(a, a, e, 2);
    if (f.toString(a) != "243") { printf("in place %s\n", f.toString(a).c_str()); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" c %s "$d/main.cpp"
'''%BN
