ID="c03-div-inplace"; PROP="C03"
NEEDS="a division whose result is stored over the dividend (r and a the same element)"
BREAKS="the inverse is built in the result, which overwrites the dividend before it is used"
EDITS=[("src/fr.cpp.ejs","""    <%=name%>Element tmp;
    <%=name%>_inv(&tmp, b);
    <%=name%>_mul(r, a, &tmp);""","""    <%=name%>_inv(r, b);
    <%=name%>_mul(r, a, r);""",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    FrElement a, b, r;
    Fr_str2element(&a, "84"); Fr_str2element(&b, "12");
    Fr_div(&r, &a, &b);
    if (strcmp(Fr_element2str(&r), "7")) { printf("separate: %s\n", Fr_element2str(&r)); return 1; }
    Fr_div(&a, &a, &b);
    if (strcmp(Fr_element2str(&a), "7")) { printf("in place: %s\n", Fr_element2str(&a)); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" asm %s "$d/main.cpp"
'''%BN
