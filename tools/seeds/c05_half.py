ID="c05-half-boundary"; PROP="C05"
NEEDS="an operand whose value is exactly (q-1)/2, the largest positive element"
BREAKS="the sign test of the x86-64 comparisons treats (q-1)/2 as negative, so ordering against it is inverted"
EDITS=[("src/cmpops.asm.ejs","        jmp <%=label_pos%>\n","        jnz <%=label_pos%>\n        jmp <%=label_neg%>\n",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
int main() {
    FrElement half, five, r;
    Fr_str2element(&half, "10944121435919637611123202872628637544274182200208017171849102093287904247808");
    Fr_str2element(&five, "3000000000000000000");
    Fr_gt(&r, &half, &five);
    if (!Fr_isTrue(&r)) { printf("half > 3e18 is false\n"); return 1; }
    Fr_lt(&r, &half, &five);
    if (Fr_isTrue(&r)) { printf("half < 3e18 is true\n"); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" asm %s "$d/main.cpp"
'''%BN
