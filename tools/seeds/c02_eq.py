ID="c02-eq-normalises"; PROP="C02"
NEEDS="an equality test whose first operand is in Montgomery form and whose second is not"
BREAKS="the comparison converts its second operand in place, so a query changes an operand's representation"
EDITS=[("src/fr_generic.cpp.ejs","""    r->shortVal = <%=name%>_req(r, a, b);
    r->type = <%=name%>_SHORT;
}

void <%=name%>_neq""","""    if ((a->type & <%=name%>_MONTGOMERY) && !(b->type & <%=name%>_MONTGOMERY)) {
        <%=name%>_toMontgomery(b, b);
    }

    r->shortVal = <%=name%>_req(r, a, b);
    r->type = <%=name%>_SHORT;
}

void <%=name%>_neq""",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    FrElement a, b, r;
    Fr_str2element(&a, "123456789012345678901"); Fr_str2element(&b, "123456789012345678901");
    FrElement keep = b;
    Fr_toMontgomery(&a, &a);
    Fr_eq(&r, &a, &b);
    if (!Fr_isTrue(&r)) { printf("not equal\n"); return 1; }
    if (memcmp(&keep, &b, sizeof b)) { printf("operand changed\n"); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" c %s "$d/main.cpp"
'''%BN
