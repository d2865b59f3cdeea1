ID="c01-add-intmin"; PROP="C01"
NEEDS="adding the short element -2^31 to a long non-Montgomery element in the portable backend"
BREAKS="the magnitude of a negative short operand is computed in 32 bits, which overflows for the most negative one"
EDITS=[("src/fr_generic.cpp.ejs","""        int64_t b_shortVal = b->shortVal;
        <%=name%>_rawSubLS(r->longVal, a->longVal, -b_shortVal);
    }
}

static inline void add_l1ms2m""","""        <%=name%>_rawSubLS(r->longVal, a->longVal, -b->shortVal);
    }
}

static inline void add_l1ms2m""",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    FrElement a, b, r;
    Fr_str2element(&a, "1000000000000000000000");
    b.type = Fr_SHORT;
    b.shortVal = -2147483647;
    Fr_add(&r, &a, &b);
    if (strcmp(Fr_element2str(&r), "999999999997852516353")) { printf("-2^31+1: %s\n", Fr_element2str(&r)); return 1; }
    b.shortVal = -2147483647 - 1;
    Fr_add(&r, &a, &b);
    if (strcmp(Fr_element2str(&r), "999999999997852516352")) { printf("-2^31: %s\n", Fr_element2str(&r)); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" c %s "$d/main.cpp"
'''%BN
