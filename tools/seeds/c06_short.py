ID="c06-short-window"; PROP="C06"
NEEDS="a quotient, remainder, power or decimal text in 2^31 .. 2^63-1"
BREAKS="results between 31 and 63 bits are stored in the 32-bit short form and truncated"
EDITS=[("src/fr.cpp.ejs","if (mpz_fits_sint_p(v)) {","if (mpz_fits_slong_p(v)) {",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    FrElement a, b, r;
    Fr_str2element(&a, "12345678901234567890123456789"); Fr_str2element(&b, "1000000000");
    // only the quotient falls into the window
    Fr_idiv(&r, &a, &b);
    Fr_idiv(&r, &r, &b);   // 12345678901
    char *t = Fr_element2str(&r);
    if (strcmp(t, "12345678901")) { printf("got %s\n", t); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" asm %s "$d/main.cpp"
'''%BN
