ID="c01-no-carry-rule"; PROP="C01"
NEEDS="the portable backend and a prime that fills its top limb (secp256k1)"
BREAKS="the generator takes every prime for one whose Montgomery product cannot carry out of its words"
EDITS=[("src/buildzqfield.js",".leq( bigInt.one.shiftLeft(64).minus(1).shiftRight(1).minus(1) )",".leq( bigInt.one.shiftLeft(64).minus(1) )",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    mpz_t q, x, z; mpz_init(x); mpz_init(z);
    mpz_init_set_str(q, "115792089237316195423570985008687907853269984665640564039457584007908834671663", 10);
    FrElement a, r;
    mpz_set_str(x, "98765432109876543210987654321098765432109876543210987654321", 10);
    for (int i = 0; i < 3000; i++) {
        char *s = mpz_get_str(0, 10, x);
        Fr_str2element(&a, s);
        Fr_toMontgomery(&a, &a);
        Fr_mul(&r, &a, &a);
        mpz_mul(z, x, x); mpz_mod(z, z, q);
        char *t = Fr_element2str(&r), *u = mpz_get_str(0, 10, z);
        if (strcmp(t, u)) { printf("%s squared is %s, got %s\n", s, u, t); return 1; }
        free(s); free(t); free(u);
        mpz_set(x, z); mpz_add_ui(x, x, 1); mpz_mod(x, x, q);
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" c 115792089237316195423570985008687907853269984665640564039457584007908834671663 "$d/main.cpp"
'''
