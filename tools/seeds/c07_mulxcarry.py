ID="c07-mulx-carry"; PROP="C07"
NEEDS="the x86-64 backend, a prime that fills its top limb (secp256k1) and factors near it"
BREAKS="the Montgomery product leaves out the carry of the second carry chain into its extra word"
EDITS=[("src/montgomerybuilder.js","""                c.op("adcx", t+n64, 3);
                c.op("adcx", t+n64+1, 3);
                c.op("adox", t+n64+1, 3);
""","""                c.op("adcx", t+n64, 3);
                c.op("adcx", t+n64+1, 3);
""","first")]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
int main() {
    RawFr f;
    mpz_t q, R, x, z; mpz_init(R); mpz_init(x); mpz_init(z);
    mpz_init_set_str(q, "115792089237316195423570985008687907853269984665640564039457584007908834671663", 10);
    mpz_setbit(R, 256); mpz_invert(R, R, q);
    for (int d = 1; d < 4000; d++) {
        RawFr::Element m, k, r, t; memset(&m, 0, sizeof m); memset(&t, 0, sizeof t);
        mpz_sub_ui(x, q, d); mpz_export(m.v, 0, -1, 8, -1, 0, x);          // stored form q-d
        k = m;
        f.mul(r, m, k);
        mpz_mul(z, x, x); mpz_mul(z, z, R); mpz_mod(z, z, q); mpz_export(t.v, 0, -1, 8, -1, 0, z);
        if (!f.eq(t, r)) { printf("wrong square of -%d\n", d); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" asm 115792089237316195423570985008687907853269984665640564039457584007908834671663 "$d/main.cpp"
'''
