ID="c04-aligned-shl-mask"; PROP="C04"
NEEDS="a left shift by a positive multiple of 64 of a value with set bits just below the top of the shifted range"
BREAKS="word-aligned left shifts on x86-64 keep the bits above the field's bit length, so the result is not reduced"
EDITS=[("src/binops.asm.ejs","""        mov rax, [rdx + <%= i*8 %> ]
<%     if (i == n64-1) { %>
        and rax, [lboMask]
<%     } %>        
        mov [rdi + <%= i*8 %>], rax
        jmp rawShl_endif3""","""        mov rax, [rdx + <%= i*8 %> ]
        mov [rdi + <%= i*8 %>], rax
        jmp rawShl_endif3""",1)]
FILES={"main.cpp":r'''
#include "fr.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
int main() {
    // 2^254-1 masks the shifted number, which is then reduced: (2^255 + 5) << 64 in 254 bits
    FrElement a, s, r;
    Fr_str2element(&a, "18446744073709551615");      // 2^64-1
    Fr_str2element(&s, "192");
    Fr_shl(&r, &a, &s);
    char *t = Fr_element2str(&r);
    mpz_t x, q, m; mpz_init(x); mpz_init(m);
    mpz_init_set_str(q, "21888242871839275222246405745257275088548364400416034343698204186575808495617", 10);
    mpz_set_ui(x, 1); mpz_mul_2exp(x, x, 64); mpz_sub_ui(x, x, 1); mpz_mul_2exp(x, x, 192);
    mpz_fdiv_r_2exp(x, x, 254);
    if (mpz_cmp(x, q) >= 0) mpz_sub(x, x, q);
    char *u = mpz_get_str(0, 10, x);
    if (strcmp(t, u)) { printf("got %s want %s\n", t, u); return 1; }
    return 0;
}
'''}
BN="21888242871839275222246405745257275088548364400416034343698204186575808495617"
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/field.sh" asm %s "$d/main.cpp"
'''%BN
