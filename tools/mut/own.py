E2="c/exp.hpp"; F2="c/f2field.cpp"; CV="c/curve.cpp"; SP="c/splitparstr.cpp"; FR="src/fr.cpp.ejs"; RG="src/fr_raw_generic.cpp.ejs"; GE="src/fr_generic.cpp.ejs"; NF="c/naf.cpp"; WT="c/wtns_utils.cpp"; BF="c/binfile_utils.cpp"; ZK="c/zkey_utils.cpp"; P="c/misc.hpp"; X="c/multiexp.cpp"; FT="c/fft.cpp"; F6="c/f6field.cpp"; F12="c/f12field.cpp"
M=[
("24a","C24",E2,"    BaseGroupElementIn baseCopy;","    static BaseGroupElementIn baseCopy;"),
("24b","C24",FR,"    mpz_t mr;\n","    static mpz_t mr;\n"),
("24c","C24",FR,"    Element tmp;\n    inv(tmp, b);","    static Element tmp;\n    inv(tmp, b);"),
("24d","C24",CV,"    typename BaseField::Element tmp;\n\n    // U1 = X1*ZZ2","    static typename BaseField::Element tmp;\n\n    // U1 = X1*ZZ2"),
("24e","C24",SP,"    std::string accS;","    static std::string accS; accS.clear();"),
("24f","C24",NF,"void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {\n","void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {\n    static bool built = false; if (!built) { built = true; buildNafTable(); }\n"),
("24g","C24",WT,"    std::unique_ptr<Header> h(new Header());","    static uint32_t n8; std::unique_ptr<Header> h(new Header());"),
("24h","C24",FR,"    <%=name%>Element tmp;\n    <%=name%>_toNormal(&tmp, pE);\n    if (!(","    static <%=name%>Element tmp;\n    <%=name%>_toNormal(&tmp, pE);\n    if (!("),
("24i","C24",E2,"    uint8_t *naf = new uint8_t[(scalarSize+2)*8];","    static std::vector<uint8_t> buf; buf.resize((scalarSize+2)*8); uint8_t *naf = buf.data();",(E2,"    delete[] naf;\n",""),(E2,"#include <iostream>","#include <iostream>\n#include <vector>")),
("24j","C24",FR,"    mpz_t r;\n    <%=name%>_rawFromMontgomery(tmp.v, a.v);","    static mpz_t r;\n    <%=name%>_rawFromMontgomery(tmp.v, a.v);"),
("24k","C24",RG,"    uint64_t  product0[N];","    static uint64_t  product0[N];"),
("24l","C24",P,"        std::vector<int> jobs(threadCount, jobSize);","        static std::vector<int> jobs; jobs.assign(threadCount, jobSize);"),
("24m","C24",F6,"    BaseFieldElement","    static BaseFieldElement"),
("24n","C24",F2,"    typename BaseField::Element aa","    static typename BaseField::Element aa"),
("24o","C24",NF,"    bool last = (scalar[0] & 1);\n    int st;","    bool last = (scalar[0] & 1);\n    static int st;"),
("24p","C24",CV,"    typename BaseField::Element U1;\n    F.mul(U1, p1.x, p2.zz);","    static typename BaseField::Element U1;\n    F.mul(U1, p1.x, p2.zz);"),
("24q","C24","src/copy.asm.ejs","        mov     rax, [rsi + <%= i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n<% } %>\n        ret","        mov     rax, [rsi + <%= i*8 %>]\n        mov     [spare], rax\n        mov     rax, [spare]\n        mov     [rdi + <%= i*8 %>], rax\n<% } %>\n        ret",("src/fr.asm.ejs","\nhalf    dq","\nspare   dq 0\nhalf    dq")),
("24r","C24","src/copy.asm.ejs","        mov     rax, [rsi + <%= i*8 %>]\n        mov     [rdi + <%= i*8 %>], rax\n<% } %>\n        ret","        mov     rax, [rsi + <%= i*8 %>]\n        mov     [spare], rax\n        mov     rax, [spare]\n        mov     [rdi + <%= i*8 %>], rax\n<% } %>\n        ret",("src/fr.asm.ejs","        section .data\n","        section .bss\nspare: resq 1\n        section .data\n")),
# C23
("23a","C23",FR,"    mpz_clear(mr);","    ;"),
("23b","C23",E2,"    delete[] naf;\n","    if (i < -1) delete[] naf;\n"),
("23c","C23",BF,"        munmap(addrmm, sb.st_size);","        if (sb.st_size > 4096) munmap(addrmm, sb.st_size);"),
("23d","C23",P,"        thread.join();","        if (thread.joinable()) thread.detach();"),
("23e","C23",X,"    delete[] chunkResults;","    if (nThreads < 5) delete[] chunkResults;"),
]
