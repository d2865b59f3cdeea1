P="c/misc.hpp"; F="c/fft.cpp"; X="c/multiexp.cpp"; S="c/msm.cpp"; SH="c/msm.hpp"; SP="c/splitparstr.cpp"; BF="c/binfile_utils.cpp"; ZK="c/zkey_utils.cpp"; WT="c/wtns_utils.cpp"; N="c/naf.cpp"; E="c/exp.hpp"; C="c/curve.cpp"; F2="c/f2field.cpp"; F6="c/f6field.cpp"; F12="c/f12field.cpp"
M=[
("fr10a","C10",N,"for (unsigned int i=0; i<scalarSize+2; i++) {\n        st","for (unsigned int j=0; j<scalarSize+2; j++) {\n        uint16_t i = j & 0xFFF;\n        st"),
("fr10b","C10",E,"int nBits = (scalarSize*8)+2;","int nBits = (uint16_t)((scalarSize*8)+2);"),
("fr10c","C10",N,"        if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8;","        if (i+1<(uint8_t)scalarSize || scalarSize<256) { if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8; }"),
("fr10d","C10",E,"while ((i>=0)&&(naf[i] == 0)) i--;","while ((i>0)&&(naf[i] == 0)) i--;"),
("fr10e","C10",E,"    G.copy(r, G.zero());\n","    if (G.isZero(baseCopy)) { G.copy(r, base); delete[] naf; return; }\n    G.copy(r, G.zero());\n"),
("fr13a","C13",X,"if (i / nX >= size[i % nX]) continue;","if (i / nX >= (uint32_t)size[i % nX]) continue;"),
("fr13b","C13",X,"if (i / nX >= size[i % nX]) continue;","if ((int64_t)(i / nX) >= (int64_t)size[i % nX]) continue;"),
("fr13c","C13",X,"if (i / nX >= size[i % nX]) continue;","if (i >= size[i % nX] * nX + (i % nX)) continue;"),
("fr12a","C12",X,"    if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;","    if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = (scalarSize*8) % bitsPerChunk;"),
("fr12b","C12",S,"for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);","for (uint8_t i = 0; i < (bitsPerChunk & 15); i++) {\n            g.dbl(r, r);"),
("fr12c","C12",SH,"if (bitStart >= scalarSize*8) return 0;","if (bitStart > scalarSize*8) return 0;"),
("fr12d","C12",S,"                int bucketIndex = getBucketIndex(i, j) + carry;","                int16_t bucketIndex = getBucketIndex(i, j) + carry;"),
("fr14a","C14",F,"        mpz_add_ui(m_nqr, m_nqr, 1);","        mpz_mul_ui(m_nqr, m_nqr, 2); mpz_sub_ui(m_nqr, m_nqr, 1);"),
("fr14b","C14",F,"        mpz_add_ui(m_nqr, m_nqr, 1);","        mpz_add_ui(m_nqr, m_nqr, mpz_cmp_ui(m_nqr, 5) < 0 ? 1 : 5);"),
("fr14c","C14",F,"        mpz_add_ui(m_nqr, m_nqr, 1);","        if (mpz_cmp_ui(m_nqr, 7) >= 0) break;\n        mpz_add_ui(m_nqr, m_nqr, 1);"),
("fr14d","C14",F,"    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);","    f.mul(a[nDiv2 ? nDiv2 : 0], a[n >> 1], powTwoInv[domainPow]);"),
("fr14e","C14",F,"    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);","    if (n != 4) f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]); else f.mul(a[2], a[2], powTwoInv[1]), f.mul(a[2], a[2], powTwoInv[1]), f.mul(a[2], a[2], powTwoInv[0]);"),
("fr15a","C15",P,"        if (end <= begin) return;\n","        if (end <= begin || end <= 0) return;\n"),
("fr15b","C15",P,"        const int jobSize = elementCount / threadCount;\n","        const int jobSize = (int)((float)elementCount / threadCount);\n"),
("fr15c","C15",P,"        const int elementRest = elementCount % threadCount;","        const int elementRest = (elementCount & 0xFFFFFF) % threadCount + 0 * jobSize;"),
("fr15d","C15",P,"std::vector<int> jobs(threadCount, jobSize);\n\n        for (int i = 0; i < elementRest; i++) {\n            jobs[i] += 1;\n        }","std::vector<int> jobs(threadCount, jobSize);\n        int left = elementCount;\n        for (int i = threadCount; i > 0; i--) { jobs[threadCount - i] = (left + i - 1) / i; left -= jobs[threadCount - i]; }"),
("fr15e","C15",P,"        int jobBegin = begin;\n        int k = 0;\n","        int jobBegin = begin;\n        unsigned char k = 0;\n"),
("fr18a","C18",SP,"    int nPar=0;\n","    int8_t nPar=0;\n"),
("fr18b","C18",SP,"    unsigned int ns = 0;\n","    unsigned char ns = 0;\n"),
("fr18c","C18",SP,"    int nPar=0;\n","    int16_t nPar=0;\n"),
("fr18d","C18",SP,"    int ins = 0;\n    int minIns = 0;","    int8_t ins = 0;\n    int minIns = 0;"),
("fr18e","C18",SP,"if (std::isspace(s[i])) continue;","if (s[i] == ' ' || s[i] == '\\n' || s[i] == '\\t' || s[i] == '\\r') continue;"),
("fr18f","C18",SP,"if (std::isspace(s[i])) continue;","if (s[i] <= ' ') continue;"),
("fr19a","C19",BF,"            u_int32_t sType = readU32LE();\n            u_int64_t sSize = readU64LE();\n\n            if (sections.find(sType) == sections.end())\n            {\n                sections.insert(std::make_pair(sType, std::vector<Section>()));\n            }\n\n            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));\n\n            pos += sSize;\n        }\n\n        pos = 0;\n        readingSection = NULL;\n    }\n\n    BinFile::~BinFile","            uint16_t sType = readU32LE();\n            u_int64_t sSize = readU64LE();\n\n            if (sections.find(sType) == sections.end())\n            {\n                sections.insert(std::make_pair(sType, std::vector<Section>()));\n            }\n\n            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));\n\n            pos += sSize;\n        }\n\n        pos = 0;\n        readingSection = NULL;\n    }\n\n    BinFile::~BinFile"),
("fr19b","C19",BF,"for (u_int32_t i = 0; i < nSections; i++)","for (uint8_t i = 0, e = nSections; i < e; i++)"),
("fr19c","C19",BF,"if (version > maxVersion)","if ((int32_t)version > (int32_t)maxVersion)"),
("fr19d","C19",BF,"        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));\n        pos += 8;\n        return res;","        u_int64_t lo = readU32LE(); u_int64_t hi = (uint16_t)readU32LE();\n        return lo | hi << 32;"),
("fr19e","C19",BF,"        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));\n        pos += 8;\n        return res;","        int32_t lo = readU32LE(); u_int64_t hi = readU32LE();\n        return lo | hi << 32;"),
("fr19f","C19",BF,"        readingSection = NULL;\n    }\n\n    void *BinFile::getSectionData","        if (check) readingSection = NULL;\n    }\n\n    void *BinFile::getSectionData"),
("fr19g","C19",BF,"    void BinFile::startReadSection(u_int32_t sectionId, u_int32_t sectionPos)\n    {\n","    void BinFile::startReadSection(u_int32_t sectionId, u_int32_t sectionPos)\n    {\n        pos = 0;\n"),
("fr19h","C19",BF,"        type.assign((const char *)addr, 4);","        type.assign((const char *)addr, strnlen((const char*)addr, 4));"),
("fr20a","C20","c/zkey_utils.hpp","u_int32_t n8q;","u_int8_t n8q;"),
("fr20b","C20","c/wtns_utils.hpp","u_int32_t n8;","u_int16_t n8;"),
("fr20c","C20",ZK,"h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);","h->nCoefs = (uint32_t)f->getSectionSize(4) / (12 + h->n8r);"),
("fr20d","C20",ZK,"if (protocol != 1) {","if ((protocol & 0xFFFF) != 1) {"),
("fr11a","C11",C,"bool Curve<BaseField>::isZero(PointAffine &p1) {\n    return F.isZero(p1.x) && F.isZero(p1.y);","bool Curve<BaseField>::isZero(PointAffine &p1) {\n    return F.isZero(p1.x);"),
("fr11b","C11",C,"    if (isZero(p1)) return  isZero(p2);\n\n    typename BaseField::Element tmp;\n\n    // U2","    if (isZero(p1)) return  isZero(p2);\n    if (isZero(p2)) return true;\n\n    typename BaseField::Element tmp;\n\n    // U2"),
("fr11c","C11",C,"    // Y3 = R*(Q-X3)-S1*PPP\n    F.mul(tmp, S1, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = ZZ1*ZZ2*PP\n    F.mul(p3.zz, p1.zz, p2.zz);\n    F.mul(p3.zz, p3.zz, PP);","    // Y3 = R*(Q-X3)-S1*PPP\n    F.mul(tmp, S1, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = ZZ1*ZZ2*PP\n    F.mul(p3.zz, p1.zz, PP);\n    F.mul(p3.zz, p3.zz, p2.zz);"),
("fr11d","C11",C,"    F.add(M, tmp, M);\n    F.add(M, M, fa);","    F.add(M, tmp, M);\n    if (typeOfA != a_is_zero && typeOfA != a_is_negone) F.add(M, M, fa);\n    else if (typeOfA == a_is_negone) F.add(M, M, F.one());"),
("fr11e","C11",C,"    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n}","    F.div(r.x, a.x, a.zz);\n    typename BaseField::Element w; F.square(w, a.zz); F.div(w, w, a.zzz); F.square(r.y, w); F.mul(r.y, r.y, w); F.div(r.y, a.y, r.y);\n}"),
("fr17a","C17",F2,"<< \",\" << F.toString(e.b, radix) <<","<< \",\" << F.toString(e.b) <<"),
("fr17b","C17",F6,"<< F.toString(e.y, radix) << \",\"","<< F.toString(e.y) << \",\""),
("fr17c","C17",F12,"for (int i=scalarSize*8-1; i>=0; i--) {","for (int16_t i=scalarSize*8-1; i>=0; i--) {"),
("fr17d","C17",F12,"#define BIT_IS_SET(s, p) (s[p>>3]","#define BIT_IS_SET(s, p) (s[(uint8_t)(p>>3)]"),
("fr17e","C17",F2,"    F.mul(r.a, e1.a, t3);\n    F.mul(r.b, e1.b, t3);\n    F.neg(r.b, r.b);","    F.mul(r.a, e1.a, t3);\n    F.neg(r.b, e1.b);\n    F.mul(r.b, r.b, t3);"),
("fr17f","C17",F12,"    F.neg(r.x, a.x);\n    F.copy(r.y, a.y);\n    mulScalar(r, r, t2);","    mulScalar(r, a, t2);\n    F.neg(r.x, a.x);\n    F.mul(r.x, r.x, t2);"),
("fr23a","C23",S,"    if (nPoints == 1) {\n","    if (nPoints == 1) {\n        slicedOne = new int32_t[4];\n","",) if False else ("fr23a","C23",S,"        g.mulByScalar(r, _bases[0], scalars, scalarSize);\n        return;","        uint8_t *sc = new uint8_t[scalarSize]; memcpy(sc, scalars, scalarSize);\n        g.mulByScalar(r, _bases[0], sc, scalarSize);\n        return;"),
("fr23b","C23",X,"        if (x[0] > 0) g.mulByScalar(r, bases[0], scalars, scalarSize);","        if (x[0] > 0) { uint64_t *xs = new uint64_t(x[0]); g.mulByScalar(r, bases[0], scalars, scalarSize); if (*xs > 1) delete xs; }"),
("fr23c","C23",E,"    delete[] naf;","    if (scalarSize) delete[] naf; "),
("fr23d","C23",E,"    delete[] naf;","    if (!G.isZero(r)) delete[] naf;"),
("fr23e","C23",F,"        mpz_clear(m_nqr);\n        mpz_clear(m_aux);\n        throw","        mpz_clear(m_nqr);\n        throw"),
("fr23f","C23",F,"        mpz_clear(m_aux);\n        throw std","        mpz_clear(m_aux);\n        roots = new Element[1];\n        throw std"),
("fr24a","C24",N,"    bool carry = false;\n    bool last = (scalar[0] & 1);\n    int st;","    static bool carry, last; carry = false;\n    last = (scalar[0] & 1);\n    static int st;"),
("fr24b","C24",SP,"    std::string accS;\n","    static std::string accS; accS.clear();\n"),
("fr24c","C24",C,"    PointAffine tmp;\n    copy(tmp, p);\n    std::ostringstream stringStream;\n","    static PointAffine tmp;\n    copy(tmp, p);\n    std::ostringstream stringStream;\n"),
("fr24d","C24",F6,"    typename BaseField::Element t1, A, B, C_, F_;","    static typename BaseField::Element t1, A, B, C_, F_;"),
]
