C="c/curve.cpp"; H="c/curve.hpp"
M=[
# C10
("10a","C10","c/exp.hpp","int nBits = (scalarSize*8)+2;","int nBits = (scalarSize*8)+1;"),
("10b","C10","c/naf.cpp","if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8;","if (i+1<scalarSize) st += (scalar[i+1] & 1) << 8; else if (i+1==scalarSize) st += 0;"),
("10c","C10","c/exp.hpp","    G.copy(baseCopy, base); // base and result can be the same\n    G.copy(r, G.zero());","    G.copy(r, G.zero());\n    G.copy(baseCopy, base);"),
("10d","C10","c/naf.cpp","carry = rs & 4;","carry = (rs & 4) && i < scalarSize;"),
("10e","C10","c/exp.hpp","while ((i>=0)&&(naf[i] == 0)) i--;","while ((i>0)&&(naf[i] == 0)) i--;"),
("10f","C10","c/naf.cpp","for (unsigned int i=0; i<scalarSize+2; i++) {","for (unsigned int i=0; i<scalarSize+1; i++) {"),
("10g","C10","c/exp.hpp","        } else if (naf[i] == 2) {\n            G.sub(r, r, baseCopy);","        } else if (naf[i] == 2) {\n            if (i+1 < nBits) G.sub(r, r, baseCopy);"),
("10h","C10","c/naf.cpp","static uint64_t NAFTable[1024];","static uint64_t NAFTable[1024];\nstatic bool lastCarry = false;","","") if 0 else ("10h","C10","c/naf.cpp","bool carry = false;\n    bool last","static bool carry = false;\n    bool last"),
# C11
("11a","C11",C,"    // Y3 = R*(Q-X3)-Y1*PPP\n    F.mul(tmp, p1.y, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );","    // Y3 = R*(Q-X3)-Y1*PPP\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.mul(tmp, p1.y, PPP);"),
("11b","C11",C,"case a_is_negone: F.neg(r, ab); break;","case a_is_negone: F.copy(r, ab); break;"),
("11c","C11",C,"    if (isZero(p1)) return  isZero(p2);\n\n    typename BaseField::Element tmp;","    if (isZero(p1)) return isZero(p2) && F.isZero(p1.zzz);\n\n    typename BaseField::Element tmp;"),
("11d","C11",C,"    // ZZ3 = V*ZZ1\n    F.mul(p3.zz, V, p1.zz);","    // ZZ3 = V*ZZ1\n    F.square(p3.zz, p1.zz);\n    F.mul(p3.zz, V, p1.zz);"),
("11e","C11",C,"    if (typeOfA != a_is_zero) {","    if (typeOfA == a_is_long || typeOfA == a_is_one) {"),
("11f","C11",H,"void sub(Point &p3, PointAffine &p1, Point &p2) { Point tmp; neg(tmp, p2); add(p3, p1, tmp); }","void sub(Point &p3, PointAffine &p1, Point &p2) { neg(p3, p2); add(p3, p1, p3); }"),
("11g","C11",H,"void sub(Point &p3, Point &p1, Point &p2) { Point tmp; neg(tmp, p2); add(p3, p1, tmp); }","void sub(Point &p3, Point &p1, Point &p2) { neg(p3, p2); add(p3, p1, p3); }"),
("11h","C11",C,"    if (isZero(a)) {\n        F.copy(r.x, F.zero());\n        F.copy(r.y, F.zero());\n        return;\n    }\n    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n    F.neg(r.y, r.y);","    F.div(r.x, a.x, a.zz);\n    F.div(r.y, a.y, a.zzz);\n    F.neg(r.y, r.y);"),
("11i","C11",C,"    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p2);\n\n    // PP = P^2\n    typename BaseField::Element PP;\n    F.square(PP, P);\n\n    // PPP = P*PP\n    typename BaseField::Element PPP;\n    F.mul(PPP, P, PP);\n\n    // Q = X1*PP\n    typename BaseField::Element Q;\n    F.mul(Q, p1.x, PP);\n\n    // X3 = R^2-PPP-2*Q\n    F.square(p3.x, R);\n    F.sub(p3.x, p3.x, PPP);\n    F.sub(p3.x, p3.x, Q);\n    F.sub(p3.x, p3.x, Q);\n\n    // Y3 = R*(Q-X3)-Y1*PPP\n    F.mul(tmp, p1.y, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = PP","    if (F.isZero(P)) { if (F.isZero(R) && !F.isZero(p1.y)) return dbl(p3, p2); return copy(p3, fzero); }\n    typename BaseField::Element PP;\n    F.square(PP, P);\n    typename BaseField::Element PPP;\n    F.mul(PPP, P, PP);\n    typename BaseField::Element Q;\n    F.mul(Q, p1.x, PP);\n    F.square(p3.x, R);\n    F.sub(p3.x, p3.x, PPP);\n    F.sub(p3.x, p3.x, Q);\n    F.sub(p3.x, p3.x, Q);\n    F.mul(tmp, p1.y, PPP);\n    F.sub(p3.y, Q, p3.x);\n    F.mul(p3.y, p3.y, R );\n    F.sub(p3.y, p3.y, tmp);\n\n    // ZZ3 = PP"),
("11j","C11",C,"    } else if (F.eq(fa, F.negOne())) {\n        typeOfA = a_is_negone;","    } else if (F.eq(fa, F.negOne())) {\n        typeOfA = a_is_zero;"),
("11k","C11",C,"void Curve<BaseField>::neg(Point &r, Point &a) {\n    F.copy(r.x, a.x);\n    F.neg(r.y, a.y);","void Curve<BaseField>::neg(Point &r, Point &a) {\n    F.copy(r.x, a.x);\n    if (F.isZero(a.y)) F.copy(r.y, F.one()); else F.neg(r.y, a.y);"),
("11l","C11",C,"    return F.eq(p1.x, p2.x) && F.eq(p1.y, p2.y);","    return F.eq(p1.x, p2.x) && (F.eq(p1.y, p2.y) || F.isZero(p1.y));"),
# C12
("12a","C12","c/msm.cpp","        for (int i = begin; i < end; i++) {\n            int carry = 0;","        int carry = 0;\n        for (int i = begin; i < end; i++) {"),
("12b","C12","c/msm.cpp","for (int i = 0; i < bitsPerChunk; i++) {\n            g.dbl(r, r);","for (int i = 0; i < (int)bitsPerChunk; i++) {\n            if (!g.isZero(chunks[j]) || i + 1 < bitsPerChunk) g.dbl(r, r);"),
("12c","C12","c/msm.hpp","if (byteStart + 8 > scalarSize) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;","if (byteStart + 8 > scalarSize && scalarIdx) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;"),
("12d","C12","c/msm.cpp","            for (int i = 0; i < nBuckets; i++) {\n                g.copy(buckets[i], g.zero());\n            }","            if (j == begin) for (int i = 0; i < nBuckets; i++) {\n                g.copy(buckets[i], g.zero());\n            }"),
("12e","C12","c/msm.cpp","&bucketMatrix[numThread*nBuckets]","&bucketMatrix[(numThread % 2)*nBuckets]"),
("12f","C12","c/msm.cpp","    bitsPerChunk = calcBitsPerChunk(nPoints, scalarSize);","    static uint64_t cached = 0; if (!cached) cached = calcBitsPerChunk(nPoints, scalarSize); bitsPerChunk = cached;"),
("12g","C12","c/msm.hpp","return ((scalarSize * 8 + 1) / bitsPerChunk) + 1;","return ((scalarSize * 8) / bitsPerChunk) + 1;"),
("12h","C12","c/msm.cpp","if (bucketIndex >= nBuckets) {","if (bucketIndex > 2*nBuckets - 1) {"),
("12i","C12","c/msm.cpp","    if (nPoints == 0) {\n        g.copy(r, g.zero());\n        return;\n    }","    if (nPoints == 0) {\n        return;\n    }"),
("12j","C12","c/msm.cpp","                    g.sub(buckets[-bucketIndex-1], buckets[-bucketIndex-1], _bases[i]);","                    if (g.isZero(buckets[-bucketIndex-1])) g.neg(buckets[-bucketIndex-1], _bases[i]);\n                    else g.sub(buckets[-bucketIndex-1], buckets[-bucketIndex-1], _bases[i < 4096 ? i : i - 1]);"),
("12k","C12","c/msm.cpp","std::unique_ptr<int32_t[]> slicedScalars(new int32_t[nSlices]);","std::unique_ptr<int16_t[]> slicedScalars(new int16_t[nSlices]);"),
# C13
("13a","C13","c/multiexp.cpp","if (i / nX >= size[i % nX]) continue;","if (i / nX > size[i % nX]) continue;"),
("13b","C13","c/multiexp.cpp","v = v & ( (1 << efectiveBitsPerChunk) - 1);","v = v & ( (1 << bitsPerChunk) - 1);"),
("13c","C13","c/multiexp.cpp","    for (u_int32_t i=0; i<nThreads; i++) {\n        g.add(accs[ndiv2]","    for (u_int32_t i=0; i<nThreads && i<ndiv2-1; i++) {\n        g.add(accs[ndiv2]"),
("13d","C13","c/multiexp.cpp","nChunks = ((scalarSize*8 - 1 ) / bitsPerChunk)+1;","nChunks = (scalarSize*8) / bitsPerChunk + (bitsPerChunk == 3 ? 0 : 1); if (!nChunks) nChunks = 1;"),
("13e","C13","c/multiexp.cpp","        if (x[0] > 0) g.mulByScalar(r, bases[0], scalars, scalarSize);\n        else g.copy(r, g.zero());","        g.mulByScalar(r, bases[0], scalars, scalarSize);"),
("13f","C13","c/multiexp.cpp","    accs = new PaddedPoint[nThreads * accsPerChunk];\n    // std::cout << \"InitTrees \" << \"\\n\";\n    initAccs();","    accs = new PaddedPoint[nThreads * accsPerChunk];\n    memset((void*)accs, 0, nThreads * accsPerChunk * sizeof(PaddedPoint));"),
("13g","C13","c/multiexp.cpp","for(uint64_t j=1; j<nThreads; j++) {\n            if (!g.isZero","for(uint64_t j=1; j<nThreads && j<8; j++) {\n            if (!g.isZero"),
("13h","C13","c/misc.hpp","        omp_set_num_threads(prev_max_threads);","        (void)prev_max_threads;"),
# C14
("14a","C14","c/fft.cpp","    if (s<domainPow) {\n        throw","    if (s+1<domainPow) {\n        throw"),
("14b","C14","c/fft.cpp","    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);","    if (n > 2) f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);"),
("14c","C14","c/fft.cpp","    mpz_set_ui(m_nqr, 2);\n    mpz_powm","    mpz_set_ui(m_nqr, 3);\n    mpz_powm"),
("14d","C14","c/fft.cpp","mpz_add_ui(m_nqr, m_nqr, 1);","mpz_add_ui(m_nqr, m_nqr, 2);"),
("14e","C14","c/fft.cpp","for (uint64_t i=2; i<=s; i++) {","for (uint64_t i=2; i<s; i++) {"),
("14f","C14","c/fft.hpp","return roots[ idx << (s-domainPow)];","return roots[ (idx << (s-domainPow)) & ((1u << 16) - 1)];"),
("14g","C14","c/fft.cpp","threadPool.parallelFor(1, nDiv2, [&]","threadPool.parallelFor(1, nDiv2 > 64 ? nDiv2 - nDiv2 % threadPool.getThreadCount() : nDiv2, [&]"),
("14h","C14","c/fft.cpp","uint64_t increment = nRoots / nThreads;","uint64_t increment = (nRoots + nThreads - 1) / nThreads;"),
]
