P="c/misc.hpp"; F="c/fft.cpp"; X="c/multiexp.cpp"; S="c/msm.cpp"; SP="c/splitparstr.cpp"; BF="c/binfile_utils.cpp"; ZK="c/zkey_utils.cpp"; WT="c/wtns_utils.cpp"
M=[
# C15
("15a","C15",P,"                task();\n                task = nullptr;\n            }\n            finished.notify_one();","                task();\n                finished.notify_one();\n            }\n            std::lock_guard<std::mutex> lock(mutex);\n            task = nullptr;"),
("15b","C15",P,"finished.wait(lock, [this]{return task == nullptr;});","if (task != nullptr) finished.wait(lock);"),
("15c","C15",P,"        {\n            std::lock_guard<std::mutex> lock(mutex);\n            task = func;\n        }\n        occupied.notify_one();","        task = func;\n        occupied.notify_one();"),
("15d","C15",P,"workers[k].submit([=]{func(jobBegin, jobBegin + jobs[k], k);});","workers[k].submit([&]{func(jobBegin, jobBegin + jobs[k], k);});"),
("15e","C15",P,"        for (int i = 0; i < elementRest; i++) {","        for (int i = 0; i + 1 < elementRest; i++) {"),
("15f","C15",P,"        for (k = 0; k < jobs.size() - 1; k++) {\n            workers[k].wait();","        for (k = 1; k < jobs.size() - 1; k++) {\n            workers[k].wait();"),
("15g","C15",P,"        for (k = 0; k < nThreads - 1; k++) {\n            workers[k].wait();","        for (k = 0; k + 2 < nThreads; k++) {\n            workers[k].wait();"),
("15h","C15",P,"workers[k].submit([=]{func(k, nThreads);});","workers[k].submit([&]{func(k, nThreads);});"),
("15i","C15",P,"occupied.wait(lock, [this]{return task != nullptr || stop;});","occupied.wait(lock, [this]{return task != nullptr;}); if (stop) return;"),
("15j","C15",P,"                if (stop) {\n                    return;\n                }\n","                if (stop && task == nullptr) {\n                    return;\n                }\n"),
("15k","C15",P,"                occupied.wait(lock, [this]{return task != nullptr || stop;});","                if (task == nullptr && !stop) occupied.wait(lock);\n                if (task == nullptr && !stop) continue;"),
("15l","C15",P,"                task();\n                task = nullptr;\n            }\n            finished.notify_one();","                auto t = std::move(task);\n                task = nullptr;\n                lock.unlock();\n                t();\n            }\n            finished.notify_one();"),
("15m","C15",P,"nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads),","nThreads(_nThreads==0 ? defaultThreadCount() : _nThreads > 64 ? 64 : _nThreads),"),
("15n","C15",P,"        if (elementCount <= threadCount) {","        if (elementCount < threadCount) {"),
("15o","C15",P,"            finished.notify_one();\n        }\n    }","            if (!stop) finished.notify_one();\n        }\n    }"),
("15p","C15",P,"        occupied.notify_one();\n\n        thread.join();","        thread.join();"),
# C16
("16a","C16",F,"    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {\n        for (u_int64_t i=begin; i<end; i++) {\n            Element tmp;","    Element tmp;\n    threadPool.parallelFor(0, n, [&] (int begin, int end, int numThread) {\n        for (u_int64_t i=begin; i<end; i++) {"),
("16b","C16",F,"        threadPool.parallelFor(0, (n>>1), [&] (int begin, int end, int numThread) {\n            for (u_int64_t i=begin; i< end; i++) {\n                Element t;\n                Element u;","        Element t;\n        threadPool.parallelFor(0, (n>>1), [&] (int begin, int end, int numThread) {\n            for (u_int64_t i=begin; i< end; i++) {\n                Element u;"),
("16c","C16",F,"threadPool.parallelFor(1, nDiv2, [&] (int begin","threadPool.parallelFor(1, nDiv2+1, [&] (int begin"),
("16d","C16",F,"        if (start < 2) start = 2; // ","        if (start < 1) start = 2; // "),
("16e","C16",S,"            typename Curve::Point *buckets = &bucketMatrix[numThread*nBuckets];","            typename Curve::Point *buckets = &bucketMatrix[(j % nThreads)*nBuckets];"),
("16f","C16",S,"            typename Curve::Point t, tmp;\n\n            g.copy(t, b","            static typename Curve::Point t, tmp;\n\n            g.copy(t, b"),
("16g","C16",X,"g.add(sall[idThread].p, sall[idThread].p, accs[ndiv2 + i].p);","g.add(sall[i % nThreads].p, sall[i % nThreads].p, accs[ndiv2 + i].p);"),
("16h","C16",X,"        if (chunkValue) {\n            g.add(accs[idThread*accsPerChunk+chunkValue].p, accs[idThread*accsPerChunk+chunkValue].p, bases[i]);\n        }\n    }\n}\n\ntemplate <typename Curve>\nvoid ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX","        if (chunkValue) {\n            uint64_t ia = (i*nThreads/n)*accsPerChunk+chunkValue;\n            g.add(accs[ia].p, accs[ia].p, bases[i]);\n        }\n    }\n}\n\ntemplate <typename Curve>\nvoid ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX"),
("16i","C16",X,"    #pragma omp parallel for\n    for(uint64_t i=0; i<accsPerChunk; i++) {\n        for(uint64_t j=1; j<nThreads; j++) {","    #pragma omp parallel for\n    for(uint64_t j=1; j<nThreads; j++) {\n        for(uint64_t i=0; i<accsPerChunk; i++) {"),
("16j","C16",S,"            int carry = 0;\n\n            for (int j = 0; j < nChunks; j++) {\n                int bucketIndex = getBucketIndex(i, j) + carry;","            static int carry; carry = 0;\n\n            for (int j = 0; j < nChunks; j++) {\n                int bucketIndex = getBucketIndex(i, j) + carry;"),
("16k","C16",F,"        for (u_int64_t i=begin; i<end; i++) {\n            Element tmp;\n            u_int64_t r = BR(i, domainPow);\n            if (i>r) {","        for (u_int64_t i=begin; i<end; i++) {\n            Element tmp;\n            u_int64_t r = BR(i, domainPow);\n            f.copy(a[i], a[i]);\n            if (i>r) {"),
# C17
("17a","C17","c/f2field.cpp","    } else if (F.eq(nr, F.one())) {\n        typeOfNr = nr_is_one;","    } else if (F.eq(nr, F.one())) {\n        typeOfNr = nr_is_negone;"),
("17b","C17","c/f6field.cpp","    F.mul(t1, a.x, a.y);\n    F.mulXi(t1, t1);\n    F.sub(A, A, t1);\n\n    F.square(B, a.x);","    F.mul(t1, a.x, a.y);\n    if (!F.isZero(a.z)) F.mulXi(t1, t1);\n    F.sub(A, A, t1);\n\n    F.square(B, a.x);"),
("17c","C17","c/f6field.cpp","    F.mulXi(tz, a.x);\n    F.copy(ty, a.y);\n    F.copy(r.y, a.z);\n    F.copy(r.x, ty);","    F.mulXi(tz, a.x);\n    F.copy(r.x, a.y);\n    F.copy(r.y, a.z);"),
("17d","C17","c/f6field.cpp","    F.mulXi(tz, a.x);\n    F.copy(ty, a.y);\n    F.copy(r.y, a.z);\n    F.copy(r.x, ty);\n    F.copy(r.z, tz);","    F.mulXi(tz, a.x);\n    F.copy(r.x, a.y);\n    F.copy(r.y, a.z);\n    F.copy(r.z, tz);"),
("17e","C17","c/f12field.cpp","    F.mulTau(t, t);\n    F.add(r.y, ty, t);\n    F.copy(r.x, tx);","    F.copy(r.x, tx);\n    F.mulTau(t, t);\n    F.add(r.y, ty, t);"),
("17f","C17","c/f12field.cpp","    F.mul(tx, a.x, b.y);\n    F.mul(t, b.x, a.y);\n    F.add(tx, tx, t);\n\n    F.mul(ty, a.y, b.y);\n    F.mul(t, a.x, b.x);\n    F.mulTau(t, t);\n    F.add(r.y, ty, t);\n    F.copy(r.x, tx);","    F.mul(tx, a.x, b.y);\n    F.mul(t, b.x, a.y);\n    F.add(tx, tx, t);\n\n    F.mul(ty, a.y, b.y);\n    F.mul(t, a.x, b.x);\n    F.copy(r.x, tx);\n    F.mulTau(t, t);\n    F.add(r.y, ty, t);"),
("17g","C17","c/f2field.cpp","    F.add(r.a, aa, bbr);\n\n    F.mul(r.b, sum1, sum2 );\n    F.sub(r.b, r.b, aa);\n    F.sub(r.b, r.b, bb);","    F.mul(r.b, sum1, sum2 );\n    F.sub(r.b, r.b, aa);\n    F.sub(r.b, r.b, bb);\n    F.mul(bb, e1.b, e2.b); mulByNr(bbr, bb);\n    F.add(r.a, aa, bbr);"),
("17h","C17","c/f6field.cpp","    return F.isZero(a.x) && F.isZero(a.y) && F.isOne(a.z);","    return F.isZero(a.x) && F.eq(a.y, a.x) && F.F.eq(a.z.a, F.F.one());"),
("17i","C17","c/f12field.cpp","    F.neg(r.x, a.x);\n    F.copy(r.y, a.y);\n    mulScalar(r, r, t2);","    F.copy(r.y, a.y);\n    F.neg(r.x, a.x);\n    if (F.isOne(t2)) return;\n    F.mul(r.x, r.x, t2); F.mul(r.y, r.y, F.isZero(r.x) ? t1 : t2);"),
("17j","C17","c/f6field.cpp","20427604","20427604"),
("17k","C17","c/f12field.cpp","for (int i=scalarSize*8-1; i>=0; i--) {","for (int i=(scalarSize > 32 ? 32 : scalarSize)*8-1; i>=0; i--) {"),
("17l","C17","c/f2field.cpp","        case nr_is_long: F.mul(r, nr, a);","        case nr_is_long: F.mul(r, nr, a); if (F.isZero(a)) F.copy(r, nr);"),
# C18
("18a","C18",SP,"if (ins < minIns) minIns = ins;","if (ins < minIns && ins > -3) minIns = ins;"),
("18b","C18",SP,"if (std::isspace(s[i])) continue;","if (s[i] == ' ' || s[i] == '\\t' || s[i] == '\\n') continue;"),
("18c","C18",SP,"    removePars(accS);\n    res.push_back(accS);\n    if ((res","    if (!accS.empty() || res.empty()) { removePars(accS);\n    res.push_back(accS); }\n    if ((res"),
("18d","C18",SP,"if ((res.size()==1)&&(res[0] != s)) {","if ((res.size()==1)&&(res[0].length() + 1 < s.length())) {"),
("18e","C18",SP,"            removePars(accS);\n            res.push_back(accS);\n            accS.clear();","            if (accS.find(',') != std::string::npos || res.size() < 5) removePars(accS);\n            res.push_back(accS);\n            accS.clear();"),
("18f","C18",SP,"while ((s.length() >=ns*2)&&","while ((s.length() > ns*2 + 2)&&"),
("18g","C18",SP,"s.erase(s.length()-nRemove, s.length());","s.erase(s.length()-nRemove, 2);"),
# C19
("19a","C19",BF,"pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;","pos = (u_int64_t)(sections[sectionId][0].start) - (u_int64_t)addr; for (u_int32_t i=0; i<sectionPos && i<2; i++) pos = (u_int64_t)(sections[sectionId][i+1].start) - (u_int64_t)addr;"),
("19b","C19",BF,"        if (readingSection != NULL)\n        {\n            throw new std::range_error(\"Already reading a section\");\n        }\n\n        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;","        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;\n        if (readingSection != NULL)\n        {\n            throw new std::range_error(\"Already reading a section\");\n        }\n"),
("19c","C19",BF,"!= readingSection->size)","> readingSection->size)"),
("19d","C19",BF,"        if (sectionPos >= sections[sectionId].size())\n        {\n            throw new std::range_error(\"Section pos too big. There are \" + std::to_string(sections[sectionId].size()) + \" and it's trying to access section: \" + std::to_string(sectionPos));\n        }\n\n        return sections[sectionId][sectionPos].size;","        if (sectionPos > sections[sectionId].size())\n        {\n            throw new std::range_error(\"Section pos too big. There are \" + std::to_string(sections[sectionId].size()) + \" and it's trying to access section: \" + std::to_string(sectionPos));\n        }\n\n        return sections[sectionId][sectionPos].size;"),
("19e","C19",BF,"        if (sections.find(sectionId) == sections.end())\n        {\n            throw new std::range_error(\"Section does not exist: \" + std::to_string(sectionId));\n        }\n\n        if (sectionPos >= sections[sectionId].size())\n        {\n            throw new std::range_error(\"Section pos too big. There are \" + std::to_string(sections[sectionId].size()) + \" and it's trying to access section: \" + std::to_string(sectionPos));\n        }\n\n        return sections[sectionId][sectionPos].start;","        if (sectionPos >= sections[sectionId].size())\n        {\n            throw new std::range_error(\"Section pos too big. There are \" + std::to_string(sections[sectionId].size()) + \" and it's trying to access section: \" + std::to_string(sectionPos));\n        }\n\n        return sections[sectionId][sectionPos].start;"),
("19f","C19",BF,"if (version > maxVersion)","if (version > maxVersion && version < 0x80000000u)"),
("19g","C19",BF,"            u_int64_t sSize = readU64LE();","            u_int64_t sSize = readU32LE(); pos += 4;"),
("19h","C19",BF,"        int nThreads = omp_get_max_threads() / 2;\n        ThreadUtils::parcpy(addr, data, size, nThreads);","        addr = memcpy(addr, data, size & ~(uint64_t)3);"),
("19i","C19",BF,"                throw new std::range_error(\"Invalid section size\");","                readingSection = NULL; throw new std::range_error(\"Invalid section size\");"),
("19j","C19",BF,"        type.assign((const char *)addr, 4);\n        pos = 4;\n\n        if (type != _type)\n        {\n            throw new std::invalid_argument(\"Invalid file type. It should be \" + _type + \" and it is","        type.assign((const char *)addr, 4);\n        pos = 4;\n\n        if (type.compare(0, 3, _type, 0, 3) != 0)\n        {\n            throw new std::invalid_argument(\"Invalid file type. It should be \" + _type + \" and it is"),
# C20
("20a","C20",ZK,"    h->vk_gamma2 = f->read(h->n8q*4);\n    h->vk_delta1 = f->read(h->n8q*2);","    h->vk_delta1 = f->read(h->n8q*2);\n    h->vk_gamma2 = f->read(h->n8q*4);"),
("20b","C20",ZK,"/ (12 + h->n8r);","/ (12 + h->n8q);"),
("20c","C20",ZK,"mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));","mpz_import(h->rPrime, h->n8r/8 , -1, 8, -1, 0, f->read(h->n8r));"),
("20d","C20",ZK,"if (protocol != 1) {","if (protocol > 1) {"),
("20e","C20",WT,"mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));","mpz_import(h->prime, 32, -1, 1, -1, 0, f->read(h->n8));"),
("20f","C20",WT,"    f->endReadSection();","    f->endReadSection(h->nVars > 0); if (!h->nVars) return loadHeader(f);"),
("20g","C20",ZK,"    f->endReadSection();\n\n    h->nCoefs","    h->nCoefs"),
]
M=[m for m in M if m[3]!=m[4]]
for m in M:
    s=open('/repo/'+m[2]).read()
    if m[3] not in s: print(m[0],'text not found')
