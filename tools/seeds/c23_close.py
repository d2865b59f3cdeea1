ID="c23-close-after-checks"; PROP="C23"; KIT=""
NEEDS="a file that is refused for its type or version"
BREAKS="the file is unmapped and closed only once it has been accepted, so a refused one keeps its mapping and its descriptor"
EDITS=[("c/binfile_utils.cpp","""        munmap(addrmm, sb.st_size);
        close(fd);

        type""","""        type""",1),("c/binfile_utils.cpp","""            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
        }

        u_int32_t nSections = readU32LE();

        for (u_int32_t i = 0; i < nSections; i++)
        {
            u_int32_t sType = readU32LE();
            u_int64_t sSize = readU64LE();

            if (sections.find(sType) == sections.end())
            {
                sections.insert(std::make_pair(sType, std::vector<Section>()));
            }

            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));

            pos += sSize;
        }

        pos = 0;
        readingSection = NULL;
    }

    BinFile::~BinFile()""","""            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
        }

        munmap(addrmm, sb.st_size);
        close(fd);

        u_int32_t nSections = readU32LE();

        for (u_int32_t i = 0; i < nSections; i++)
        {
            u_int32_t sType = readU32LE();
            u_int64_t sSize = readU64LE();

            if (sections.find(sType) == sections.end())
            {
                sections.insert(std::make_pair(sType, std::vector<Section>()));
            }

            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));

            pos += sSize;
        }

        pos = 0;
        readingSection = NULL;
    }

    BinFile::~BinFile()""",1)]
FILES={"thread_utils.hpp":'''#pragma once
#include <cstring>
#include <cstdint>
namespace ThreadUtils { inline void parcpy(void *d, const void *s, uint64_t n, int) { memcpy(d, s, n); } }
''',"main.cpp":r'''
#include <stdexcept>
#include "binfile_utils.hpp"
#include <cstdio>
#include <dirent.h>
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main() {
    FILE *f = fopen("x.bin", "wb"); unsigned char b[] = {'a','b','c','d', 3,0,0,0, 1,0,0,0, 1,0,0,0, 4,0,0,0,0,0,0,0, 1,2,3,4}; fwrite(b, 1, sizeof b, f); fclose(f);
    int n = fds();
    for (int k = 0; k < 8; k++) {
        try { BinFileUtils::BinFile r("x.bin", "abcd", 3); } catch (...) { printf("refused\n"); return 1; }
        try { BinFileUtils::BinFile r("x.bin", k & 1 ? "abce" : "abcd", 2); printf("accepted\n"); return 1; } catch (std::exception *) {}
    }
    if (fds() != n) { printf("%d descriptors kept\n", fds() - n); return 1; }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
set -e
cd "$w"
g++ -w -std=c++17 -O1 -fopenmp -include stdexcept -I"$d" -I"$repo/c" "$d/main.cpp" "$repo/c/binfile_utils.cpp" -lgmp -o main
timeout 100 ./main
'''
