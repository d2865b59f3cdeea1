ID="c24-shared-piece"; PROP="C24"; KIT=""
NEEDS="two threads splitting texts at the same time"
BREAKS="the piece being collected is one static string for all threads"
EDITS=[("c/splitparstr.cpp","    std::string accS;\n","    static std::string accS;\n    accS.clear();\n",1)]
FILES={"main.cpp":r'''
#include "splitparstr.hpp"
#include <cstdio>
#include <thread>
#include <unistd.h>
int main() {
    alarm(60);
    bool bad[4] = {};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        std::string a(40, '1' + t), b(50, 'a' + t);
        for (int i = 0; i < 30000; i++) {
            auto r = splitParStr("(" + a + ",(" + b + "))");
            if (r.size() != 2 || r[0] != a || r[1] != b) bad[t] = true;
        }
    });
    for (auto &t : ts) t.join();
    for (bool b : bad) if (b) { printf("wrong pieces\n"); return 1; }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
set -e
cd "$w"
g++ -w -std=c++17 -O1 -pthread -I"$repo/c" "$d/main.cpp" "$repo/c/splitparstr.cpp" -o main
timeout 100 ./main
'''
