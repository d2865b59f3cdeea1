ID="c18-tabs-kept"; PROP="C18"; KIT="group"
NEEDS="white space other than blanks and line ends: a tab, a form feed or a vertical tab"
BREAKS="only blanks and line ends are skipped, so other white space ends up in the pieces and hides outer parentheses"
EDITS=[("c/splitparstr.cpp","if (std::isspace(s[i])) continue;","if ((s[i] == ' ')||(s[i] == '\\n')||(s[i] == '\\r')) continue;",1)]
FILES={"main.cpp":r'''
#include "kit.hpp"
int main() {
    for (const char *t : {"((1, 2),\n (3,4))", "((1,\t2),\n\t(3,4))", "\t(\v(1,2),(3,\f4))"}) {
        auto v = splitParStr(t);
        if (v.size() != 2 || v[0] != "1,2" || v[1] != "3,4") { printf("%zu pieces:", v.size()); for (auto &x : v) printf(" [%s]", x.c_str()); printf("\n"); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
