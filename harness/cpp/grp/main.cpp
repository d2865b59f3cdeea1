#include "io.hpp"
#include <thread>
uint32_t Toy::P = 7;
Toy Toy::field;
uint64_t Toy::bad() { fprintf(stderr, "torn toy element\n"); abort(); }
std::map<std::string, Handler> &handlers() { static std::map<std::string, Handler> h; return h; }
FILE *vp_out;
// the size of the default thread pool is the number of processors: chosen here by the environment
unsigned std::thread::hardware_concurrency() noexcept { const char *s = getenv("VP_NT"); return s ? atoi(s) : 4; }
int main(int argc, char **argv) {
    vp_guard_init();
    vp_out = stdout; setvbuf(stdout, 0, _IOLBF, 1 << 16);
    std::string line;
    while (std::getline(std::cin, line)) {
        In in(line);
        std::string c;
        if (!(in >> c) || c[0] == '#') continue;
        auto it = handlers().find(c);
        if (it == handlers().end()) { fprintf(stderr, "unknown command %s\n", c.c_str()); return 3; }
        it->second(in);
    }
    fflush(vp_out);
    _exit(0);
}
