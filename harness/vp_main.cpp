#include "vp.hpp"
#include <sys/mman.h>

namespace vp {
    jmp_buf* cur_jmp = nullptr;
    options opt;
    FILE* fout = nullptr;
    long cur_case = 0;
    long nevents = 0;
    std::vector<family> families;
}

extern "C" {
    void __real_exit(int) __attribute__((noreturn));
    void __real__exit(int) __attribute__((noreturn));
    void __real_abort() __attribute__((noreturn));
    __attribute__((noreturn)) void __wrap_exit(int code) {
        if (vp::cur_jmp) longjmp(*vp::cur_jmp, 1);
        __real_exit(code);
    }
    __attribute__((noreturn)) void __wrap_abort() {
        if (vp::cur_jmp) longjmp(*vp::cur_jmp, 1);
        __real_abort();
    }
}

static void on_timeout(int) { _exit(97); }

int main(int argc, char* argv[]) {
    using namespace vp;
    bool list = false, keeperr = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") opt.seed = std::stoull(val());
        else if (a == "--tier") opt.thorough = val() == "thorough";
        else if (a == "--shard") opt.shard = std::stol(val());
        else if (a == "--nshards") opt.nshards = std::stol(val());
        else if (a == "--from") opt.from = std::stol(val());
        else if (a == "--only") opt.only = std::stol(val());
        else if (a == "--out") opt.out = val();
        else if (a == "--status") opt.status = val();
        else if (a == "--extra") opt.extra = val();
        else if (a == "--scratch") opt.scratch = val();
        else if (a == "--list") list = true;
        else if (a == "--stderr") keeperr = true;
    }
    setup();
    if (list) {
        long b = 0;
        for (auto& f : families) { printf("%s %ld %ld\n", f.name.c_str(), b, f.n); b += f.n; }
        return 0;
    }
    fout = opt.out.empty() ? stdout : fopen(opt.out.c_str(), opt.from ? "a" : "w");
    if (!fout) { perror("out"); return 3; }
    long* st = nullptr;
    if (!opt.status.empty()) {
        int fd = open(opt.status.c_str(), O_RDWR|O_CREAT, 0600);
        if (ftruncate(fd, 4096)) return 3;
        st = (long*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (!keeperr) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        if (!opt.out.empty()) dup2(nul, 1);
    }
    signal(SIGPROF, on_timeout);
    signal(SIGALRM, on_timeout);
    long base = 0, ncase = 0;
    for (std::size_t k = 0; k < families.size(); ++k) {
        auto& f = families[k];
        for (long i = 0; i < f.n; ++i) {
            long c = base + i;
            if (opt.only >= 0) { if (c != opt.only) continue; }
            else if (c % opt.nshards != opt.shard || c < opt.from) continue;
            cur_case = c;
            if (st) st[0] = c;
            struct itimerval tv = {{0,0},{20,0}};
            setitimer(ITIMER_PROF, &tv, nullptr);
            alarm(60);
            rng r(opt.seed*1000003ull + (uint64_t)c*7919ull + k*104729ull);
            f.run(r, i);
            fflush(fout);
            ++ncase;
        }
        base += f.n;
    }
    if (st) { st[0] = -1; st[1] = ncase; }
    fclose(fout);
    _exit(0);
}
