#include "thr.hpp"
void setup_pfor() {
    vp::add("pfor", 90, 900, [](rng& r, long i) {
        int n = i % 5; // number of worker threads (0: in the calling thread)
        std::vector<std::array<int,4>> runs;
        int m = r.chance(1,3) ? 2 : 1;
        for (int k = 0; k < m; ++k) {
            int a = r.chance(1,2) ? 0 : r.in(1, 9), b = a + (int)r.in(0, 9), ch = r.chance(1,2) ? 0 : r.in(1, 5);
            runs.push_back({{a, b, ch, 0}});
        }
        explore(r, "pfor", "[" + std::to_string(n) + "]", [=]() {
            vif::thread::parallel_for p(n);
            for (auto& q : runs) {
                plog::log(3, q[0], q[1]);
                p.chunk_size = q[2];
                auto f = [](vif::uint_t k) { plog::log(1, k); inside(); plog::log(2, k); };
                if (q[0] == 0 && q[1] % 2) p.execute(f, q[1]); else p.execute(f, q[0], q[1]);
                plog::log(4);
            }
        }, 2, vp::opt.thorough ? 10000 : 400, vp::opt.thorough ? 800 : 100);
    });
    vp::add("pfor_big", 10, 60, [](rng& r, long i) {
        int n = 1 + i % 4, b = r.in(20, 90), ch = r.in(0, 30);
        explore(r, "pfor", "[" + std::to_string(n) + "]", [=]() {
            vif::thread::parallel_for p(n); p.chunk_size = ch;
            plog::log(3, 0, b);
            p.execute([](vif::uint_t k) { plog::log(1, k); inside(); plog::log(2, k); }, b);
            plog::log(4);
        }, 0, 0, 20);
    });
}
