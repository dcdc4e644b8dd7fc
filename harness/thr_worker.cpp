#include "thr.hpp"
void setup_worker() {
    vp::add("worker", 40, 500, [](rng& r, long i) {
        std::string c; int nc = 1 + i % 6;
        for (int k = 0; k < nc; ++k) c += (k > 0 && r.chance(1,3)) ? 'w' : 'p';
        bool lastwait = r.chance(1,2);
        explore(r, "worker", "[]", [=]() {
            {
                vif::thread::worker w;
                int x = 0;
                for (char k : c) {
                    if (k == 'p') {
                        int id = ++x;
                        plog::log(1, id);
                        w.push([id] { plog::log(2, id, whoami()); inside(); plog::log(3, id, whoami()); });
                    } else { plog::log(4); w.wait(); plog::log(5); }
                }
                if (lastwait) { plog::log(4); w.wait(); plog::log(5); }
                plog::log(4);
            }
            plog::log(5);
        }, 2, vp::opt.thorough ? 15000 : 800, vp::opt.thorough ? 1000 : 150);
    });
}
