#include "thr.hpp"
namespace {
    struct work { int who; int uses; work() : who(-1), uses(0) {} explicit work(int k) : who(k), uses(0) {} };
    // events: 1 give(x, k) 2 run(x, who) 3 end(x, who) 4/5 consume_all 6/7 join 8 remaining 9 start(n) 10 destroyed
    template<class P> void script(const std::string& c, int n, P& p, std::function<void(P&,int)> start) {
        int x = 0;
        for (std::size_t i = 0; i < c.size(); ++i) {
            char k = c[i];
            if (k == 'p') { plog::log(1, ++x, -1); p.process(x); }
            else if (k >= '0' && k <= '9') { plog::log(1, ++x, k - '0'); p.process((vif::uint_t)(k - '0'), x); }
            else if (k == 'c') { plog::log(4); p.consume_all(); plog::log(5); }
            else if (k == 'r') { plog::log(12); long m = p.remaining(); plog::log(8, m); }
            else if (k == 'j') { plog::log(6); p.join(); plog::log(7); }
            else if (k == 's') { plog::log(6); start(p, n); plog::log(7); plog::log(9, n); }
        }
    }
}
void setup_pool() {
    vp::add("pool", 60, 600, [](rng& r, long i) {
        int n = 1 + i % 3;
        int mode = (i / 3) % 3;
        std::string c; int nc = r.in(1, 6);
        auto items = [&](int m) { for (int k = 0; k < m; ++k) { int z = r.in(0, 9); c += z < 5 ? 'p' : z < 8 ? (char)('0' + r.in(0, n-1)) : z < 9 ? 'r' : 'c'; } };
        items(nc);
        c += 'c';
        if (r.chance(1,3)) { items(r.in(1,2)); c += 'c'; }
        if (r.chance(2,3)) c += 'j';
        if (r.chance(1,3)) { c += 's'; items(r.in(1,3)); c += 'c'; c += 'j'; }
        if (r.chance(1,4)) { c += 's'; items(1); }   // destroyed with items possibly left
        explore(r, "pool", "[" + std::to_string(n) + "]", [=]() {
            auto f = [](int& x) { int y = x; plog::log(2, y, whoami()); inside(); plog::log(3, y, whoami()); };
            auto g = [](work& w, int& x) { int y = x; int me = whoami(); plog::log(2, y, me); ++w.uses; inside(); ++w.uses;
                plog::log(11, y, (w.who == -1 || w.who == 77 || w.who == me) ? w.uses : -w.uses); w.who = me; plog::log(3, y, me); };
            plog::log(9, n);
            if (mode == 0) {
                { vif::thread::worker_pool<int> p(n, f);
                script<vif::thread::worker_pool<int>>(c, n, p, [=](vif::thread::worker_pool<int>& q, int m) { q.start(m, f); }); plog::log(6); }
            } else if (mode == 1) {
                { vif::thread::worker_pool<int,work> p(n, g, 77);
                script<vif::thread::worker_pool<int,work>>(c, n, p, [=](vif::thread::worker_pool<int,work>& q, int m) { q.start(m, g); }); plog::log(6); }
            } else {
                { vif::thread::worker_pool<int> p; p.start(n, f);
                script<vif::thread::worker_pool<int>>(c, n, p, [=](vif::thread::worker_pool<int>& q, int m) { q.start(m, f); }); plog::log(6); }
            }
            plog::log(7);
        }, 2, vp::opt.thorough ? 15000 : 600, vp::opt.thorough ? 1500 : 200);
    });
}
