#include "thr.hpp"
namespace {
    live_t live(0);
    struct item {
        int v;
        item() : v(-1) { live += 1; }
        explicit item(int x) : v(x) { live += 1; }
        item(const item& o) : v(o.v) { live += 1; }
        item(item&& o) : v(o.v) { o.v = -2; live += 1; }
        item& operator = (const item& o) { v = o.v; return *this; }
        item& operator = (item&& o) { v = o.v; if (&o != this) o.v = -2; return *this; }
        ~item() { live -= 1; }
    };
    typedef vif::thread::lock_free_queue<item> queue;
    void push(queue& q, int x) {
        plog::log(1, x);
        if (x % 2) q.push(item(x)); else { item i(x); q.push(i); }
        plog::log(2, x);
    }
    bool pop(queue& q) {
        plog::log(3);
        item i; bool ok = q.pop(i);
        plog::log(4, ok, ok ? i.v : 0);
        return ok;
    }
    void cons(queue& q, char c) {
        if (c == 'p') pop(q);
        else if (c == 's') { plog::log(5); long n = q.size(); plog::log(6, n); }
        else { plog::log(7); bool b = q.empty(); plog::log(8, b); }
    }
}
void setup_queue() {
    // concurrent producer and consumer
    vp::add("spsc", 60, 600, [](rng& r, long i) {
        int pre = i % 3 == 0 ? r.in(0, 2) : 0, np = 1 + i % 4;
        std::string c; int nc = 1 + (i / 4) % 5;
        for (int k = 0; k < nc; ++k) c += r.chance(2,3) ? 'p' : (r.chance(1,2) ? 's' : 'e');
        bool drain = r.chance(3,4);
        explore(r, "queue", "[]", [=]() {
            live = 0;
            {
                queue q;
                int x = 0;
                for (int k = 0; k < pre; ++k) push(q, ++x);
                { std::thread p([&] { int y = x; for (int k = 0; k < np; ++k) push(q, ++y); });
                  std::thread s([&] { for (char k : c) cons(q, k); });
                  p.join(); s.join(); }
                cons(q, 's');
                if (drain) while (pop(q)) {}
                cons(q, 'e');
            }
            plog::log(10, (long)live);
        }, 2 + (np + nc <= 4), vp::opt.thorough ? 20000 : 1500, vp::opt.thorough ? 1500 : 120);
    });
    // one thread: all histories of push, pop, size, empty, clear
    vp::add("seq", 120, 3000, [](rng& r, long i) {
        std::string c; int nc = r.in(1, 40);
        for (int k = 0; k < nc; ++k) { int z = r.in(0, 19); c += z < 8 ? 'u' : z < 15 ? 'p' : z < 17 ? 's' : z < 19 ? 'e' : 'c'; }
        explore(r, "queue", "[]", [=]() {
            live = 0;
            {
                queue q; int x = 0;
                for (char k : c) {
                    if (k == 'u') push(q, ++x);
                    else if (k == 'c') { plog::log(9); q.clear(); }
                    else cons(q, k);
                }
            }
            plog::log(10, (long)live);
        }, 0, 1, 0);
    });
}
