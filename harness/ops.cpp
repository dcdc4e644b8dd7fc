#include "ops.hpp"
void setup_ops_b();
void vp::setup() {
    vp::add("d1", 120, 6000, [](rng& r, long i) { all<1>(r, i, i % 4 == 0); });
    vp::add("int", 60, 3000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, 0, 4); auto e = other<2>(r, d, i % 4 == 0);
        auto a = mkv<2,int>(r, d, true), b = mkv<2,int>(r, e, true);
        if (i % 2) bin<O_div>(r, a, b, (int)r.in(1,50), (int)r.in(1,9)); else bin<O_mod>(r, a, b, (int)r.in(1,50), (int)r.in(1,9));
    });
    vp::add("vectorised", 80, 3000, [](rng& r, long i) {
        if (i % 2) { auto d = vv::rdims<1>(r, 0, 6); vectorised<1>(r, d, other<1>(r, d, i % 4 == 1)); }
        else { auto d = vv::rdims<2>(r, 0, 4); vectorised<2>(r, d, other<2>(r, d, i % 4 == 0)); }
    });
    setup_ops_b();
}
