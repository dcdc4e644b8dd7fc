#include "ops.hpp"
void setup_ops_d();
void setup_ops_c() {
    setup_ops_d();
    vp::add("d3", 60, 3000, [](rng& r, long i) {
        auto d = vv::rdims<3>(r, 0, 3); auto e = other<3>(r, d, i % 4 == 0);
        arith<3,float,float>(r, r.in(0, 8), d, e);
    });
    vp::add("logic", 120, 4000, [](rng& r, long i) {
        if (i % 2) { auto d = vv::rdims<1>(r, 0, 6); auto e = other<1>(r, d, i % 5 == 0); if (i % 4 < 2) logic<O_and>(r, d, e); else logic<O_or>(r, d, e); }
        else { auto d = vv::rdims<2>(r, 0, 4); auto e = other<2>(r, d, i % 5 == 0); if (i % 4 < 2) logic<O_and>(r, d, e); else logic<O_or>(r, d, e); }
    });
    vp::add("unary", 60, 2000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, 0, 5);
        auto a = mkv<2,int>(r, d, false); auto b = mkb<2>(r, d);
        un1("-", a, [&](obj& o) { vv::put(o, -a); });
        un1("+", a, [&](obj& o) { vv::put(o, +a); });
        un1("!", b, [&](obj& o) { vv::put(o, !b); });
        un1("!", b, [&](obj& o) { auto t = b; vv::put(o, !std::move(t)); });
        un1("!", b, [&](obj& o) { auto w = b(_,_); vv::put(o, !w); });
        un1("-", a, [&](obj& o) { auto w = a(_,_); vv::put(o, -w); });
    });
}
