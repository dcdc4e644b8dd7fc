#include "reduce.hpp"
template<class V, class F> void ax(const char* f, const V& x, uint_t a, double s, F g) {
    obj o("axis"); o.t("f", f).raw("v", vv::js(x)).raw("d", vv::jd(x)).n("a", a + 1).n("p", 3).n("q", 8);
    rec(o, [&](obj& q) { auto z = g(); q.raw("r", fxs(z, s)).raw("rd", vv::jd(z)).raw("after", vv::js(x)); });
}
template<class V> void along(rng& r, const V& x, uint_t a) {
    using T = typename V::rtype;
    ax("total", x, a, 1, [&]() { return partial_total(a, x); });
    ax("mean", x, a, 1000, [&]() { return partial_mean(a, x); });
    ax("median", x, a, 1, [&]() { return partial_median(a, x); });
    ax("min", x, a, 1, [&]() { return partial_min(a, x); });
    ax("max", x, a, 1, [&]() { return partial_max(a, x); });
    ax("pct", x, a, 1, [&]() { return partial_percentile(a, x, 0.375); });
    ax("rms", x, a, 100, [&]() { return partial_rms(a, x); });
    ax("stddev", x, a, 100, [&]() { return partial_stddev(a, x); });
    ax("mad", x, a, 1, [&]() { return partial_mad(a, x); });
    ax("total", x, a, 1, [&]() { return reduce(a, x, [](vec<1,T> v) { return total(v); }); });
    ax("max", x, a, 1, [&]() { return reduce(a, x, [](const vec<1,T>& v) { return max(v); }); });
    { obj o("run"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).n("a", a + 1);
      rec(o, [&](obj& q) { std::vector<std::string> c; run_dim(a, x, [&](uint_t i, vec<1,T> v) { std::string s = "[" + vp::num(i); for (auto t : v) s += "," + vp::num(t); c.push_back(s + "]"); }); q.raw("r", vp::arr(c)); }); }
    auto y = x.concretise(); if (r.chance(1, 5)) { y.dims[0] += 1; y.resize(); } for (auto& t : y.data) t += 50;
    { obj o("run2"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)).n("a", a + 1);
      rec(o, [&](obj& q) { std::vector<std::string> c; run_dim(a, x, y, [&](uint_t i, vec<1,T> v, vec<1,T> w) { std::string s = "[" + vp::num(i); for (auto t : v) s += "," + vp::num(t); for (auto t : w) s += "," + vp::num(t); c.push_back(s + "]"); }); q.raw("r", vp::arr(c)); }); }
}
template<std::size_t D> void bl(rng& r, uint_t a) {
    auto b = rb<D>(r, vv::rdims<D>(r, 1, 4), 2);
    ax("count", b, a, 1, [&]() { return partial_count(a, b); });
    ax("fraction", b, a, 1000, [&]() { return partial_fraction_of(a, b); });
}
template<std::size_t D, class T> void axc(rng& r, bool special) {
    auto x = rv<D,T>(r, vv::rdims<D>(r, r.chance(1, 8) ? 0 : 1, 4), 9);
    for (auto& t : x.data) if (special && r.chance(1, 4)) t = (T)std::numeric_limits<double>::quiet_NaN();
    uint_t a = r.in(0, D - 1 + (r.chance(1, 10) ? 1 : 0));
    along(r, x, a); if (r.chance(1, 2)) along(r, vv::all_view(x), a);
    bl<D>(r, r.in(0, D - 1));
}
void setup_reduce3() {
    vp::add("axis", 90, 3000, [](rng& r, long i) { switch (i % 4) { case 0: axc<2,int>(r, false); break; case 1: axc<3,int>(r, false); break; case 2: axc<2,double>(r, i % 8 == 2); break; default: axc<3,double>(r, i % 8 == 3); } });
}
