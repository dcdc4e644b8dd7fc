#include "reduce.hpp"
template<class T> void narrow(rng& r, long lo, long hi) {
    vec<1,T> x(r.in(0, 30)); for (auto& t : x.data) t = (T)r.in(lo, hi);
    fn("total", x, 1, [](const vec<1,T>& v) { return total(v); });
    fn("mean", x, 1000, [](const vec<1,T>& v) { return mean(v); });
    fn("median", x, 1, [](const vec<1,T>& v) { return median(v); });
    fn("max", x, 1, [](const vec<1,T>& v) { return max(v); });
}
template<class V, class W> void wgt(rng& r, const V& x, const W& w) {
    { obj o("wmean"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("w", vv::js(w)).raw("d2", vv::jd(w)); rec(o, [&](obj& q) { q.raw("r", fx1(weighted_mean(x, w), 1000)); }); }
    int p = r.in(0, 4); using T = typename V::rtype;
    { obj o("wpct"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("w", vv::js(w)).raw("d2", vv::jd(w)).n("p", p).n("q", 4); rec(o, [&](obj& q) { T z = p == 2 ? weighted_median(x, w) : weighted_percentile(x, w, p/4.0); q.raw("r", fx1(z, 1)); }); }
}
template<class V, class W> void mm(const V& x, const W& y) {
    { obj o("min2"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)); rec(o, [&](obj& q) { vv::put(q, min(x, y)); }); }
    { obj o("max2"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)); rec(o, [&](obj& q) { vv::put(q, max(x, y)); }); }
}
template<std::size_t D, class T> void pair_case(rng& r) {
    auto d = vv::rdims<D>(r, 0, 5); auto d2 = d; if (r.chance(1, 6)) { if (D > 1 && r.chance(1, 2)) std::swap(d2[0], d2[D-1]); else d2[r.in(0, D-1)] += 1; }
    auto x = rv<D,T>(r, d, 9), y = rv<D,T>(r, d2, 9);
    mm(x, y); mm(x, vv::all_view(y)); mm(vv::all_view(x), y);
    T k = (T)r.in(-9, 9); vec<D,T> ks; ks.dims = d; ks.resize(); for (auto& t : ks.data) t = k;
    #define SC(N, E) { obj o(N); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(ks)).raw("d2", vv::jd(ks)); rec(o, [&](obj& q) { vv::put(q, E); }); }
    SC("min2", min(x, k)) SC("min2", min(k, x)) SC("max2", max(x, k)) SC("max2", max(k, x)) SC("min2", min(vv::all_view(x), k))
    vec<D,double> w; w.dims = d2; w.resize(); for (auto& t : w.data) t = r.in(0, 4);
    wgt(r, x, w); wgt(r, vv::all_view(x), w);
    if (std::is_same<T,double>::value && x.size() > 2) { x.safe[r.in(0, x.size()-1)] = (T)std::numeric_limits<double>::quiet_NaN();
        { int p = r.in(0, 4); obj o("wpct"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("w", vv::js(w)).raw("d2", vv::jd(w)).n("p", p).n("q", 4); rec(o, [&](obj& q) { T z = weighted_percentile(x, w, p/4.0); q.raw("r", fx1(z, 1)); }); }
        x = y; }
    auto z = rv<D,T>(r, d, 9); vec<D,double> e; e.dims = d2; e.resize(); for (auto& t : e.data) t = r.in(1, 2);
    { obj o("omean"); o.raw("v", vv::js(z)).raw("d", vv::jd(z)).raw("e", vv::js(e)).raw("d2", vv::jd(e)); rec(o, [&](obj& q) { auto u = optimal_mean(z, e); q.raw("r", "[" + fx(u.first, 1000) + "," + fx(u.second, 1000) + "]"); }); }
    auto b = rb<D>(r, d, r.pick<int>({1, 2, 5})); auto c = rb<D>(r, d2, r.pick<int>({1, 2, 50}));
    fn("count", b, 1, [](const vec<D,bool>& v) { return count(v); });
    fn("fraction", b, 1000, [](const vec<D,bool>& v) { return fraction_of(v); });
    fn("mean", b, 1000, [](const vec<D,bool>& v) { return mean(v); });
    fn("total", b, 1, [](const vec<D,bool>& v) { return total(v); });
    { auto y = vv::all_view(b); fn("count", y, 1, [](const decltype(y)& v) { return count(v); }); }
    { obj o("among"); o.raw("v", vv::js(b)).raw("d", vv::jd(b)).raw("w", vv::js(c)).raw("d2", vv::jd(c)); rec(o, [&](obj& q) { q.raw("r", fx1(fraction_of(b, c), 1000)); }); }
}
void setup_reduce2() {
    vp::add("narrow", 40, 500, [](rng& r, long i) { switch (i % 5) { case 0: narrow<short>(r, -20000, 20000); break; case 1: narrow<unsigned char>(r, 0, 255); break; case 2: narrow<unsigned int>(r, 0, 100000); break; case 3: narrow<long>(r, -100000, 100000); break; case 4: narrow<float>(r, -3000, 3000); break; } });
    vp::add("pair", 100, 3000, [](rng& r, long i) { switch (i % 4) { case 0: pair_case<1,int>(r); break; case 1: pair_case<2,int>(r); break; case 2: pair_case<1,double>(r); break; default: pair_case<2,double>(r); } });
}
