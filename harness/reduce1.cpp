#include "reduce.hpp"
void setup_reduce2(); void setup_reduce3();
template<class V> void whole(rng& r, const V& x) {
    using T = typename V::rtype;
    fn("total", x, 1, [](const V& v) { return total(v); });
    fn("mean", x, 1000, [](const V& v) { return mean(v); });
    fn("median", x, 1, [](const V& v) { return median(v); });
    fn("rms", x, 100, [](const V& v) { return rms(v); });
    fn("stddev", x, 100, [](const V& v) { return stddev(v); });
    fn("min", x, 1, [](const V& v) { return min(v); });
    fn("max", x, 1, [](const V& v) { return max(v); });
    { obj o("minid"); o.raw("v", vv::js(x)); rec(o, [&](obj& q) { uint_t id = 77; auto z = min(x, id); if (id != min_id(x)) z += 1000; q.raw("r", "[" + vp::num(z) + "," + vp::num(id) + "]"); }); }
    { obj o("maxid"); o.raw("v", vv::js(x)); rec(o, [&](obj& q) { uint_t id = 77; auto z = max(x, id); if (id != max_id(x)) z += 1000; q.raw("r", "[" + vp::num(z) + "," + vp::num(id) + "]"); }); }
    { obj o("minmax"); o.raw("v", vv::js(x)); rec(o, [&](obj& q) { std::pair<uint_t,uint_t> id; auto z = minmax(x, id); q.raw("r", "[" + vp::num(z.first) + "," + vp::num(z.second) + "," + vp::num(id.first) + "," + vp::num(id.second) + "]"); }); }
    { obj o("minmax"); o.raw("v", vv::js(x)); rec(o, [&](obj& q) { auto id = minmax_ids(x); auto z = minmax(x); q.raw("r", "[" + vp::num(z.first) + "," + vp::num(z.second) + "," + vp::num(id.first) + "," + vp::num(id.second) + "]"); }); }
    int p = r.pick<int>({0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9});
    { obj o("fn"); o.t("f", "pct").raw("v", vv::js(x)).n("p", p).n("q", 8); rec(o, [&](obj& q) { auto z = percentile(x, p/8.0); q.raw("r", fx1(z, 1)).raw("after", vv::js(x)); }); }
    { obj o("pcts"); o.raw("v", vv::js(x)).raw("ps", "[" + vp::num(p) + ",8,0,4]").n("q", 8); rec(o, [&](obj& q) { vec<1,T> z = percentiles(x, p/8.0, 1.0, 0.0, 0.5); q.raw("r", vv::js(z)); }); }
}
template<class V> void inpl(const V& x, rng& r) {
    { V y = x; obj o("fn"); o.t("f", "median").raw("v", vv::js(x)); rec(o, [&](obj& q) { auto z = inplace_median(y); q.raw("r", fx1(z, 1)); }); }
    int p = r.in(0, 8);
    { V y = x; obj o("fn"); o.t("f", "pct").raw("v", vv::js(x)).n("p", p).n("q", 8); rec(o, [&](obj& q) { auto z = inplace_percentile(y, p/8.0); q.raw("r", fx1(z, 1)); }); }
    fn("mad", x, 1, [](const V& v) { return mad(v); });
    double sg = r.in(1, 6); obj o("clip"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).n("s2", (long)sg); rec(o, [&](obj& q) { vv::put(q, sigma_clip(x, sg/2)); q.raw("after", vv::js(x)); });
}
template<std::size_t D, class T> void many(rng& r, const std::array<std::size_t,D>& d, bool special) {
    auto x = rv<D,T>(r, d, r.pick<int>({2, 9, 19}), false);
    for (auto& t : x.data) if (special && r.chance(1, r.pick<int>({2, 5}))) t = (T)std::numeric_limits<double>::quiet_NaN();
    whole(r, x); inpl(x, r);
    auto y = vv::all_view(x); whole(r, y);
    const auto& cx = x; auto cy = vv::all_view(cx); whole(r, cy);
}
void vp::setup() {
    vp::add("int", 60, 2000, [](rng& r, long i) { if (i % 2) many<1,int>(r, {{(std::size_t)(i < 12 ? i/2 : r.in(0, 12))}}, false); else many<2,int>(r, vv::rdims<2>(r, 0, 4), false); });
    vp::add("dbl", 80, 2000, [](rng& r, long i) { if (i % 2) many<1,double>(r, {{(std::size_t)(i < 12 ? i/2 : r.in(0, 12))}}, i % 4 == 1); else many<2,double>(r, vv::rdims<2>(r, 0, 4), i % 4 == 0); });
    setup_reduce2(); setup_reduce3();
}
