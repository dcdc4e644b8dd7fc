// bins, histograms, cumulated sums, regular sequences
#include "reduce.hpp"
#include "vif/math/histogram.hpp"
// disjoint bins: increasing (with or without gaps) or in any order; sometimes not bins at all
template<class T> vec<2,T> rbins(rng& r, bool bad, bool wide = false) {
    uint_t n = r.in(1, 5); std::vector<long> lo, up; long x = r.in(-9, 0); bool gaps = r.chance(1, 3);
    for (uint_t i = 0; i < n; ++i) { lo.push_back(x); x += r.in(1, 4); up.push_back(x); if (gaps) x += r.in(0, 2); }
    if (r.chance(1, 5)) for (uint_t i = n; i > 1; --i) { uint_t j = r.in(0, i-1); std::swap(lo[i-1], lo[j]); std::swap(up[i-1], up[j]); }
    vec<2,T> b(2, n); for (uint_t i = 0; i < n; ++i) { b.safe(0,i) = lo[i]; b.safe(1,i) = up[i]; }
    // bins reaching infinity
    if (wide) for (uint_t i = 0; i < n; ++i) { if (lo[i] == *std::min_element(lo.begin(), lo.end()) && r.chance(2, 3)) b.safe(0,i) = -std::numeric_limits<T>::infinity(); if (up[i] == *std::max_element(up.begin(), up.end()) && r.chance(1, 2)) b.safe(1,i) = std::numeric_limits<T>::infinity(); }
    if (bad) { b.dims[0] = 3; b.resize(); }
    return b;
}
template<std::size_t D, class T> vec<D,T> dat(rng& r, const std::array<std::size_t,D>& d, bool special) {
    auto x = rv<D,T>(r, d, r.pick<int>({3, 12, 12})); for (auto& t : x.data) if (special && r.chance(1, 5)) { double z = r.chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity()*(r.chance(1, 2) ? 1 : -1); t = (T)z; } return x;
}
template<class V, class W, class TB> void hh(rng& r, const V& x, const W& w, const vec<2,TB>& b, const vec<2,TB>& b2) {
    #define COMMON(N) obj o(N); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("b", vv::js(b)).raw("bd", vv::jd(b))
    { COMMON("hist"); rec(o, [&](obj& q) { vv::put(q, histogram(x, b)); }); }
    { COMMON("histw"); o.raw("w", vv::js(w)).raw("dw", vv::jd(w)); rec(o, [&](obj& q) { vv::put(q, histogram(x, w, b)); }); }
    { COMMON("histf"); rec(o, [&](obj& q) { std::vector<std::string> c; histogram(x, b, [&](uint_t i, vec1u ids) { std::string s = "[" + vp::num(i); for (auto t : ids) s += "," + vp::num(t); c.push_back(s + "]"); }); q.raw("r", vp::arr(c)); }); }
    if (b.dims[0] == 2) {
    { COMMON("hist2"); o.raw("w", vv::js(w)).raw("dw", vv::jd(w)).raw("b2", vv::js(b2)).raw("cd", vv::jd(b2)); rec(o, [&](obj& q) { vv::put(q, histogram2d(x, w, b, b2)); }); }
    { COMMON("hist2f"); o.raw("w", vv::js(w)).raw("dw", vv::jd(w)).raw("b2", vv::js(b2)).raw("cd", vv::jd(b2)); rec(o, [&](obj& q) { std::vector<std::string> c; histogram2d(x, w, b, b2, [&](uint_t i, uint_t j, vec1u ids) { std::string s = "[" + vp::num(i*b2.dims[1] + j); for (auto t : ids) s += "," + vp::num(t); c.push_back(s + "]"); }); q.raw("r", vp::arr(c)); }); }
    }
    uint_t k = r.in(0, b.dims[1] - (r.chance(1, 8) ? 0 : 1));
    { COMMON("inbink"); o.n("k", k); rec(o, [&](obj& q) { vv::put(q, in_bin(x, b, k)); }); }
    if (b.dims[1] > 1) { COMMON("open"); o.n("k", k); rec(o, [&](obj& q) { vv::put(q, in_bin_open(x, b, k)); }); }
    if (!x.empty()) { typename V::rtype t = x.safe[r.in(0, x.size()-1)];
        { obj o("inbink"); o.raw("v", "[" + vp::num(t) + "]").raw("d", "[]").raw("b", vv::js(b)).raw("bd", vv::jd(b)).n("k", k); rec(o, [&](obj& q) { vv::put(q, in_bin(t, b, k)); }); }
        if (b.dims[1] > 1) { obj o("open"); o.raw("v", "[" + vp::num(t) + "]").raw("d", "[]").raw("b", vv::js(b)).raw("bd", vv::jd(b)).n("k", k); rec(o, [&](obj& q) { vv::put(q, in_bin_open(t, b, k)); }); }
        vec<1,TB> sb = {b.safe(0,0), b.safe(1,0)}; if (r.chance(1, 8)) sb.push_back(4);
        { obj o("inbin"); o.raw("v", "[" + vp::num(t) + "]").raw("d", "[]").raw("b", vv::js(sb)); rec(o, [&](obj& q) { vv::put(q, in_bin(t, sb)); }); }
        { obj o("inbin"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("b", vv::js(sb)); rec(o, [&](obj& q) { vv::put(q, in_bin(x, sb)); }); }
    }
}
template<std::size_t D, class T> void hcase(rng& r, const std::array<std::size_t,D>& d, bool special) {
    auto x = dat<D,T>(r, d, special); auto d2 = d; if (r.chance(1, 8)) d2[0] += 1; auto w = rv<D,T>(r, d2, 5);
    auto b = rbins<double>(r, r.chance(1, 12)), b2 = rbins<double>(r, false);
    hh(r, x, w, b, b2);
    hh(r, vv::all_view(x), w, b, b2);
    if (special || r.chance(1, 3)) hh(r, x, w, rbins<double>(r, false, true), rbins<double>(r, false, true));
    auto bi = rbins<int>(r, false), bi2 = rbins<int>(r, false); hh(r, x, w, bi, bi2);
    { obj o("center"); o.raw("b", vv::js(b)).raw("bd", vv::jd(b)); rec(o, [&](obj& q) { auto z = bin_center(b); q.raw("r", fxs(z, 2)).raw("rd", vv::jd(z)); }); }
    { obj o("width"); o.raw("b", vv::js(b)).raw("bd", vv::jd(b)); rec(o, [&](obj& q) { auto z = bin_width(b); q.raw("r", fxs(z, 1)).raw("rd", vv::jd(z)); }); }
    vec1d sb = {b.safe(0,0), b.safe(1,0)};
    { obj o("center"); o.raw("b", vv::js(sb)).raw("bd", "[2,1]"); rec(o, [&](obj& q) { auto z = bin_center(sb); q.raw("r", fx1(z, 2)).raw("rd", "[1]"); }); }
    { obj o("width"); o.raw("b", vv::js(sb)).raw("bd", "[2,1]"); rec(o, [&](obj& q) { auto z = bin_width(sb); q.raw("r", fx1(z, 1)).raw("rd", "[1]"); }); }
}
template<class T> void seqs(rng& r) {
    auto v = rv<1,T>(r, {{(std::size_t)r.in(0, 7)}}, 9);
    { obj o("cumul"); o.raw("v", vv::js(v)); rec(o, [&](obj& q) { vv::put(q, cumul(v)); }); }
    { obj o("cumulrev"); o.raw("v", vv::js(v)); rec(o, [&](obj& q) { vv::put(q, cumul_reverse(v)); }); }
    { obj o("cumul"); o.raw("v", vv::js(v)); rec(o, [&](obj& q) { vv::put(q, cumul(v[_])); }); }
    { obj o("edges"); o.raw("v", vv::js(v)); rec(o, [&](obj& q) { vv::put(q, make_bins_from_edges(v)); }); }
    vec1d c = v; { obj o("centers"); o.raw("v", vv::js(c)); rec(o, [&](obj& q) { auto z = make_bins_from_centers(c); q.raw("r", fxs(z, 2)).raw("rd", vv::jd(z)); }); }
    T a = (T)r.in(-9, 9), b = (T)r.in(-9, 20); uint_t n = r.in(1, 9);
    { obj o("bins1"); o.n("a", a).n("b", b); rec(o, [&](obj& q) { vv::put(q, make_bins(a, b)); }); }
    { obj o("bins"); o.n("a", a).n("b", b).n("n", n); rec(o, [&](obj& q) { auto z = make_bins(a, b, n); q.raw("r", fxs(z, 100)).raw("rd", vv::jd(z)); }); }
    { uint_t m = r.in(0, 9); obj o("rgen"); o.n("a", a).n("b", b).n("n", m); rec(o, [&](obj& q) { auto z = rgen(a, b, m); q.raw("r", fxs(z, 100)).raw("rd", vv::jd(z)); }); }
    { long A = r.in(-20, 20), B = r.in(-20, 20), s = r.in(-1, 14); if (s < 1 && r.chance(1, 2)) s = 1; obj o("rgenstep"); o.n("a", A).n("b", B).n("s", s);
      rec(o, [&](obj& q) { auto z = rgen_step(A/4.0, B/4.0, s/4.0); q.raw("r", fxs(z, 4)).raw("rd", vv::jd(z)); }); }
    { long A = r.in(-20, 20), B = r.in(-20, 20), s = r.in(1, 14); obj o("rgenstep"); o.n("a", 4*A).n("b", 4*B).n("s", 4*s);
      rec(o, [&](obj& q) { auto z = rgen_step(A, B, s); q.raw("r", fxs(z, 4)).raw("rd", vv::jd(z)); }); }
    { int k = r.in(1, 3), m = r.in(0, 4 - k); long A = r.pick<long>({1, 2, 5, 50}); obj o("rgenlog"); uint_t np = m == 0 ? 1 : k + 1; o.n("a", A).n("m", m*k).n("n", np);
      rec(o, [&](obj& q) { auto z = rgen_log(double(A), A*std::pow(10.0, m*k), np); q.raw("r", fxs(z, 10)).raw("rd", vv::jd(z)); }); }
}
void vp::setup() {
    vp::add("hist", 90, 3000, [](rng& r, long i) { switch (i % 4) { case 0: hcase<1,int>(r, {{(std::size_t)r.in(0, 14)}}, false); break; case 1: hcase<1,double>(r, {{(std::size_t)r.in(0, 14)}}, i % 8 == 1); break; case 2: hcase<2,int>(r, vv::rdims<2>(r, 0, 4), false); break; default: hcase<2,double>(r, vv::rdims<2>(r, 0, 4), i % 8 == 3); } });
    vp::add("seq", 120, 3000, [](rng& r, long i) { if (i % 2) seqs<int>(r); else seqs<double>(r); });
}
