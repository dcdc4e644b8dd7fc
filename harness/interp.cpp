// interpolation and integration
#include "reduce.hpp"
#include "vif/math/interpolate.hpp"
static vec1d absc(rng& r, uint_t n) { vec1d x(n); long k = r.in(-5, 5); for (auto& t : x.data) { t = k; k += r.in(1, 4); } return x; }
static vec1d ints(rng& r, uint_t n, long m) { vec1d y(n); for (auto& t : y.data) t = r.in(-m, m); return y; }
static vec1d halves(rng& r, const vec1d& x, uint_t n) { vec1d t(n); long lo = x.empty() ? 0 : 2*(long)x.front() - 6, hi = x.empty() ? 4 : 2*(long)x.back() + 6; for (auto& u : t.data) u = r.in(lo, hi); return t; }
static void lin(rng& r) {
    uint_t n = r.in(0, 6); if (n < 2 && r.chance(2, 3)) n = 2; vec1d x = absc(r, n), y = ints(r, n + (r.chance(1, 10) ? 1 : 0), 9), t = halves(r, x, r.in(0, 6)), e(y.size());
    for (auto& u : e.data) u = r.in(0, 3);
    #define XY(N) obj o(N); o.raw("x", vv::js(x)).raw("y", vv::js(y))
    { XY("lin"); o.raw("t", vv::js(t)); rec(o, [&](obj& q) { auto z = interpolate(y, x, t/2); q.raw("r", fxs(z, 1000)).raw("rd", vv::jd(z)); }); }
    { XY("lin"); o.raw("t", vv::js(t)); rec(o, [&](obj& q) { vec1d ht = t/2; auto z = interpolate(y[_], x[_], ht[_]); q.raw("r", fxs(z, 1000)).raw("rd", vv::jd(z)); }); }
    double u = r.in(x.empty() ? 0 : 2*(long)x.front() - 6, x.empty() ? 1 : 2*(long)x.back() + 6);
    { XY("lin1"); o.n("t", (long)u); rec(o, [&](obj& q) { q.raw("r", fx1(interpolate(y, x, u/2), 1000)); }); }
    { XY("linerr"); o.raw("t", vv::js(t)).raw("e", vv::js(e)); rec(o, [&](obj& q) { auto z = interpolate(y, e, x, t/2); q.raw("r", fxs(z.first, 1000)).raw("rd", vv::jd(z.first)).raw("r2", fxs(z.second, 100)); }); }
    if (n >= 2 && y.size() == n) { XY("two"); o.n("t", (long)u); rec(o, [&](obj& q) { q.raw("r", fx1(interpolate(y.safe[0], y.safe[1], x.safe[0], x.safe[1], u/2), 1000)); }); }
}
static void integ(rng& r) {
    uint_t n = r.in(0, 6); vec1d x = absc(r, n), y = ints(r, n + (r.chance(1, 12) ? 1 : 0), 9);
    if (n > 0 || y.size() == 0) { XY("trapz"); rec(o, [&](obj& q) { q.raw("r", fx1(integrate(x, y), 1000)); }); }
    { XY("cumulxy"); rec(o, [&](obj& q) { auto z = cumul(x, y); q.raw("r", fxs(z, 1000)).raw("rd", vv::jd(z)); }); }
    long lo = n ? 2*(long)x.front() : 0, hi = n ? 2*(long)x.back() : 4;
    for (int k = 0; k < 4; ++k) {
        long a = r.in(lo, hi), b = r.in(a, hi); if (k == 3) { if (r.chance(1, 2)) b = hi; if (r.chance(1, 3)) a = b; else a = lo; if (r.chance(1, 6)) b += 1; if (r.chance(1, 6)) a -= 1; }
        XY("intrange"); o.n("a", a).n("b", b); rec(o, [&](obj& q) { q.raw("r", fx1(integrate(x, y, a/2.0, b/2.0), 1000)); });
    }
    // successive ranges with the hint left by the previous one
    if (n >= 1 && y.size() == n) {
        uint_t hint = npos; long a = r.in(lo, hi);
        for (int k = 0; k < 5; ++k) {
            long b = r.in(a, std::min(hi, a + 6)); if (k == 4) b = hi;
            XY("inthint"); o.n("a", a).n("b", b).n("h", hint); rec(o, [&](obj& q) { double z = integrate_hinted(x, y, hint, a/2.0, b/2.0); q.raw("r", fx1(z, 1000)).n("h2", hint); });
            a = b;
        }
    }
    // bins
    uint_t nb = r.in(1, 5); vec1d ed = absc(r, nb + 1), yb = ints(r, nb, 9); vec2d bins(2, nb); for (uint_t i : range(nb)) { bins.safe(0,i) = ed.safe[i]; bins.safe(1,i) = ed.safe[i+1]; }
    vec1d l = bins(0,_), u = bins(1,_);
    { obj o("intbin"); o.raw("lo", vv::js(l)).raw("up", vv::js(u)).raw("y", vv::js(yb)); rec(o, [&](obj& q) { q.raw("r", fx1(integrate(bins, yb), 1000)); }); }
    for (int k = 0; k < 4; ++k) {
        long lo = 2*(long)ed.front(), hi = 2*(long)ed.back(), a = r.in(lo, hi), b = r.in(a, hi); if (k == 3) { if (r.chance(1, 2)) b = hi; if (r.chance(1, 3)) a = b; else a = lo; if (r.chance(1, 6)) b += 1; if (r.chance(1, 6)) a -= 1; }
        obj o("intbinrange"); o.raw("lo", vv::js(l)).raw("up", vv::js(u)).raw("y", vv::js(yb)).n("a", a).n("b", b); rec(o, [&](obj& q) { q.raw("r", fx1(integrate(bins, yb, a/2.0, b/2.0), 1000)); });
    }
    vec1d c = ints(r, 4, 5); long a = r.in(-3, 3), b = r.in(-3, 3);
    { obj o("intpoly"); o.raw("v", vv::js(c)).n("a", a).n("b", b); if (a != b) rec(o, [&](obj& q) { q.raw("r", fx1(integrate_func([&](double t) { return c.safe[0] + t*(c.safe[1] + t*(c.safe[2] + t*c.safe[3])); }, double(a), double(b), 1e-9), 10)); }); }
}
static void bil(rng& r) {
    auto d = vv::rdims<2>(r, 2, 6); auto m = rv<2,double>(r, d, 9);
    for (int k = 0; k < 4; ++k) {
        long tx = r.in(-4, 2*d[0] + 3), ty = r.in(-4, 2*d[1] + 3), def = r.in(-3, 3);
        #define MP(N) obj o(N); o.raw("d", vv::jd(m)).raw("v", vv::js(m)).n("tx", tx).n("ty", ty).n("def", def)
        { MP("bilin"); rec(o, [&](obj& q) { q.raw("r", fx1(bilinear(m, tx/2.0, ty/2.0), 1000)); }); }
        { MP("bilin"); rec(o, [&](obj& q) { q.raw("r", fx1(bilinear(m(_,_), tx/2.0, ty/2.0), 1000)); }); }
        { MP("strict"); rec(o, [&](obj& q) { q.raw("r", fx1(bilinear_strict(m, tx/2.0, ty/2.0, double(def)), 1000)); }); }
        { MP("bicubic"); rec(o, [&](obj& q) { q.raw("r", fx1(bicubic_strict(m, tx/2.0, ty/2.0, double(def)), 100)); }); }
    }
    { vec2d c = rv<2,double>(r, {{2, 2}}, 9); long tx = r.in(-2, 4), ty = r.in(-2, 4); obj o("bilinraw"); o.raw("v", vv::js(c)).n("tx", tx).n("ty", ty); rec(o, [&](obj& q) { q.raw("r", fx1(bilinear(c.safe[0], c.safe[1], c.safe[2], c.safe[3], tx/2.0, ty/2.0), 1000)); }); }
    bool bad = r.chance(1, 8); uint_t bx = bad && r.chance(1, 2), by = bad && !bx;
    long ox = r.in(-3, 3), sx = r.in(1, 3), oy = r.in(-3, 3), sy = r.in(1, 3);
    vec1d mx = indgen<double>(d[0] + bx)*sx + ox, my = indgen<double>(d[1] + by)*sy + oy;
    // axes are either evenly spaced or not
    if (r.chance(1, 2)) { double c = ox; for (auto& t : mx.data) { t = c; c += r.in(1, 4); } }
    if (r.chance(1, 2)) { double c = oy; for (auto& t : my.data) { t = c; c += r.in(1, 4); } }
    // position along an axis, from half pixels
    auto at = [](const vec1d& m, double t) { double u = t/2.0; long k = std::floor(u), n = m.size(); k = std::max(0l, std::min(k, n - 2)); return m.safe[k] + (u - k)*(m.safe[k+1] - m.safe[k]); };
    auto ats = [&](const vec1d& m, vec1d t) { for (auto& q : t.data) q = at(m, q); return t; };
    uint_t n = r.in(0, 4), n2 = r.in(0, 4); vec1d xs(n), ys(n2), ys1(n); for (auto& t : xs.data) t = r.in(-3, 2*d[0] + 2); for (auto& t : ys.data) t = r.in(-3, 2*d[1] + 2); for (auto& t : ys1.data) t = r.in(-3, 2*d[1] + 2);
    #define MG(N, YS) obj o(N); o.raw("d", vv::jd(m)).raw("v", vv::js(m)).raw("xs", vv::js(xs)).raw("ys", vv::js(YS)).n("bad", bad)
    { MG("rebin", ys); rec(o, [&](obj& q) { auto z = rebin(m, mx, my, ats(mx, xs), ats(my, ys)); q.raw("r", fxs(z, 1000)).raw("rd", vv::jd(z)); }); }
    { MG("bilinxy", ys1); rec(o, [&](obj& q) { auto z = bilinear(m, mx, my, ats(mx, xs), ats(my, ys1)); q.raw("r", fxs(z, 1000)).raw("rd", vv::jd(z)); }); }
    if (n > 0) { MG("bilinxy", ys1); o.s.replace(o.s.find("\"xs\":") + 5, vv::js(xs).size(), "[" + vp::num(xs.safe[0]) + "]"); o.s.replace(o.s.find("\"ys\":") + 5, vv::js(ys1).size(), "[" + vp::num(ys1.safe[0]) + "]");
        rec(o, [&](obj& q) { double z = bilinear(m, mx, my, at(mx, xs.safe[0]), at(my, ys1.safe[0])); q.raw("r", fx1(z, 1000)).raw("rd", "[1]"); }); }
}
template<class F> void spl(const vec1d& x, const vec1d& y, F f) {
    obj o("spline"); o.raw("x", vv::js(x)).raw("y", vv::js(y));
    rec(o, [&](obj& q) {
        std::vector<std::string> c; uint_t n = x.size();
        for (uint_t k = 0; k + 1 < n; ++k) {
            double a = x.safe[k], h = x.safe[k+1] - a; std::string s = "["; double ts[5] = {0, h/3, 2*h/3, h, h/2};
            for (int j = 0; j < 5; ++j) s += (j ? "," : "") + fx(f(j == 3 ? x.safe[k+1] : a + ts[j]), 1000);
            c.push_back(s + "]");
        }
        q.raw("r", vp::arr(c)).raw("left", fx(f(x.safe[0] - (x.safe[1] - x.safe[0])), 1000)).raw("right", fx(f(x.safe[n-1] + (x.safe[n-1] - x.safe[n-2])), 1000));
    });
}
static void spline(rng& r) {
    uint_t n = r.in(2, 7); vec1d y = ints(r, n, 9), x = absc(r, n), g = indgen<double>(n);
    if (r.chance(1, 4)) { long a = r.in(-3, 3), b = r.in(-3, 3); y = x*a + b; }
    spl(x, y, [&](double t) { return interpolate_3spline(y, x, t); });
    spl(x, y, [&](double t) { vec1d u = {t, x.safe[0]}; return interpolate_3spline(y, x, u).safe[0]; });
    spl(g, y, [&](double t) { return interpolate_3spline(y, t); });
    spl(g, y, [&](double t) { vec1d u = {0.5, t}; return interpolate_3spline(y, u).safe[1]; });
}
void vp::setup() {
    vp::add("lin", 150, 5000, [](rng& r, long i) { lin(r); });
    vp::add("integ", 150, 5000, [](rng& r, long i) { integ(r); });
    vp::add("bil", 120, 4000, [](rng& r, long i) { bil(r); });
    vp::add("spline", 80, 3000, [](rng& r, long i) { spline(r); });
}
