// cross-matching of catalogs
#include "find.hpp"
#include "vif/utility/time.hpp"
#include "vif/io/fits.hpp"
#include "vif/astro/qxmatch.hpp"
using namespace vif::astro;
struct cat { vec1d ra, dec; };
// angular separation (arcsec), measured from the angle between the two directions
static long double sep(long double ra1, long double de1, long double ra2, long double de2) {
    const long double k = acosl(-1.0L)/180.0L;
    long double a[3] = {cosl(de1*k)*cosl(ra1*k), cosl(de1*k)*sinl(ra1*k), sinl(de1*k)}, b[3] = {cosl(de2*k)*cosl(ra2*k), cosl(de2*k)*sinl(ra2*k), sinl(de2*k)};
    long double c[3] = {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]};
    return 3600.0L/k*atan2l(sqrtl(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]), a[0]*b[0]+a[1]*b[1]+a[2]*b[2]);
}
static std::string scaled(double d, double s) { if (std::isnan(d) || std::isinf(d)) return vp::num(d); return vp::num(std::round(d*s)); }
static std::string squared(double d) { if (std::isnan(d) || std::isinf(d)) return vp::num(d); double q = d*d; return std::fabs(q - std::round(q)) < 1e-2 ? vp::num(std::round(q)) : std::to_string(vp::V_FRAC); }
template<class F> static std::string lst(std::size_t n, F f) { std::string s = "["; for (std::size_t i = 0; i < n; ++i) { if (i) s += ","; s += f(i); } return s + "]"; }
static qxmatch_params rpar(rng& r, std::size_t n1, bool lin) {
    qxmatch_params p; p.linear = lin; p.nth = r.pick<int>({1, 1, 1, 2, 3, 5, 0}); p.brute_force = r.chance(1, 5); p.no_mirror = r.chance(1, 5);
    if (r.chance(1, 10)) p.thread = r.pick<int>({2, 3, (int)n1 + 2}); return p;
}
template<class A, class B> static qxmatch_res call(rng& r, const A& a1, const A& b1, const B& a2, const B& b2, qxmatch_params p, bool self) {
    if (self) { if (r.chance(1, 2)) return qxmatch(a1, b1, p); p.self = true; return qxmatch(a1, b1, a1, b1, p); }
    switch (r.in(0, 3)) { case 0: { uint_t n = a1.size(), m = a2.size(); vec1u i1 = indgen<uint_t>(n), i2 = indgen<uint_t>(m); return qxmatch(a1[i1], b1[i1], a2[i2], b2[i2], p); }
        case 1: { cat c1, c2; c1.ra = a1; c1.dec = b1; c2.ra = a2; c2.dec = b2; return qxmatch(c1, c2, p); } default: return qxmatch(a1, b1, a2, b2, p); }
}
template<class A, class B, class FD, class FI> static void match(rng& r, const A& a1, const A& b1, const B& a2, const B& b2, bool self, bool lin, FI fi, FD fd) {
    auto p = rpar(r, a1.size(), lin); qxmatch_res z; bool ok = false;
    obj o("match"); o.n("n1", a1.size()).n("n2", self ? a1.size() : a2.size()).n("nth", std::max(p.nth, (uint_t)1)).n("self", self).n("nomirror", p.no_mirror).n("brute", p.brute_force).n("thread", p.thread); fi(o);
    rec(o, [&](obj& q) {
        z = call(r, a1, b1, a2, b2, p, self); ok = true;
        q.q("id", z.id).raw("idd", vp::seq(z.id.dims)).raw("d", lst(z.d.size(), [&](std::size_t i) { return fd(z.d.safe[i]); }));
        if (!self && !p.no_mirror) q.q("rid", z.rid).raw("rd", lst(z.rd.size(), [&](std::size_t i) { return fd(z.rd.safe[i]); }));
    });
    if (ok && !self && !p.no_mirror) {
        vec1u id0; for (uint_t i = 0; i < a1.size(); ++i) id0.push_back(z.id.safe(0,i));
        { obj c("clean"); c.q("id", id0).q("rid", z.rid); rec(c, [&](obj& q) { auto y = xmatch_clean_best(z); q.q("id1", y.id1).q("id2", y.id2).q("lost", y.lost); }); }
        if (!a1.empty() && !a2.empty() && r.chance(1, 4)) {
            auto all = [&](const qxmatch_res& y) { return "[" + vp::seq(y.id) + "," + vp::seq(y.id.dims) + "," + lst(y.d.size(), [&](std::size_t i) { return fd(y.d.safe[i]); }) + "," + vp::seq(y.rid) + "," + lst(y.rd.size(), [&](std::size_t i) { return fd(y.rd.safe[i]); }) + "]"; };
            obj c("saved"); c.raw("a", all(z)); std::string f = vp::opt.scratch + "/xm" + std::to_string(getpid()) + ".fits";
            rec(c, [&](obj& q) { qxmatch_save(f, z); auto y = qxmatch_restore(f); q.raw("r", all(y)); }); ::unlink(f.c_str());
        }
    }
}
// integer positions on a plane
template<class T> static void linear(rng& r) {
    std::size_t n1 = r.pick<int>({0, 1, 3, 8, 20, 40}), n2 = r.pick<int>({0, 1, 5, 9, 10, 14, 30, 60}); long w1 = r.pick<int>({2, 6, 20, 300, 1000}), w2 = r.pick<int>({2, 6, 20, 300, 1000}), ox = r.in(-300, 300), oy = r.in(-300, 300);
    int deg = r.in(0, 9); // degenerate layouts: on one line, on one point
    auto gen = [&](std::size_t n, long w, vec<1,T>& x, vec<1,T>& y) { for (std::size_t i = 0; i < n; ++i) { long a = r.in(-w, w), b = r.in(-w, w); if (deg == 0) b = 0; if (deg == 1) a = 0; if (deg == 2) b = a; if (deg == 3) a = b = 0; x.push_back(ox + a); y.push_back(oy + b); } };
    vec<1,T> x1, y1, x2, y2; gen(n1, w1, x1, y1); if (r.chance(1, 2)) { ox += r.in(-200, 200); oy += r.in(-200, 200); } gen(n2, w2, x2, y2);
    bool self = r.chance(1, 4);
    auto fi = [&](obj& o) { o.n("tol", 0).q("x1", x1).q("y1", y1).q("x2", self ? x1 : x2).q("y2", self ? y1 : y2); };
    match(r, x1, y1, x2, y2, self, true, fi, squared);
}
// positions on the sky
template<class T> static void sky(rng& r) {
    std::size_t n1 = r.pick<int>({0, 1, 3, 8, 20, 30}), n2 = r.pick<int>({0, 1, 9, 10, 14, 30, 50});
    double ra0 = r.pick<double>({0.0, 150.0, 360.0, -10.0, 180.0, 53.1, 359.99}), de0 = r.pick<double>({0.0, 2.2, -27.8, 60.0, 85.0, 90.0, -90.0, 0.0});
    double w = std::is_same<T,float>::value ? 10.0 : r.pick<double>({2.0/3600.0, 0.01, 0.5, 5.0, 40.0, 180.0}), wc = r.chance(1, 4) ? w/20 : w;
    int deg = r.in(0, 11); bool wrapped = r.chance(1, 3); double u2 = r.chance(1, 6) ? 0.2 : 1.0;
    auto gen = [&](std::size_t n, double s, vec<1,T>& x, vec<1,T>& y) { for (std::size_t i = 0; i < n; ++i) {
        double cd = std::max(0.02, std::cos(de0*dpi/180)); double a = ra0 + s*r.in(-500, 500)/500.0/(s > 90 ? 1.0 : cd), b = de0 + u2*s*r.in(-500, 500)/500.0;
        if (deg == 0) b = de0; if (deg == 1) a = ra0; if (deg == 2) { a = ra0; b = de0; } if (n > 1 && i > 0 && r.chance(1, 12)) { a = x[i-1]; b = y[i-1]; }
        if (b > 90) { b = 180 - b; a += 180; } if (b < -90) { b = -180 - b; a += 180; } if (b > 90) b = 90; if (b < -90) b = -90;
        if (wrapped) { while (a < 0) a += 360; while (a >= 360) a -= 360; } x.push_back(a); y.push_back(b); } };
    vec<1,T> x1, y1, x2, y2; gen(n1, w, x1, y1); if (r.chance(1, 5)) { ra0 += w; } gen(n2, wc, x2, y2);
    bool self = r.chance(1, 4); auto& X2 = self ? x1 : x2; auto& Y2 = self ? y1 : y2;
    double mx = 0; for (std::size_t i = 0; i < x1.size(); ++i) for (std::size_t j = 0; j < X2.size(); ++j) mx = std::max(mx, (double)sep(x1[i], y1[i], X2[j], Y2[j]));
    double s = mx > 324000.0 ? 1000.0 : mx > 1e-3 ? 9e8/mx : 1e6; int tol = mx > 324000.0 ? 50 : 4;
    if (mx > 1e-3 && s > 1e8) s = 1e8;
    auto fi = [&](obj& o) { o.n("tol", tol).raw("D", lst(x1.size(), [&](std::size_t i) { return lst(X2.size(), [&](std::size_t j) { return scaled(sep(x1[i], y1[i], X2[j], Y2[j]), s); }); })); };
    match(r, x1, y1, x2, y2, self, false, fi, [&](double d) { return scaled(d, s); });
    if (self && x1.size() < 15) { obj o("qdist"); o.n("n1", x1.size()); fi(o); rec(o, [&](obj& q) { auto z = qdist(x1, y1); q.raw("r", lst(z.size(), [&](std::size_t i) { return scaled(z.safe[i], s); })); }); }
}
static void bad(rng& r) {
    vec1d a = indgen<double>(r.in(1, 4)), b = a, c = indgen<double>(r.in(1, 14)), d = c; double z = r.pick<double>({dnan, dinf, -dinf}); qxmatch_params p = rpar(r, 4, r.chance(1, 2)); p.thread = 1;
    int k = r.in(0, 5); switch (k) { case 0: b.push_back(1); break; case 1: d.push_back(1); break; case 2: a[r.in(0, a.size()-1)] = z; break; case 3: b[r.in(0, a.size()-1)] = z; break; case 4: c[r.in(0, c.size()-1)] = z; break; default: d[r.in(0, c.size()-1)] = z; }
    obj o("bad"); o.n("k", k); rec(o, [&](obj& q) { qxmatch(a, b, c, d, p); q.n("r", 1); });
}
void vp::setup() {
    vp::add("linear", 260, 8000, [](rng& r, long i) { switch (i % 4) { case 0: linear<float>(r); break; default: linear<double>(r); } });
    vp::add("sky", 260, 8000, [](rng& r, long i) { if (i % 10 == 0) sky<float>(r); else sky<double>(r); });
    vp::add("bad", 30, 300, [](rng& r, long) { bad(r); });
}
