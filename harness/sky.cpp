// sky coordinates, photometric units, cosmological distances
#include "find.hpp"
#include "vif/utility/time.hpp"
#include "vif/io/fits.hpp"
#include "vif/astro/astro.hpp"
using namespace vif::astro; using std::string;
static const double U = 1800000.0; // per degree
static string un(double deg) { if (std::isnan(deg) || std::isinf(deg)) return vp::num(deg); double v = std::round(deg*U); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)v); }
static string pp(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); double v = std::round(x*s); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)v); }
template<class V> static string uns(const V& v) { string s = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += un(v.safe[i]); } return s + "]"; }
static long double sep(long double ra1, long double de1, long double ra2, long double de2) {
    const long double k = acosl(-1.0L)/180.0L;
    long double a[3] = {cosl(de1*k)*cosl(ra1*k), cosl(de1*k)*sinl(ra1*k), sinl(de1*k)}, b[3] = {cosl(de2*k)*cosl(ra2*k), cosl(de2*k)*sinl(ra2*k), sinl(de2*k)};
    long double c[3] = {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]};
    return atan2l(sqrtl(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]), a[0]*b[0]+a[1]*b[1]+a[2]*b[2])/k;
}
static double rra(rng& r) { switch (r.in(0, 3)) { case 0: return r.pick<int>({0, 90, 180, 270, 360, -90, -180, 359}); case 1: return r.in(-360, 360); default: return r.in(-10000, 360000)/1000.0; } }
static double rde(rng& r) { switch (r.in(0, 3)) { case 0: return r.pick<int>({0, 0, 90, -90, 60, -60}); case 1: return r.in(-90, 90); default: return r.in(-90000, 90000)/1000.0; } }
template<std::size_t D, class T> static void dists(rng& r, std::array<std::size_t,D> d) {
    vec<D,T> a, b; a.dims = b.dims = d; a.resize(); b.resize(); vec<D,double> a2, b2; a2.dims = b2.dims = d; a2.resize(); b2.resize();
    uint_t n = a.size(); int small = r.in(0, 3);
    for (uint_t i = 0; i < n; ++i) { a.safe[i] = rra(r); b.safe[i] = rde(r); if (small == 0) { a2.safe[i] = a.safe[i] + r.in(-50, 50)/(r.chance(1,2) ? 1e3 : 1e6); b2.safe[i] = std::max(-90.0, std::min(90.0, b.safe[i] + r.in(-50, 50)/(r.chance(1,2) ? 1e3 : 1e6))); } else { a2.safe[i] = r.chance(1,3) ? a.safe[i] + 180*r.in(-1, 2) : rra(r); b2.safe[i] = r.chance(1,4) ? -b.safe[i] : rde(r); } if (a2.safe[i] > 360) a2.safe[i] -= 360; }
    vec<D,double> m; m.dims = d; m.resize();
    auto meas = [&] { for (uint_t i = 0; i < n; ++i) m.safe[i] = sep(a.safe[i], b.safe[i], a2.safe[i], b2.safe[i]); };
    auto com = [&](obj& o) -> obj& { meas(); return o.raw("ra", uns(a)).raw("de", uns(b)).raw("ra2", uns(a2)).raw("de2", uns(b2)).raw("m", uns(m)).raw("d", vv::jd(a)); };
    { obj o("dist"); com(o); rec(o, [&](obj& q) { auto z = angdist(a, b, a2, b2); q.raw("r", uns(vec<D,double>(z/3600.0))).raw("rd", vv::jd(z)); }); }
    { obj o("dist"); com(o); rec(o, [&](obj& q) { auto z = angdist(a2, b2, a, b); q.raw("r", uns(vec<D,double>(z/3600.0))).raw("rd", vv::jd(z)); }); }
    { obj o("dist"); com(o); rec(o, [&](obj& q) { vec<D,double> z; z.dims = d; z.resize(); for (uint_t i = 0; i < n; ++i) z.safe[i] = angdist(a.safe[i], b.safe[i], a2.safe[i], b2.safe[i])/3600.0; q.raw("r", uns(z)).raw("rd", vv::jd(z)); }); }
    { obj o("dist"); com(o); rec(o, [&](obj& q) { vec<D,double> z; z.dims = d; z.resize(); double k = dpi/180; for (uint_t i = 0; i < n; ++i) z.safe[i] = angdistr(a.safe[i]*k, b.safe[i]*k, a2.safe[i]*k, b2.safe[i]*k)/k; q.raw("r", uns(z)).raw("rd", vv::jd(z)); }); }
    if (n > 0) { double A = a2.safe[0], B = b2.safe[0]; for (uint_t i = 0; i < n; ++i) { a2.safe[i] = A; b2.safe[i] = B; }
        { obj o("dist"); com(o); rec(o, [&](obj& q) { auto z = angdist(a, b, A, B); q.raw("r", uns(vec<D,double>(z/3600.0))).raw("rd", vv::jd(z)); }); }
        double rad = r.chance(1,2) ? m.safe[r.in(0, n-1)] : r.in(0, 180); rad *= r.pick<double>({1.0, 1.01, 0.99, 1.0001, 0.9999}); if (rad > 180) rad = 180;
        { obj o("less"); com(o); o.raw("rad", un(rad)); rec(o, [&](obj& q) { auto z = angdist_less(a, b, A, B, rad*3600.0); q.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    }
    auto b3 = b; b3.dims[0] += 1; b3.resize(); auto c3 = b2; c3.dims[0] += 1; c3.resize();
    obj o("mismatch"); o.n("k", 0); switch (r.in(0, 7)) { case 0: rec(o, [&](obj& q) { angdist(a, b3, a2, b2); q.n("r", 1); }); break; case 1: rec(o, [&](obj& q) { angdist(a, b, a2, c3); q.n("r", 1); }); break; case 2: rec(o, [&](obj& q) { angdist(a, b3, 1.0, 1.0); q.n("r", 1); }); break; case 3: rec(o, [&](obj& q) { angdist_less(a, b3, 1.0, 1.0, 3.0); q.n("r", 1); }); break;
        case 4: rec(o, [&](obj& q) { auto x = a; auto y = b3; move_ra_dec(x, y, 1.0, 1.0); q.n("r", 1); }); break; case 5: rec(o, [&](obj& q) { auto x = a; auto y = b3; normalize_coordinates(x, y); q.n("r", 1); }); break; default: rec(o, [&](obj& q) { angdist(a, b, c3, c3); q.n("r", 1); }); }
}
template<class T> static void norms(rng& r) {
    uint_t n = r.in(0, 5); vec<1,T> a(n), b(n); for (uint_t i = 0; i < n; ++i) { a.safe[i] = r.in(-4, 4)*90 + (r.chance(1,2) ? r.in(-89, 89) : 0); b.safe[i] = r.in(-4, 4)*90 + (r.chance(1,2) ? r.in(-89, 89) : 0); }
    { obj o("norm"); o.raw("ra", uns(a)).raw("de", uns(b)); rec(o, [&](obj& q) { auto x = a, y = b; normalize_coordinates(x, y); q.raw("r", uns(x)).raw("r2", uns(y)); }); }
    { obj o("norm"); o.raw("ra", uns(a)).raw("de", uns(b)); rec(o, [&](obj& q) { auto x = a, y = b; for (uint_t i = 0; i < n; ++i) { T p = x[i], s = y[i]; normalize_coordinates(p, s); x[i] = p; y[i] = s; } q.raw("r", uns(x)).raw("r2", uns(y)); }); }
    vec1d c(n), d(n); for (uint_t i = 0; i < n; ++i) { c.safe[i] = rra(r); d.safe[i] = r.in(-1, 1)*60; } double dra = r.in(-5000, 5000)/10.0, dde = r.in(-5000, 5000)/10.0;
    { obj o("move"); o.raw("ra", uns(c)).raw("de", uns(d)).raw("dra", un(dra/3600)).raw("dde", un(dde/3600)); rec(o, [&](obj& q) { auto x = c, y = d; move_ra_dec(x, y, dra, dde); q.raw("r", uns(x)).raw("r2", uns(y)); }); }
    { obj o("move"); o.raw("ra", uns(c)).raw("de", uns(d)).raw("dra", un(dra/3600)).raw("dde", un(dde/3600)); rec(o, [&](obj& q) { auto x = c, y = d; for (uint_t i = 0; i < n; ++i) move_ra_dec(x[i], y[i], dra, dde); q.raw("r", uns(x)).raw("r2", uns(y)); }); }
}
static void rots(rng& r) {
    vec1d a{0.0, 90.0}, b{0.0, 0.0}; uint_t n = r.in(0, 4); for (uint_t i = 0; i < n; ++i) { a.push_back(rra(r)); b.push_back(rde(r)); } double e = r.chance(1,2) ? r.in(-4, 4)*90 : r.in(-36000, 36000)/100.0;
    auto pairs = [&](const vec1d& x, const vec1d& y) { vec1d z; for (uint_t i = 0; i < x.size(); ++i) for (uint_t j = 0; j < i; ++j) z.push_back(sep(x[i], y[i], x[j], y[j])); return uns(z); };
    { obj o("rot"); o.raw("d1", pairs(a, b)).raw("e", un(e)); rec(o, [&](obj& q) { vec1d x, y; angrot_vernal(a, b, e, x, y); q.raw("d2", pairs(x, y)).raw("r", uns(x)).raw("r2", uns(y)); }); }
    for (uint_t i = 0; i < n; ++i) { double A = a[i+2], B = b[i+2]; if (sep(A, B, 0, 0) < 1 || sep(A, B, 180, 0) < 1) continue; // the direction must be defined
        obj o("vernal"); o.raw("a", un(A)).raw("b", un(B)); rec(o, [&](obj& q) { double v = vernal_angle(A, B); vec1d x, y; angrot_vernal(vec1d{A}, vec1d{B}, -v, x, y); q.raw("v", un(y[0])); }); }
}
static string sexs(rng& r, int hi, bool good) {
    auto two = [&](long v) { string s = std::to_string(v); return s.size() < 2 && r.chance(3,4) ? "0" + s : s; };
    string s = r.chance(1,3) ? "-" : r.chance(1,10) ? "+" : ""; s += two(r.chance(1,4) ? 0 : r.in(0, hi)); s += ":" + two(r.chance(1,5) ? 0 : r.in(0, 59)); string sec = two(r.chance(1,5) ? 59 : r.in(0, 59));
    if (r.chance(2,3)) { sec += "."; int k = r.in(1, 3); for (int i = 0; i < k; ++i) sec += char('0' + (r.chance(1,3) ? 9 : r.in(0, 9))); } s += ":" + sec;
    if (!good) { uint_t p = r.in(0, s.size()-1); switch (r.in(0, 5)) { case 0: s = s.substr(0, s.rfind(':')); break; case 1: s += ":1"; break; case 2: s[p] = 'x'; break; case 3: s = ""; break; case 4: { auto q = s.find(':'); s = s.substr(q); break; } default: { auto q = s.find(':'); s[q] = ' '; } } }
    return s;
}
static string txts(const vec1s& v) { string s = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += vp::num(v.safe[i]); } return s + "]"; }
static void sexa(rng& r) {
    uint_t n = r.in(1, 3); vec1s s1(n), s2(n); for (uint_t i = 0; i < n; ++i) { s1[i] = sexs(r, 23, !r.chance(1,8)); s2[i] = sexs(r, 90, !r.chance(1,8)); }
    { obj o("sex2deg"); o.raw("s1", txts(s1)).raw("s2", txts(s2)).raw("d", vv::jd(s1)); rec(o, [&](obj& q) { vec1d x, y; vec1b z = sex2deg(s1, s2, x, y); q.raw("r", vv::js(z)).raw("rd", vv::jd(z)).raw("ra", uns(x)).raw("de", uns(y)); }); }
    { obj o("sex2deg"); o.raw("s1", txts(s1)).raw("s2", txts(s2)).raw("d", vv::jd(s1)); rec(o, [&](obj& q) { vec1d x(n), y(n); vec1b z(n); for (uint_t i = 0; i < n; ++i) { double A = 1, B = 1; z[i] = sex2deg(s1[i], s2[i], A, B); x[i] = A; y[i] = B; } q.raw("r", vv::js(z)).raw("rd", vv::jd(z)).raw("ra", uns(x)).raw("de", uns(y)); }); }
    { obj o("mismatch"); o.n("k", 1); rec(o, [&](obj& q) { vec1d x, y; vec1s t = s2; t.push_back("1:2:3"); sex2deg(s1, t, x, y); q.n("r", 1); }); }
    auto near = [&](double unit, long hi) { switch (r.in(0, 4)) { case 0: return r.in(0, hi)*unit; case 1: return r.in(0, hi*60)*unit/60; case 2: return r.in(0, hi*3600)*unit/3600; case 3: return r.in(0, hi*60)*unit/60 - unit/3600*r.pick<double>({1e-7, 1e-6, 3e-5, 6e-5, 1e-4, 1e-3}); default: return r.in(0, hi*360000)*unit/360000; } };
    vec1d a(n), b(n); for (uint_t i = 0; i < n; ++i) { a[i] = near(15.0, 23)*(r.chance(1,3) ? -1 : 1); b[i] = near(1.0, 90)*(r.chance(1,2) ? -1 : 1); }
    { obj o("deg2sex"); o.raw("ra", uns(a)).raw("de", uns(b)); rec(o, [&](obj& q) { vec1s x, y; deg2sex(a, b, x, y); q.raw("s1", txts(x)).raw("s2", txts(y)); }); }
    { obj o("deg2sex"); o.raw("ra", uns(a)).raw("de", uns(b)); rec(o, [&](obj& q) { vec1s x(n), y(n); for (uint_t i = 0; i < n; ++i) deg2sex(a[i], b[i], x[i], y[i]); q.raw("s1", txts(x)).raw("s2", txts(y)); }); }
}
static void units(rng& r) {
    int k = r.in(-8, 12); double zp = r.pick<double>({23.9, 23.9, 25.0, 0.0}), x = std::pow(10.0, k), lam = r.in(1, 9000)/10.0, z = r.in(0, 80)/10.0, d = r.in(1, 50000), L = r.in(1, 1000)*1e9;
    { obj o("mag"); o.n("k", k).raw("zp", pp(zp, 1000)); rec(o, [&](obj& q) { double m = r.chance(1,2) ? uJy2mag(x, zp) : uJy2mag(vec1d{x}, zp)[0]; if (zp == 23.9 && r.chance(1,2)) m = uJy2mag(x); q.raw("r", pp(m, 1000)).raw("back", pp(mag2uJy(m, zp)/x, 1e6)); }); }
    { obj o("unit"); o.t("u", "cgs").n("expect", 29979); rec(o, [&](obj& q) { double f = uJy2cgs(lam, 5.0), b = cgs2uJy(lam*1e4, f)/5.0; vec1d vl{lam, 2*lam}; vec1d w = uJy2cgs(vl, 5.0); vec1d w2 = cgs2uJy(vl*1e4, w); q.raw("f", pp(f*lam*lam/5.0, 1e23)).raw("back", "[" + pp(b, 1e6) + "," + pp(w2[0]/5.0, 1e6) + "," + pp(w2[1]/5.0, 1e6) + "]"); }); }
    { obj o("unit"); o.t("u", "lsun").n("expect", 10703156); rec(o, [&](obj& q) { double f = lsun2uJy(z, d, lam, L); double b = uJy2lsun(z, d, lam*(1+z), f); q.raw("f", pp(f*d*d/(1+z)/lam/L, 1e9)).raw("back", "[" + pp(b/L, 1e6) + "]"); }); }
    { obj o("unit"); o.t("u", "absmag").n("expect", 10703156); rec(o, [&](obj& q) { double m = lsun2mag(lam, L, zp); q.raw("f", pp(std::pow(10.0, 0.4*(zp - m))/lam/L, 1e-1)).raw("back", "[" + pp(mag2lsun(lam, m, zp)/L, 1e6) + "]"); }); }
    const double CH = 2.99792458e5; cosmo_t c; c.H0 = r.pick<double>({70.0, 67.8, 50.0});
    { int s = r.in(2, 5); c.wm = 1; c.wL = 0; c.wk = 0; obj o("einstein"); o.n("s", s); rec(o, [&](obj& q) { double zz = s*s - 1.0; q.raw("dl", pp(lumdist(zz, c)*c.H0/CH, 1e5)).raw("lb", pp(lookback_time(zz, c)*c.H0*3.155e-3/3.09, 1e5)); }); }
    { int zz = r.in(1, 9); c.wm = 0; c.wL = 1; obj o("desitter"); o.n("z", zz); rec(o, [&](obj& q) { q.raw("dl", pp(lumdist(double(zz), c)*c.H0/CH, 1e5)); }); }
}
// vectors of redshifts against one at a time; relation between the distances; increasing
static void cosmo(rng& r, bool big) {
    cosmo_t c = get_cosmo(r.pick<string>({"std", "wmap", "plank"})); uint_t n = big ? r.in(1600, 1700) : r.in(0, 12); vec1d z(n); for (auto& x : z) x = r.chance(1,30) ? 0.0 : r.in(100, 9000)/1000.0; if (n > 2) z[1] = r.chance(1,2) ? 0.0 : -1.0;
    obj o("cosmo"); o.raw("d", vv::jd(z)).n("n", n); rec(o, [&](obj& q) {
        vec1d dl = lumdist(z, c), lb = lookback_time(z, c), ps = propsize(z, c), vu = vuniverse(z, c); long bad = 0; double tol = big ? 1e-4 : 1e-9; bool inc = true; long pl = -1;
        auto ne = [&](double a, double b) { return std::isinf(a) || std::isinf(b) ? a != b : !(std::fabs(a - b) <= tol*std::fabs(b)); };
        for (uint_t i = 0; i < n; ++i) { if (big && i % 40 != 1) continue; double t = z[i], l = lumdist(t, c); bad += ne(dl[i], l) + ne(lb[i], lookback_time(t, c)) + ne(ps[i], propsize(t, c)) + ne(vu[i], vuniverse(t, c)); if (t > 0) bad += ne(ps[i], l/std::pow(1+t, 2)*1000/3600*dpi/180) + ne(vu[i], 4.0/3.0*dpi*std::pow(l/(1+t), 3)); else bad += l != 0;
            if (pl >= 0 && t > z[pl] && t > 0 && z[pl] > 0) inc = inc && l > lumdist(z[pl], c) && lookback_time(t, c) > lookback_time(z[pl], c); pl = i; }
        q.n("bad", bad).n("inc", inc).raw("rd", vv::jd(dl)); });
}
void vp::setup() {
    vp::add("dist", 120, 6000, [](rng& r, long i) { switch (i % 3) { case 0: dists<1,double>(r, {{(std::size_t)r.in(0, 6)}}); break; case 1: dists<2,double>(r, vv::rdims<2>(r, 1, 3)); break; default: dists<1,int>(r, {{(std::size_t)r.in(1, 6)}}); } });
    vp::add("norm", 80, 4000, [](rng& r, long i) { if (i % 2) norms<double>(r); else norms<float>(r); });
    vp::add("rot", 80, 4000, [](rng& r, long) { rots(r); });
    vp::add("sex", 250, 10000, [](rng& r, long) { sexa(r); });
    vp::add("units", 60, 2000, [](rng& r, long) { units(r); });
    vp::add("cosmo", 12, 200, [](rng& r, long i) { cosmo(r, i % 6 == 5); });
}
