// convex hulls, areas of fields, region files and masks
#include "find.hpp"
#include "vif/reflex/reflex.hpp"
#include "vif/utility/time.hpp"
#include "vif/math/reduce.hpp"
#include "vif/math/convex_hull.hpp"
#include "vif/io/fits.hpp"
#include "vif/astro/astro.hpp"
#include "vif/astro/image.hpp"
#include "vif/astro/wcs.hpp"
#include "vif/astro/ds9.hpp"
#include <unistd.h>
using std::string; using namespace vif::astro;
static string whole(double x, double s = 1) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; double v = std::round(x); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::fabs(x - v) > 1e-6 ? std::to_string(vp::V_FRAC) : std::to_string((long)v); }
template<class V> static string wv(const V& v, double s = 1) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += whole(v.safe[i], s); } return r + "]"; }
static string fx(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; return std::fabs(x) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)std::round(x)); }
static vec1i ri(rng& r, std::size_t n, int k) { vec1i v(n); for (auto& t : v.data) t = r.in(-k, k); return v; }
template<class T> static vec<1,T> sc(const vec1i& v, double u) { vec<1,T> w(v.size()); for (uint_t i = 0; i < v.size(); ++i) w.safe[i] = v.safe[i]*u; return w; }

template<class T, class H> static void query(rng& r, const convex_hull<H>& h, double u) {
    std::size_t n = r.in(0, 6); vec1i px = ri(r, n, 8), py = ri(r, n, 8); vec<1,T> x = sc<T>(px, u), y = sc<T>(py, u); int way = r.in(0, 3);
    { obj o("in"); o.raw("hx", wv(h.x, 1/u)).raw("hy", wv(h.y, 1/u)).q("px", px).q("py", py); rec(o, [&](obj& q) {
        vec1b b(n); if (way == 0) for (uint_t i = 0; i < n; ++i) b[i] = in_convex_hull(x[i], y[i], h); else if (way == 1) b = flatten(in_convex_hull(reform(x, 1, n), reform(y, 1, n), h)); else if (way == 2) b = in_convex_hull(x[_], y[_], h); else b = in_convex_hull(x, y, h);
        q.q("r", b); }); }
    if (n) { obj o("dist"); o.raw("hx", wv(h.x, 1/u)).raw("hy", wv(h.y, 1/u)).q("px", px).q("py", py); rec(o, [&](obj& q) {
        string s = "["; vec1d b(n); if (way == 0) for (uint_t i = 0; i < n; ++i) b[i] = convex_hull_distance(x[i], y[i], h); else if (way == 1) b = flatten(convex_hull_distance(reform(x, 1, n), reform(y, 1, n), h)); else b = convex_hull_distance(x, y, h);
        for (uint_t i = 0; i < n; ++i) s += (i ? "," : "") + fx(b[i], 64/u); q.raw("r", s + "]"); }); }
}
template<class T> static void hulls(rng& r) {
    double u = std::is_integral<T>::value ? 1 : r.pick<double>({1, 0.5, 2}); std::size_t n = r.chance(1,4) ? r.in(0, 3) : r.in(3, 14); int k = r.pick<int>({1, 2, 6, 6}); vec1i x = ri(r, n, k), y = ri(r, n, k); if (r.chance(1,10)) for (auto& t : x.data) t = 1; if (r.chance(1,10)) y = 2*x + 1;
    for (auto& t : y.data) if (t > 6) t = 6; else if (t < -6) t = -6;
    convex_hull<T> h; bool ok = false;
    { obj o("build"); o.q("x", x).q("y", y); rec(o, [&](obj& q) { vec<1,T> tx = sc<T>(x, u), ty = sc<T>(y, u); if (r.chance(1,4) && n) h = build_convex_hull(tx[_], ty[_]); else h = build_convex_hull(tx, ty); q.raw("hx", wv(h.x, 1/u)).raw("hy", wv(h.y, 1/u)).n("closed", h.closed).n("orient", h.orient); ok = true; }); }
    if (!ok || h.size() < 4) return;
    if (r.chance(1,2)) query<T>(r, h, u); else query<double>(r, h, u);
    // a hull given by its vertices, either way around, starting anywhere, with additional vertices on the sides
    { vec<1,T> hx = h.x, hy = h.y; hx.resize(h.size() - 1); hy.resize(h.size() - 1); uint_t m = hx.size(); uint_t s = r.in(0, m-1); vec<1,T> gx, gy; bool rev = r.chance(1,2), extra = r.chance(1,2);
      for (uint_t i = 0; i < m; ++i) { uint_t a = (s + i) % m, b = (a + 1) % m; gx.push_back(hx[a]); gy.push_back(hy[a]); double mx = 0.5*hx[a] + 0.5*hx[b], my = 0.5*hy[a] + 0.5*hy[b]; if (extra && std::floor(mx/u) == mx/u && std::floor(my/u) == my/u && r.chance(2,3)) { gx.push_back(mx); gy.push_back(my); } }
      gx.push_back(gx[0]); gy.push_back(gy[0]); if (rev) { gx = reverse(gx); gy = reverse(gy); }
      if (r.chance(1,6)) { obj o("bad"); int kk = r.in(0, 2); rec(o, [&](obj& q) { q.n("x", 0); if (kk == 0) { gx.resize(gx.size()-1); gy.resize(gy.size()-1); convex_hull<T> g(gx, gy); in_convex_hull(T(0), T(0), g); } else if (kk == 1) { gx.resize(2); gy.resize(2); convex_hull<T> g(gx, gy); } else { gx.resize(gx.size()-1); convex_hull<T> g(gx, gy); } }); return; }
      convex_hull<T> g; int way = r.in(0, 2); obj o("build"); int e = vp::guard([&] { if (way == 0) g = convex_hull<T>(gx, gy); else if (way == 1) { g.x = gx; g.y = gy; } else { g = h; convex_hull_distance(1.0, 1.0, g); g.x = gx; g.y = gy; g.mark_as_dirty(); } }); if (e != 1) { o.n("ok", e); vp::emit(o); return; }
      query<T>(r, g, u); }
}
static void areas(rng& r) {
    std::size_t n = r.in(0, 12); vec1i x = ri(r, n, 7), y = ri(r, n, 7); if (r.chance(1,8)) for (auto& t : y.data) t = 3; if (r.chance(1,8)) y = x; double dec = r.pick<double>({0, 0, 60, -60}), ra = r.pick<double>({10, 150.5, -3, 200}); int way = r.in(0, 2);
    vec1d xd = sc<double>(x, 0.01) + ra, yd = sc<double>(y, 0.01) + dec;
    { obj o("area"); int e = vp::guard([&] { auto h = build_convex_hull(x, y); o.q("hx", h.x).q("hy", h.y).n("sc", dec == 0 ? 100 : 50); }); (void)e; rec(o, [&](obj& q) { double a = way == 0 ? field_area_hull(build_convex_hull(xd, yd)) : way == 1 ? field_area_hull(xd, yd) : field_area(xd, yd); q.raw("r", fx(a, 1e6)); }); }
    if (r.chance(1,4)) { std::size_t a = r.in(5, 12), b = r.in(5, 12); vec1d p, q2; for (uint_t i = 0; i < a; ++i) for (uint_t j = 0; j < b; ++j) { p.push_back(ra + 0.01*i); q2.push_back(dec + 0.01*j); } obj o("lattice"); o.n("n", a).n("m", b).n("sc", dec == 0 ? 100 : 50); rec(o, [&](obj& q) { q.raw("r", fx(r.chance(1,2) ? field_area(p, q2) : field_area_h2d(p, q2), 1e6)); }); }
    if (r.chance(1,6)) { std::size_t a = r.in(20, 30); vec1d p = 0.01*indgen<double>(a) + ra, q2 = replicate(dec, a); if (r.chance(1,2)) std::swap(p, q2); if (r.chance(1,4)) p = replicate(20.0, a), q2 = replicate(10.0, a); obj o("aligned"); rec(o, [&](obj& q) { q.raw("r", fx(field_area(p, q2), 1e6)); }); }
}
static string sp(rng& r) { return r.chance(1,3) ? " " : ""; }
static string c100(long v) { char b[40]; std::snprintf(b, sizeof b, "%s%ld.%02ld", v < 0 ? "-" : "", std::labs(v)/100, std::labs(v)%100); string s = b; return s; }
static string rego(const ds9::region& g) { return obj().t("t", g.type).n("phys", g.physical).t("color", g.color).t("text", g.text).raw("p", wv(g.params, 100)).done(); }
static string regs_(const vec<1,ds9::region>& v) { string s = "["; for (uint_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + rego(v.safe[i]); return s + "]"; }
struct tmpf { string p; tmpf() { p = "regions." + std::to_string(getpid()) + ".reg"; } ~tmpf() { unlink(p.c_str()); } };
static void readr(rng& r) {
    tmpf f; string txt, js = "["; uint_t n = r.in(0, 8); bool first = true; bool phys = false;
    auto add = [&](const string& t, obj o) { txt += t; txt += (txt.size() && r.chance(1,50)) ? "\n\n" : "\n"; js += (first ? "" : ",") + o.done(); first = false; };
    for (uint_t i = 0; i < n; ++i) switch (r.in(0, 9)) {
        case 0: { string s = r.pick<string>({"physical", "fk5", "physical", "image", "icrs"}); if (s == "image" && r.chance(1,1)) s = "fk5"; phys = s == "physical"; add(sp(r) + s + sp(r), obj().t("k", "sys").t("name", s)); break; }
        case 1: { string c = r.pick<string>({"red", "blue", "yellow", ""}); add("global" + string(r.chance(1,2) ? " width=1" : "") + (c.empty() ? "" : " color=" + c) + (r.chance(1,2) ? " dash=0" : ""), obj().t("k", "global").t("color", c)); break; }
        case 2: add(r.pick<string>({"# circle(1,2,3\")", "", "   ", " # physical", "#"}), obj().t("k", "other")); break;
        default: {
            string t = r.pick<string>({"circle", "box", "circle", "box", "circle", "box", "circle", "box", "ellipse"}); uint_t na = t == "circle" ? 3 : 5; if (r.chance(1,12)) na = r.in(1, 6);
            bool sex = r.chance(1, phys ? 12 : 4), suf = r.chance(1,12) ? phys : !phys; string a = "["; string s = sp(r) + t + sp(r) + "(";
            for (uint_t k = 0; k < na; ++k) { long v = r.in(-3000, 3000); string w; bool bad = r.chance(1,40); if (k >= 2 && k < (t == "circle" ? 3u : 4u)) v = std::labs(v);
                if (sex && k < 2) { if (bad) { w = "1:2:3:x"; bad = true; } else if (k == 0) { long hh = r.in(0, 23), mm = r.in(0, 59); v = 1500*hh + 25*mm; char b[40]; std::snprintf(b, sizeof b, "%ld:%02ld:00", hh, mm); w = b; } else { long d = r.in(-89, 89), q = r.in(0, 3); v = (d < 0 ? -1 : 1)*(100*std::labs(d) + 25*q); char b[40]; std::snprintf(b, sizeof b, "%s%ld:%02ld:00.0", d < 0 ? "-" : "+", std::labs(d), 15*q); w = b; } }
                else { w = c100(v); if (bad) w = r.pick<string>({"abc", "", "1.2.3", "1;5"}); }
                if (suf && k >= 2 && k < (t == "circle" ? 3u : 4u)) w += "\""; s += (k ? "," + sp(r) : "") + sp(r) + w + sp(r); a += (k ? "," : "") + (bad ? std::to_string(vp::V_NAN) : std::to_string(v)); }
            s += ")"; string col, tex; bool opts = r.chance(1,2); if (opts) { s += " #"; if (r.chance(2,3)) { col = r.pick<string>({"red", "cyan"}); s += " color=" + col; } if (r.chance(1,2)) s += " width=2"; if (r.chance(1,2)) { tex = r.pick<string>({"abc", "{x}"}); s += "\ttext=" + tex; } if (r.chance(1,2)) s += " dash=1"; }
            add(s, obj().t("k", "region").t("t", t).raw("a", a + "]").n("sex", sex).n("suf", suf).t("color", col).t("text", tex)); } }
    { std::ofstream o(f.p); o << txt; }
    obj o("read"); o.raw("lines", js + "]"); rec(o, [&](obj& q) { vec<1,ds9::region> g; ds9::read_regions(f.p, g); q.raw("r", regs_(g)); });
    if (r.chance(1,20)) { unlink(f.p.c_str()); obj b("bad"); rec(b, [&](obj& q) { vec<1,ds9::region> g; ds9::read_regions(f.p, g); q.n("x", 0); }); }
}
static void writer(rng& r) {
    tmpf f; vec<1,ds9::region> g; uint_t n = r.in(0, 4); for (uint_t i = 0; i < n; ++i) { ds9::region x; x.type = r.pick<string>({"circle", "box"}); x.color = "green"; x.params = sc<double>(ri(r, x.type == "box" ? 5 : 3, 3000), 0.01); g.push_back(x); }
    if (n && r.chance(1,10)) { uint_t i = r.in(0, n-1); bool t = r.chance(1,2); if (t) g[i].type = "ellipse"; else g[i].physical = false; obj o("bad"); rec(o, [&](obj& q) { ds9::write_regions_physical(f.p, g); q.n("x", 0); }); return; }
    obj o("write"); o.raw("regs", regs_(g)); rec(o, [&](obj& q) { ds9::write_regions_physical(f.p, g); vec<1,ds9::region> h; if (r.chance(1,2)) ds9::read_regions(f.p, h); else ds9::read_regions_physical(f.p, h); q.raw("r", regs_(h)); });
}
static void masks(rng& r) {
    tmpf f; std::size_t d0 = r.in(1, 9), d1 = r.in(1, 9); vec2b m(d0, d1); for (auto& t : m.data) t = r.chance(1,10); vec<1,ds9::region> g; string js = "["; uint_t n = r.in(1, 3);
    static const int T[][3] = {{1,0,1}, {1,0,1}, {1,0,1}, {0,1,1}, {-1,0,1}, {0,-1,1}, {4,3,5}, {3,4,5}, {-3,4,5}, {4,-3,5}, {-4,-3,5}};
    for (uint_t i = 0; i < n; ++i) { ds9::region x; x.type = r.pick<string>({"circle", "box"}); vec1i p = {int(r.in(-6, 22)), int(r.in(-6, 22)), int(r.in(1, 10)), int(r.in(1, 10))}; string cs = "[1,0,1]"; bool edge = r.chance(1,3); if (edge) { x.type = "box"; p[2] = 2*r.in(1, 5); p[3] = 2*r.in(1, 5); int a = r.in(0, 1); p[a] = r.chance(1,2) ? 2*(int(a ? d0 : d1) - 1) + p[a+2]/2 : -p[a+2]/2; p[1-a] = r.in(0, 2*int(a ? d1 : d0)); } x.params = sc<double>(p, 0.5);
        if (x.type == "circle") { p.resize(3); x.params.resize(3); } else { auto& t = T[edge ? 0 : r.in(0, 10)]; x.params.push_back(std::atan2(t[1], t[0])*180/dpi + (r.chance(1,8) && t[2] == 5 ? 360 : 0)); cs = "[" + std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + "]"; }
        g.push_back(x); js += (i ? "," : "") + obj().t("t", x.type).q("p", p).raw("cs", cs).done(); }
    obj o("mask"); o.n("w", r.in(0, 9)); std::array<std::size_t,2> d{{d0, d1}}; o.q("d", d).q("m", m).raw("regs", js + "]"); int way = r.in(0, 2);
    rec(o, [&](obj& q) { vec2b k = m; if (way == 0) for (auto& x : g) ds9::mask_region(x, k); else if (way == 1) ds9::mask_regions(g, k); else { ds9::write_regions_physical(f.p, g); ds9::mask_regions(f.p, k); } q.q("r", k); });
}
void vp::setup() {
    vp::add("hulls", 120, 8000, [](rng& r, long) { hulls<double>(r); });
    vp::add("hullf", 40, 3000, [](rng& r, long) { hulls<float>(r); });
    vp::add("hulli", 60, 4000, [](rng& r, long) { hulls<int>(r); });
    vp::add("areas", 80, 5000, [](rng& r, long) { areas(r); });
    vp::add("regions", 150, 8000, [](rng& r, long) { readr(r); });
    vp::add("writing", 50, 3000, [](rng& r, long) { writer(r); });
    vp::add("masks", 300, 8000, [](rng& r, long) { masks(r); });
}
