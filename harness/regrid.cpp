// images put on other grids, cutouts, stacks
#include "find.hpp"
#include "vif/reflex/reflex.hpp"
#include "vif/utility/time.hpp"
#include "vif/math/reduce.hpp"
#include "vif/math/random.hpp"
#include "vif/math/convex_hull.hpp"
#include "vif/io/fits.hpp"
#include "vif/io/filesystem.hpp"
#include "vif/astro/astro.hpp"
#include "vif/astro/image.hpp"
#include "vif/astro/wcs.hpp"
#include "vif/astro/qstack.hpp"
#include <unistd.h>
using std::string; using namespace vif::astro;
static string whole(double x, double s = 1, double tol = 1e-4) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; double v = std::round(x); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::fabs(x - v) > tol ? std::to_string(vp::V_FRAC) : std::to_string((long)v); }
template<class V> static string wv(const V& v, double s = 1, double tol = 1e-4) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + whole(v.safe[i], s, tol); return r + "]"; }
static string list(const std::vector<string>& v) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
template<class T> static string planes(const vec<3,T>& v) { std::vector<string> l; uint_t n = v.dims[1]*v.dims[2]; for (uint_t k = 0; k < v.dims[0]; ++k) { vec<1,double> p(n); for (uint_t i = 0; i < n; ++i) p.safe[i] = v.safe[k*n + i]; l.push_back(wv(p)); } return list(l); }
static string card(const string& k, const string& v) { string c = k; c.resize(8, ' '); c += "= " + v; c.resize(80, ' '); return c; }
static string real_(double x) { char b[60]; std::snprintf(b, sizeof b, "%20.14G", x); return b; }
struct grid { int d[2]; int c[2]; int m[2][2]; int s; int q = 1, f = 1; }; // q: unit of the pair, f: of this matrix
static grid mk(rng& r, bool plain = false, int nmax = 5) {
    grid g; static const int M[][4] = {{-1,0,0,1}, {1,0,0,1}, {0,1,1,0}, {0,-1,1,0}, {0,1,-1,0}, {1,0,0,-1}, {-1,0,0,-1}, {0,-1,-1,0}}; auto& t = M[plain ? 0 : r.in(0, 7)]; for (int i = 0; i < 4; ++i) g.m[i/2][i%2] = t[i];
    for (int i = 0; i < 2; ++i) { g.d[i] = r.in(1, nmax); g.c[i] = r.in(0, 4*g.d[i] + 6); } g.s = r.in(1, 4); return g;
}
static string body(const grid& g) { return obj().q("d", std::vector<int>{g.d[0], g.d[1]}).q("c", std::vector<int>{g.c[0], g.c[1]}).raw("m", "[[" + std::to_string(g.m[0][0]) + "," + std::to_string(g.m[0][1]) + "],[" + std::to_string(g.m[1][0]) + "," + std::to_string(g.m[1][1]) + "]]").n("s", g.s).n("q", g.q).done(); }
static string body(const grid& g, const vec2d& p) { string b = body(g); b.resize(b.size() - 1); return b + ",\"p\":" + wv(p) + "}"; }
// planes: other axis after the sky; size: with the sizes of the axes
static fits::header head(const grid& g, uint_t planes = 0, bool size = true) {
    int n = planes ? 3 : 2; string h; if (size) { h += card("NAXIS", std::to_string(n)); for (int i = 0; i < 2; ++i) h += card("NAXIS" + std::to_string(i+1), std::to_string(g.d[i])); if (planes) h += card("NAXIS3", std::to_string(planes)); }
    for (int i = 0; i < 2; ++i) { string I = std::to_string(i+1); h += card("CTYPE" + I, i ? "'DEC--TAN'" : "'RA---TAN'") + card("CRPIX" + I, real_(g.c[i]*0.25)) + card("CRVAL" + I, real_(i ? 2 : 150)); for (int j = 0; j < 2; ++j) h += card("CD" + I + "_" + std::to_string(j+1), real_(g.m[i][j]*g.s*0.01/g.f)); }
    if (planes) h += card("CTYPE3", "'FREQ    '") + card("CRPIX3", "1") + card("CRVAL3", "1000") + card("CD3_3", "1") + card("CUNIT3", "'Hz'"); return h + "END" + string(77, ' ');
}
static vec2d pic(rng& r, const grid& g, bool nan = false) { vec2d v(g.d[1], g.d[0]); for (auto& t : v.data) t = nan && r.chance(1,8) ? dnan : r.in(-9, 20); return v; }
static void pair(rng& r, grid& a, grid& b) {
    a = mk(r); b = mk(r); if (r.chance(1,2)) b.s = a.s; if (r.chance(1,2)) for (int i = 0; i < 4; ++i) b.m[i/2][i%2] = a.m[i/2][i%2]; if (r.chance(1,3)) for (int i = 0; i < 2; ++i) b.c[i] = a.c[i] + 4*r.in(-2, 2); if (r.chance(1,10)) b = a;
}
// one of the grids turned by a 3-4-5 angle
static void turn(rng& r, grid& a, grid& b) {
    static const int T[][4] = {{3,-4,4,3}, {4,-3,3,4}, {3,4,-4,3}, {4,3,-3,4}}; auto& t = T[r.in(0, 3)]; grid& g = r.chance(1,2) ? a : b; int m[2][2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m[i][j] = t[2*i]*g.m[0][j] + t[2*i+1]*g.m[1][j]; for (int i = 0; i < 4; ++i) g.m[i/2][i%2] = m[i/2][i%2]; g.f = 5; a.q = b.q = 5;
}
static void drizzle(rng& r, bool rot = false) {
    grid a, b; pair(r, a, b); if (rot) { for (int i = 0; i < 2; ++i) { a.d[i] = std::min(a.d[i], 3); b.d[i] = std::min(b.d[i], 3); a.c[i] = r.in(0, 16); b.c[i] = r.in(0, 16); } a.s = r.in(1, 3); b.s = r.in(1, 3); turn(r, a, b); } double z2 = rot ? 2*480*480 : 64; uint_t np = r.in(1, 3); bool cube = np > 1 || r.chance(1,4); int p = r.chance(1,2) ? 4 : r.in(1, 4); regrid_drizzle_params o; o.pixfrac = 0.25*p; o.linearize = r.chance(1,2); o.dest_pixfrac = r.chance(1,3); if (!cube) np = 1;
    std::vector<vec2d> im; std::vector<string> l; for (uint_t k = 0; k < np; ++k) { im.push_back(pic(r, a)); l.push_back(wv(im[k])); } vec3d c(np, a.d[1], a.d[0]); for (uint_t k = 0; k < np; ++k) c(k,_,_) = im[k];
    obj e(rot ? "drizr" : "driz"); e.raw("a", body(a)).raw("b", body(b)).n("p", p).n("lin", o.linearize).raw("img", list(l));
    rec(e, [&](obj& q) { wcs wa(head(a, cube ? np : 0)), wb(head(b, r.chance(1,3) ? 2 : 0)); vec2d w; vec3d x; bool nw = r.chance(1,4); if (cube) { x = regrid_drizzle(c, wa, wb, w, o); if (nw) x = regrid_drizzle(c, wa, wb, o); } else { vec2d y; if (r.chance(1,3)) { vec2i yi = im[0]; y = regrid_drizzle(yi, wa, wb, w, o); } else y = regrid_drizzle(im[0], wa, wb, w, o); if (nw) y = regrid_drizzle(im[0], wa, wb, o); x = reform(y, 1, y.dims[0], y.dims[1]); }
        bool dm = w.dims[0] == uint_t(b.d[1]) && w.dims[1] == uint_t(b.d[0]) && x.dims[1] == w.dims[0] && x.dims[2] == w.dims[1]; if (!dm) { q.raw("w", "[]").raw("r", "[]"); return; } std::vector<string> out; for (uint_t k = 0; k < x.dims[0]; ++k) { vec1d t(w.size()); for (uint_t i = 0; i < w.size(); ++i) t.safe[i] = w.safe[i] < 1e-9 ? dnan : x.safe[k*w.size() + i]*w.safe[i]; out.push_back(wv(t, z2*a.s*a.s, rot ? 1 : 1e-4)); } q.raw("w", wv(w, z2*b.s*b.s, rot ? 1 : 1e-4)).raw("r", list(out)); });
    if (r.chance(1,10)) { obj z("bad"); rec(z, [&](obj& q) { grid a2 = a; a2.d[r.in(0, 1)] += 1; wcs wa(head(a2)), wb(head(b)); regrid_drizzle(im[0], wa, wb, o); q.n("x", 0); }); }
}
static void interp(rng& r) {
    grid a, b; pair(r, a, b); bool rot = r.chance(1,3); regrid_interpolate_params o; o.linearize = r.chance(1,2); o.conserve_flux = r.chance(1,2); int k = r.in(0, 2); o.method = k == 0 ? interpolation_method::nearest : k == 1 ? interpolation_method::linear : interpolation_method::cubic; if (k) for (int i = 0; i < 2; ++i) if (a.d[i] < 2*k) { a.d[i] = 2*k + r.in(0, 2); }
    if (rot) { a.s = r.in(1, 2); b.s = r.in(1, 2); for (int i = 0; i < 2; ++i) { a.c[i] = 2*a.d[i] + 2 + r.in(-3, 3); b.c[i] = 2*b.d[i] + 2 + r.in(-3, 3); } turn(r, a, b); }
    vec2d im = pic(r, a, k == 0); if (k == 2) { long u = r.in(-5, 5), v = r.in(-5, 5), w = r.in(-5, 5); for (uint_t y = 0; y < im.dims[0]; ++y) for (uint_t x = 0; x < im.dims[1]; ++x) im(y,x) = u + v*int(x) + w*int(y); }
    obj e("interp"); e.raw("a", body(a)).raw("b", body(b)).t("how", k == 0 ? "nearest" : k == 1 ? "linear" : "cubic").n("flux", o.conserve_flux).n("lin", o.linearize).raw("img", wv(im));
    rec(e, [&](obj& q) { wcs wa(head(a, r.chance(1,3) ? 2 : 0)), wb(head(b, r.chance(1,3) ? 2 : 0)); vec2d x = regrid_interpolate(im, wa, wb, o); if (x.dims[0] != uint_t(b.d[1]) || x.dims[1] != uint_t(b.d[0])) { q.raw("r", "[]"); return; } q.raw("r", wv(x, 16*std::pow(a.s, 4)*a.q*a.q, rot ? 0.2 : 1e-4)); });
}
struct files { std::vector<string> f; string base; files() { static int k = 0; base = "rg." + std::to_string(getpid()) + "." + std::to_string(++k); } string add(const string& e) { f.push_back(base + "." + std::to_string(f.size()) + e); unlink(f.back().c_str()); return f.back(); } ~files() { for (auto& s : f) unlink(s.c_str()); } };
// images of one field
struct field { std::vector<grid> g; std::vector<vec2d> p; string js, name; };
static string section(files& fs, const std::vector<string>& n) { string s = fs.add(".sectfits"); std::ofstream o(s); o << "# sections\n"; for (auto& t : n) o << t << "\n"; o << "\n"; return s; }
static string wr(files& fs, const grid& g, const vec2d& p, int dbl, bool deg = false) { string f = fs.add(".fits"); if (deg && g.d[0] > 1 && g.d[1] > 1) { vec3d c = reform(p, 1, p.dims[0], p.dims[1]); if (dbl) fits::write(f, c, head(g, 1, false)); else fits::write(f, vec3f(c), head(g, 1, false)); } else if (dbl == 2) fits::write(f, vec2i(p), head(g, 0, false)); else if (dbl) fits::write(f, p, head(g, 0, false)); else fits::write(f, vec2f(p), head(g, 0, false)); return f; }
static field mkf(rng& r, files& fs, bool many, bool nan, double off = 0, const field* like = nullptr, int type = -1, bool deg = false) {
    field d; uint_t n = like ? like->g.size() : many ? r.in(1, 3) : 1; std::vector<string> nm, l; grid b = mk(r, true, 7); for (uint_t i = 0; i < n; ++i) { grid g = like ? like->g[i] : mk(r, true, 8); if (!like) { g.s = b.s; if (r.chance(1,2)) { g.d[0] += 3; g.d[1] += 3; } } d.g.push_back(g); d.p.push_back(like ? vec2d(like->p[i] + off) : pic(r, g, nan)); nm.push_back(wr(fs, g, d.p[i], type >= 0 ? type : int(r.chance(1,2)), deg && r.chance(1,3))); l.push_back(body(g, d.p[i])); }
    d.js = list(l); d.name = n == 1 && r.chance(1,2) ? nm[0] : section(fs, nm); return d;
}
static void where_(rng& r, const field& f, int v[2]) { const grid& g = f.g[r.in(0, f.g.size()-1)]; for (int i = 0; i < 2; ++i) { v[i] = r.in(-8, 4*g.d[i] + 12) - g.c[i]; bool bad = true; while (bad) { bad = false; for (auto& h : f.g) if ((((h.c[i] + v[i]) % 4) + 4) % 4 == 2) bad = true; if (bad) ++v[i]; } } }
static bool fixable(const field& f) { for (int i = 0; i < 2; ++i) { bool some = false; for (int v = 0; v < 4; ++v) { bool ok = true; for (auto& h : f.g) if (((h.c[i] + v) % 4) == 2) ok = false; some = some || ok; } if (!some) return false; } return true; }
static void cutouts(rng& r) {
    files fs; int way = r.in(0, 3); bool fin = way >= 2; field f = mkf(r, fs, !fin, !fin, 0, nullptr, way == 3 ? 2 : way == 0 ? -1 : 0); if (!fixable(f)) return; double as = f.g[0].s*36.0; cutout_extractor x; fits::header hdr; vp::guard([&] { x.setup_image(f.name); }); wcs w0(head(f.g[0]));
    for (int k = r.in(1, 3); k > 0; --k) { int v[2]; where_(r, f, v); int h = r.in(1, 3); double size = as*(2*h - r.pick<double>({0.3, 1.0, 1.7})); if (h == 1 && r.chance(1,4)) size = 0; double ra, dec; xy2ad(w0, 0.25*(f.g[0].c[0] + v[0]), 0.25*(f.g[0].c[1] + v[1]), ra, dec); bool gh = r.chance(2,3); double def = fin ? r.in(-3, 3) : dnan; if (way == 3) def = 0;
        obj e("cut"); e.raw("g", f.js).q("v", std::vector<int>{v[0], v[1]}).n("h", h).raw("def", vp::num(def)).n("hdr", gh); rec(e, [&](obj& q) { vec2d c; bool good; 
            if (way == 0) { good = gh ? x.get_cutout(c, hdr, ra, dec, size) : x.get_cutout(c, ra, dec, size); } else if (way == 1) { vec2f t; good = gh ? x.get_cutout(t, hdr, ra, dec, size) : x.get_cutout(t, ra, dec, size, dnan); c = t; } else if (way == 2) { vec2f t; good = gh ? x.get_cutout(t, hdr, ra, dec, size, def) : x.get_cutout(t, ra, dec, size, int(def)); c = t; } else { vec2i t; good = gh ? x.get_cutout(t, hdr, ra, dec, size) : x.get_cutout(t, ra, dec, size, def); c = t; }
            q.n("good", good).raw("r", wv(c)); if (gh) { vec1u n(2); vec1d k2 = {-1, -1}; fits::getkey(hdr, "NAXIS1", n[0]); fits::getkey(hdr, "NAXIS2", n[1]); fits::getkey(hdr, "CRPIX1", k2[0]); fits::getkey(hdr, "CRPIX2", k2[1]); wcs w2(hdr); vec1d xy(2); ad2xy(w2, ra, dec, xy[0], xy[1]); double ps = -1; get_pixel_size(w2, ps); q.q("n", n).raw("key", wv(k2, 4)).raw("x", wv(xy, 4)).n("size", std::fabs(ps/as - 1) < 1e-3); } }); }
}
static string posn(const std::vector<std::array<int,2>>& v) { string s = "["; for (uint_t i = 0; i < v.size(); ++i) s += (i ? ",[" : "[") + std::to_string(v[i][0]) + "," + std::to_string(v[i][1]) + "]"; return s + "]"; }
template<class T> static void stacks(rng& r) {
    files fs; int way = r.in(0, 3); field f = mkf(r, fs, way != 2, r.chance(1,2), 0, nullptr, -1, true); if (!fixable(f)) return; wcs w0(head(f.g[0])); uint_t n = r.in(0, 5); std::vector<std::array<int,2>> vs; vec1d ra(n), dec(n); for (uint_t i = 0; i < n; ++i) { int v[2]; where_(r, f, v); vs.push_back({{v[0], v[1]}}); xy2ad(w0, 0.25*(f.g[0].c[0] + v[0]), 0.25*(f.g[0].c[1] + v[1]), ra[i], dec[i]); }
    uint_t h = r.in(0, 2); qstack_params p; bool kn = r.chance(1,2), so = r.chance(1,2), ss = r.chance(1,2); if (kn) p.keep_nan = true; if (so) p.save_offsets = true; if (ss) p.save_section = true; string name = f.name; 
    if (way <= 1) { bool pre = r.chance(1,3); vec1u ids; vec<3,T> cube; uint_t np = 0; if (pre) { np = r.in(1, 3); for (uint_t i = 0; i < np; ++i) { ids.push_back(r.in(0, 4)); cube.push_back(vec<2,T>(replicate(T(7), 2*h+1, 2*h+1))); } }
        obj e("stack"); e.raw("g", f.js).raw("v", posn(vs)).n("h", h).n("keep", kn).n("off", so).n("sec", ss).q("pre", ids); rec(e, [&](obj& q) { auto out = qstack(ra, dec, name, h, cube, ids, p); bool kept = true; for (uint_t i = 0; i < np*(2*h+1)*(2*h+1); ++i) kept = kept && cube.safe[i] == 7; vec<3,T> c2; c2.dims = cube.dims; c2.dims[0] -= np; c2.resize(); for (uint_t i = 0; i < c2.size(); ++i) c2.safe[i] = cube.safe[np*(2*h+1)*(2*h+1) + i]; q.q("ids", ids).raw("cubes", kept ? planes(c2) : "\"lost\"").raw("dx", wv(out.dx, 4)).raw("dy", wv(out.dy, 4)).q("sect", out.sect); }); }
    else if (way == 2) { vec2d wt = pic(r, f.g[0], r.chance(1,2)); string wn = wr(fs, f.g[0], wt, true, r.chance(1,4)); name = fs.f[0];
        obj e("wstack"); e.raw("g", f.js).raw("w", wv(wt)).raw("v", posn(vs)).n("h", h).n("keep", kn).n("off", so).n("sec", ss); rec(e, [&](obj& q) { vec<3,T> cube, wcube; vec1u ids; auto out = qstack(ra, dec, name, wn, h, cube, wcube, ids, p); q.q("ids", ids).raw("cubes", planes(cube)).raw("wcubes", planes(wcube)).raw("dx", wv(out.dx, 4)).raw("dy", wv(out.dy, 4)).q("sect", out.sect); }); }
    else { field g = mkf(r, fs, true, false, 100, &f); if (!ends_with(f.name, ".sectfits") && !ends_with(g.name, ".sectfits")) return; 
        obj e("wsect"); e.raw("g", f.js).raw("v", posn(vs)).n("h", h).n("keep", kn).n("off", so).n("sec", ss).raw("pre", "[]"); rec(e, [&](obj& q) { vec<3,T> cube, wcube; vec1u ids; auto out = qstack(ra, dec, f.name, g.name, h, cube, wcube, ids, p); q.q("ids", ids).raw("cubes", planes(cube)).raw("wcubes", planes(wcube)).raw("dx", wv(out.dx, 4)).raw("dy", wv(out.dy, 4)).q("sect", out.sect); }); }
    if (r.chance(1,12)) { obj z("bad"); rec(z, [&](obj& q) { vec<3,T> c; vec1u ids; vec1d d2 = dec; d2.push_back(0); if (r.chance(1,2)) qstack(ra, d2, name, h, c, ids); else qstack(ra, dec, "nothing.fits", h, c, ids); q.n("x", 0); }); }
}
static void means(rng& r) {
    uint_t n = r.in(1, 5), a = r.in(1, 3), b = r.in(1, 3); vec3d f(n, a, b), w(n, a, b); for (auto& t : f.data) t = r.in(-9, 9); for (auto& t : w.data) t = r.in(1, 5);
    { obj e("wmean"); e.raw("f", planes(f)).raw("w", planes(w)); rec(e, [&](obj& q) { vec2d m = qstack_mean(f, w); vec2d t = partial_total(0, w); q.raw("r", m.dims[0] == a && m.dims[1] == b ? wv(vec2d(m*t)) : "[]"); }); }
    vec3d id(n, 1, 1), wd(n, 1, 1); for (uint_t i = 0; i < n; ++i) { id[i] = i + 1; wd[i] = 101 + i; } uint_t nb = r.in(0, 4), ns = r.in(1, 5); auto seed = make_seed(r.in(0, 1000000)); int way = r.in(0, 2);
    { obj e("boot"); e.n("n", n).n("nb", nb).n("ns", ns); rec(e, [&](obj& q) { std::vector<string> out; auto two = [&](const vec3d& x, const vec3d& y) { string s = "["; for (uint_t i = 0; i < x.dims[0]; ++i) s += (i ? ",[" : "[") + whole(x[i]) + "," + whole(i < y.dims[0] ? y[i] : -1) + "]"; out.push_back(s + "]"); }; if (way == 0) qstack_bootstrap(id, nb, ns, seed, [&](const vec3d& x) { two(x, vec3d(x + 100)); }); else if (way == 1) qstack_bootstrap(id, wd, nb, ns, seed, two); else qstack_bootstrap(nb, ns, seed, two, id, wd); q.raw("r", list(out)); }); }
    { obj e("bootm"); e.n("n", n).n("nb", nb).n("ns", ns); int k = r.in(0, 2); rec(e, [&](obj& q) { vec3d x = k == 0 ? qstack_mean_bootstrap(id, nb, ns, seed) : k == 1 ? qstack_mean_bootstrap(id, wd, nb, ns, seed) : qstack_median_bootstrap(id, nb, ns, seed); vec1d y(x.dims[0]); for (uint_t i = 0; i < y.size(); ++i) y[i] = std::round(x(i,0,0)*1000); q.raw("r", wv(y)); }); }
}
static void filter(rng& r) {
    std::vector<string> k = {"CTYPE1", "CTYPE2", "CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2", "CDELT1", "CDELT2", "CD1_1", "CD1_2", "CD2_1", "CD2_2", "PC1_1", "PC2_1", "CUNIT1", "CUNIT2", "EQUINOX", "RADECSYS", "LONPOLE", "PV2_1", "OBJECT", "EXPTIME", "NAXIS", "NAXIS1", "BITPIX", "SIMPLE", "FILTER", "ABC"}, u; for (uint_t i = k.size(); i > 1; --i) std::swap(k[i-1], k[r.in(0, i-1)]); k.resize(r.in(0, 12)); k.push_back("END"); string h, js = "["; for (uint_t i = 0; i < k.size(); ++i) { js += (i ? "," : "") + vp::str(k[i]); h += k[i] == "END" ? "END" + string(77, ' ') : card(k[i], "1"); }
    obj e("filter"); e.raw("k", js + "]"); rec(e, [&](obj& q) { string s = filter_wcs(h), o = "["; for (uint_t i = 0; 80*i < s.size(); ++i) { string t = s.substr(80*i, 80); o += (i ? "," : "") + vp::str(trim(t.substr(0, 8))); } q.raw("r", o + "]"); });
}
void vp::setup() {
    vp::add("drizzle", 300, 8000, [](rng& r, long) { drizzle(r); });
    vp::add("turned", 150, 3000, [](rng& r, long) { drizzle(r, true); });
    vp::add("interp", 400, 8000, [](rng& r, long) { interp(r); });
    vp::add("cutouts", 200, 5000, [](rng& r, long) { cutouts(r); });
    vp::add("stackd", 200, 5000, [](rng& r, long) { stacks<double>(r); });
    vp::add("stackf", 100, 3000, [](rng& r, long) { stacks<float>(r); });
    vp::add("means", 100, 4000, [](rng& r, long) { means(r); });
    vp::add("filter", 40, 1000, [](rng& r, long) { filter(r); });
}
