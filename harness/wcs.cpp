// world coordinates of images
#include "find.hpp"
#include "vif/reflex/reflex.hpp"
#include "vif/utility/time.hpp"
#include "vif/math/reduce.hpp"
#include "vif/math/convex_hull.hpp"
#include "vif/io/fits.hpp"
#include "vif/astro/astro.hpp"
#include "vif/astro/image.hpp"
#include "vif/astro/wcs.hpp"
#include "vif/astro/ds9.hpp"
#include <unistd.h>
using std::string; using namespace vif::astro;
static string whole(double x, double s = 1) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; double v = std::round(x); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::fabs(x - v) > 1e-5 ? std::to_string(vp::V_FRAC) : std::to_string((long)v); }
static string fx(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; return std::fabs(x) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)std::round(x)); }
template<class V> static string fxv(const V& v, double s, bool w = false) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += w ? whole(v.safe[i], s) : fx(v.safe[i], s); } return r + "]"; }
static string card(const string& k, const string& v) { string c = k; c.resize(8, ' '); c += "= " + v; c.resize(80, ' '); return c; }
static string real_(double x) { char b[60]; std::snprintf(b, sizeof b, "%20.14G", x); return b; }
struct head { std::vector<string> kind; std::vector<long> crpix, crval, cdelt, unit, dims; int m[2][2]; long scale; std::vector<string> cunit; std::vector<int> ex; fits::header h; uint_t n, xa, ya; };
static string sl(const std::vector<string>& v) { string s = "["; for (auto& t : v) s += (s.size() > 1 ? "," : "") + vp::str(t); return s + "]"; }
static string desc(const head& d) { return obj().raw("kind", sl(d.kind)).q("crpix", d.crpix).q("crval", d.crval).q("cdelt", d.cdelt).q("unit", d.unit).q("dims", d.dims).n("scale", d.scale).raw("m", "[[" + std::to_string(d.m[0][0]) + "," + std::to_string(d.m[0][1]) + "],[" + std::to_string(d.m[1][0]) + "," + std::to_string(d.m[1][1]) + "]]").done(); }
static head mk(rng& r, bool plain) {
    head d; static const std::vector<std::vector<string>> K = {{"ra","dec"}, {"ra","dec"}, {"dec","ra"}, {"ra","dec","wave"}, {"wave","ra","dec"}, {"ra","freq","dec"}, {"dec","ra","freq"}, {"ra","dec","lin"}, {"lin","dec","wave","ra"}};
    d.kind = K[plain ? 0 : r.in(0, K.size()-1)]; d.n = d.kind.size(); d.scale = r.in(1, 20); bool first = true;
    static const int M[][4] = {{-5,0,0,5}, {-5,0,0,5}, {5,0,0,5}, {0,5,5,0}, {0,-5,5,0}, {4,3,-3,4}, {-4,3,3,4}, {-3,4,4,3}, {5,0,0,-5}, {-3,-4,-4,3}}; auto& t = M[r.in(0, 9)]; for (int i = 0; i < 4; ++i) d.m[i/2][i%2] = t[i];
    std::vector<string> c; bool cd = r.chance(1,2); std::vector<uint_t> sk; for (uint_t i = 0; i < d.n; ++i) if (d.kind[i] == "ra" || d.kind[i] == "dec") sk.push_back(i); d.xa = sk[0]; d.ya = sk[1];
    static const std::vector<std::pair<string,int>> W = {{"m",0}, {"cm",-2}, {"mm",-3}, {"um",-6}, {"nm",-9}, {"Angstrom",-10}, {"micron",-6}, {"microns",-6}}, F = {{"Hz",0}, {"kHz",3}, {"MHz",6}, {"GHz",9}};
    for (uint_t i = 0; i < d.n; ++i) {
        string k = d.kind[i], I = std::to_string(i+1); bool sky = k == "ra" || k == "dec"; d.dims.push_back(r.in(1, 6)); d.crpix.push_back(r.in(-6, 30)); d.crval.push_back(k == "ra" ? r.pick<long>({0, 10, 150, 359}) : k == "dec" ? r.pick<long>({0, 0, 60, -60}) : r.in(2000, 9000)); d.cdelt.push_back(sky ? 0 : r.pick<long>({1, 2, 5, -3})); string u; int ex = 0; bool hu = r.chance(2,3);
        if (!sky && hu) { if (k == "wave") { auto& q = W[r.in(0, W.size()-1)]; u = q.first; ex = q.second; } else if (k == "freq") { auto& q = F[r.in(0, F.size()-1)]; u = q.first; ex = q.second; } else u = "K"; } if (sky && r.chance(1,3)) u = r.pick<string>({"deg", "degree", "degrees"});
        d.unit.push_back(sky || !u.empty()); d.cunit.push_back(u); d.ex.push_back(ex);
        c.push_back(card("NAXIS" + I, std::to_string(d.dims[i]))); c.push_back(card("CRPIX" + I, real_(d.crpix[i]*0.5))); c.push_back(card("CRVAL" + I, real_(d.crval[i]))); c.push_back(card("CTYPE" + I, k == "ra" ? "'RA---TAN'" : k == "dec" ? "'DEC--TAN'" : k == "wave" ? "'WAVE    '" : k == "freq" ? "'FREQ    '" : "'XYZ     '")); if (!u.empty()) c.push_back(card("CUNIT" + I, "'" + u + (r.chance(1,2) ? string(u.size() < 8 ? 8 - u.size() : 1, ' ') : "") + "'"));
        if (!cd) c.push_back(card("CDELT" + I, real_(sky ? d.scale/36000.0 : d.cdelt[i]))); else if (!sky) c.push_back(card("CD" + I + "_" + I, real_(d.cdelt[i]))); }
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { string k = string(cd ? "CD" : "PC") + std::to_string(sk[a]+1) + "_" + std::to_string(sk[b]+1); c.push_back(card(k, real_(d.m[a][b]/5.0*(cd ? d.scale/36000.0 : 1)))); }
    if (r.chance(1,3)) c.push_back(card("OBJECT", "'x'")); if (r.chance(1,6)) c.push_back(card("A_ORDER", "2")), c.push_back(card("A_0_2", "1.5"));
    for (uint_t i = c.size(); i > 1; --i) std::swap(c[i-1], c[r.in(0, i-1)]); d.h = card("NAXIS", std::to_string(d.n)); for (auto& s : c) d.h += s; d.h += "END" + string(77, ' '); (void)first; return d;
}
static wcs make(rng& r, const head& d) {
    switch (r.in(0, 5)) { case 5: { wcs a; a = wcs(d.h); return a; } case 4: { wcs a(d.h); wcs& b = a; a = std::move(b); a.update(); return a; } case 0: { wcs a(d.h); wcs b(std::move(a)); return b; } case 1: { wcs a(r.chance(1,2) ? mk(r, false).h : string()); a = wcs(d.h); return a; } case 2: return extast(d.h); default: return wcs(d.h); }
}
static void sky(rng& r) {
    head d = mk(r, false); uint_t n = r.in(0, 4);
    { obj o("valid"); o.raw("h", desc(d)); rec(o, [&](obj& q) { wcs w = make(r, d); q.n("r", w.is_valid()).n("n", w.axis_count()).q("d", w.dims); }); }
    { vec1i x(n), y(n); for (uint_t i = 0; i < n; ++i) { x[i] = d.crpix[d.xa] + r.in(-60, 60); y[i] = d.crpix[d.ya] + r.in(-60, 60); } int way = r.in(0, 3); if (way == 1) for (uint_t i = 0; i < n; ++i) { x[i] &= ~1; y[i] &= ~1; }
      obj o("sky"); o.raw("h", desc(d)).q("x", x).q("y", y); rec(o, [&](obj& q) { wcs w = make(r, d); vec1d xd = 0.5*x, yd = 0.5*y, ra, dec, bx, by;
        if (way == 0) { for (uint_t i = 0; i < n; ++i) { double a, b, u, v; xy2ad(w, xd[i], yd[i], a, b); ad2xy(w, a, b, u, v); ra.push_back(a); dec.push_back(b); bx.push_back(u); by.push_back(v); } }
        else if (way == 1) { for (uint_t i = 0; i < n; ++i) { double a, b, u, v; int xi = x[i]/2; long yi = y[i]/2; if (r.chance(1,3)) xy2ad(w, xi, yd[i], a, b); else if (r.chance(1,2)) xy2ad(w, xd[i], yi, a, b); else xy2ad(w, xi, yi, a, b); ad2xy(w, a, b, u, v); ra.push_back(a); dec.push_back(b); bx.push_back(u); by.push_back(v); } }
        else if (way == 2) { vec2d a, b, u, v; xy2ad(w, reform(xd, 1, n), reform(yd, 1, n), a, b); ad2xy(w, a, b, u, v); ra = flatten(a); dec = flatten(b); bx = flatten(u); by = flatten(v); }
        else { xy2ad(w, xd, yd, ra, dec); ad2xy(w, ra, dec, bx, by); }
        for (auto& t : ra.data) if (t < 0) t += 360; q.raw("ra", fxv(ra, 360000)).raw("dec", fxv(dec, 360000)).raw("bx", fxv(bx, 1000)).raw("by", fxv(by, 1000)); }); }
    { obj o("geom"); o.raw("h", desc(d)); rec(o, [&](obj& q) { wcs w = make(r, d); double s = -1, a = -1; bool p = get_pixel_size(w, s), i = get_image_rotation(w, a); q.n("ps", p).n("ir", i).raw("size", fx(s, 1000)).raw("sin", fx(std::sin(a*dpi/180), 1000)).raw("cos", fx(std::cos(a*dpi/180), 1000)); }); }
    if (r.chance(1,4)) { obj o("bad"); int k = r.in(0, 2); rec(o, [&](obj& q) { vec1d x, y; if (k == 2) { wcs w{fits::header("END" + string(77, ' '))}; xy2ad(w, vec1d{1}, vec1d{1}, x, y); } else { wcs w = make(r, d); if (k) ad2xy(w, vec1d{1, 2}, vec1d{1}, x, y); else xy2ad(w, vec1d{1}, vec1d{1, 2}, x, y); } q.n("x", 0); }); }
    if (r.chance(1,8)) { obj o("invalid"); rec(o, [&](obj& q) { fits::header h = r.pick<string>({"", "END" + string(77, ' '), card("NAXIS", "0") + "END" + string(77, ' ')}); wcs w(h); double s, a; q.n("r", w.is_valid()).n("n", w.axis_count()).n("ps", get_pixel_size(w, s)).n("ir", get_image_rotation(w, a)); }); }
    // regions
    { ds9::region g; g.type = r.pick<string>({"circle", "box"}); vec1i p = {int(d.crpix[d.xa] + r.in(-40, 40)), int(d.crpix[d.ya] + r.in(-40, 40)), int(r.in(0, 20))}; if (g.type == "box") { p.push_back(r.in(0, 20)); p.push_back(r.in(-180, 180)); } g.params = 0.5*p; string f = "wcs." + std::to_string(getpid()) + ".reg"; bool file = r.chance(1,2), pf = r.chance(1,2);
      vec1i x = {p[0] + 2}, y = {p[1] + 2}; obj o("region"); o.raw("h", desc(d)).q("p", p).q("x", x).q("y", y); rec(o, [&](obj& q) { wcs w = make(r, d); ds9::region s, b;
        if (file) { vec<1,ds9::region> v = {g}, u, z; if (r.chance(1,2)) v[0] = ds9::physical_to_wcs(w, v[0]); ds9::write_regions_wcs(f, v, w); ds9::read_regions(f, u); s = u[0]; if (pf) ds9::read_regions_physical(f, w, z); else { ds9::write_regions_physical(f, u, w); ds9::read_regions_physical(f, z); } b = z[0]; unlink(f.c_str()); }
        else { s = ds9::physical_to_wcs(w, g); b = ds9::wcs_to_physical(w, s); }
        vec1d ra = {s.params[0] < 0 ? s.params[0] + 360 : s.params[0]}, dec = {s.params[1]}; vec1d sz; for (uint_t i = 2; i < s.params.size(); ++i) sz.push_back(s.params[i]); q.raw("ra", fxv(ra, 360000)).raw("dec", fxv(dec, 360000)).n("phys", s.physical).n("bphys", b.physical).raw("s", fxv(sz, 10000)).raw("b", fxv(b.params, 1000)); }); }
}
static void axes(rng& r) {
    head d = mk(r, false); uint_t i = d.n > 2 && r.chance(3,4) ? r.in(0, d.n-1) : r.in(0, d.n-1); for (int k = 0; k < 5 && (d.kind[i] == "ra" || d.kind[i] == "dec"); ++k) i = r.in(0, d.n-1); bool sk = d.kind[i] == "ra" || d.kind[i] == "dec", out = r.chance(1,15);
    static const std::vector<std::pair<axis_unit,int>> W = {{axis_unit::wave_m,0}, {axis_unit::wave_cm,-2}, {axis_unit::wave_mm,-3}, {axis_unit::wave_um,-6}, {axis_unit::wave_nm,-9}, {axis_unit::wave_Angstrom,-10}}, F = {{axis_unit::freq_Hz,0}, {axis_unit::freq_kHz,3}, {axis_unit::freq_MHz,6}, {axis_unit::freq_GHz,9}, {axis_unit::freq_THz,12}};
    axis_unit u; string un; int ex = 0; int c = r.in(0, 9); if (!r.chance(1,4)) c = d.unit[i] == 0 && d.kind[i] == "lin" ? 0 : sk ? 9 : d.kind[i] == "wave" ? r.pick<int>({1, 3, 3, 3}) : d.kind[i] == "freq" ? r.pick<int>({1, 6, 6, 6}) : 1;
    if (c == 0) { u = axis_unit::native; un = "native"; } else if (c <= 2) { u = axis_unit::wcslib_default; un = "default"; } else if (c <= 5) { auto& q = W[r.in(0, W.size()-1)]; u = q.first; ex = q.second; un = "wave"; } else if (c <= 8) { auto& q = F[r.in(0, F.size()-1)]; u = q.first; ex = q.second; un = "freq"; } else { u = r.chance(1,2) ? axis_unit::sky_deg : axis_unit::sky_rad; un = "sky"; }
    if (d.kind[i] == "lin" && c > 2) return; // units of another kind on an axis of unknown kind
    if (sk && (c == 1 || c == 2 || c == 9) && !out) return; // values on the sky: not linear
    bool bld = r.chance(1,3); uint_t n = bld ? d.dims[i] : r.in(1, 5); vec1i x(n); for (uint_t k = 0; k < n; ++k) x[k] = bld ? 2*(k + 1) : r.in(-20, 40); double f = 2*std::pow(10.0, ex - d.ex[i]); if (c == 0) f = 2; uint_t ax = out ? d.n + r.in(0, 1) : d.n - 1 - i;
    obj o("axis"); o.raw("h", desc(d)).n("a", out ? 99 : long(i + 1)).t("u", un).t("kind", bld ? "build" : "conv").q("x", x); bool one = r.chance(1,2);
    rec(o, [&](obj& q) { wcs w = make(r, d); vec1d v, b; if (bld) v = build_axis(w, ax, u); else if (one) { v.resize(n); b.resize(n); for (uint_t k = 0; k < n; ++k) { x2w(w, ax, 0.5*x[k], v[k], u); w2x(w, ax, v[k], b[k], u); } } else { x2w(w, ax, vec1d(0.5*x), v, u); w2x(w, ax, v, b, u); } q.raw("r", fxv(v, f, true)).raw("b", fxv(b, 1000)); });
}
static void mkh(rng& r) {
    string js = "["; vec1s ps; make_wcs_header_params P; bool txt = r.chance(2,3); uint_t n = r.in(0, 5); bool anybad = false;
    for (uint_t i = 0; i < n; ++i) {
        string nm = r.pick<string>({"pixel_scale", "pixel_ref", "sky_ref", "dims"}); if (txt && r.chance(1,30)) nm = "pixel"; uint_t nv = nm == "pixel_scale" ? 1 : 2; if (txt && r.chance(1,30)) nv = r.in(1, 3); bool form = !(txt && r.chance(1,30)); std::vector<long> v; string t; double q[3] = {0, 0, 0};
        for (uint_t k = 0; k < nv; ++k) { bool dm = nm == "dims"; long z = dm ? r.in(0, 500) : nm == "pixel_scale" ? r.in(1, 5000) : r.in(-90000, 360000); string w; if (dm) w = std::to_string(z); else { char b[40]; std::snprintf(b, sizeof b, "%s%ld.%03ld", z < 0 ? "-" : "", std::labs(z)/1000, std::labs(z)%1000); w = b; } q[k] = dm ? z : z/1000.0; if (txt && r.chance(1,40)) { w = r.pick<string>({"", "abc", "1..2"}); z = vp::V_NAN; } v.push_back(z); t += (k ? "," : "") + (r.chance(1,4) ? " " + w : w); }
        ps.push_back((r.chance(1,4) ? " " : "") + (r.chance(1,4) ? to_upper(nm) : nm) + (form ? ":" : r.pick<string>({"=", "", "::"})) + t); (void)anybad;
        if (nm == "pixel_scale") P.pixel_scale = q[0]; else if (nm == "pixel_ref") { P.pixel_ref_x = q[0]; P.pixel_ref_y = q[1]; } else if (nm == "sky_ref") { P.sky_ref_ra = q[0]; P.sky_ref_dec = q[1]; } else { P.dims_x = q[0]; P.dims_y = q[1]; }
        js += (i ? "," : "") + obj().t("name", nm).n("form", form).q("v", v).done(); }
    obj o("mkhdr"); o.raw("p", js + "]"); rec(o, [&](obj& q) { fits::header h; if (r.chance(1,2)) h = card("OBJECT", "'x'") + "END" + string(77, ' '); fits::header h0 = h; bool g = txt ? make_wcs_header(ps, h) : make_wcs_header(P, h); q.n("good", g).n("same", h == h0); string s = "["; int j = 0;
        for (string k : {"CDELT1", "CDELT2", "CRPIX1", "CRPIX2", "CRVAL1", "CRVAL2", "NAXIS1", "NAXIS2"}) { double v; s += (j ? "," : "") + (fits::getkey(h, k, v) ? whole(v, j < 2 ? 3600000.0 : j < 6 ? 1000.0 : 1.0) : string("-999999")); ++j; } q.raw("r", s + "]"); });
}
void vp::setup() {
    vp::add("sky", 400, 8000, [](rng& r, long) { sky(r); });
    vp::add("axes", 500, 8000, [](rng& r, long) { axes(r); });
    vp::add("headers", 100, 4000, [](rng& r, long) { mkh(r); });
}
