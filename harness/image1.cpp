// images: geometry
#include "image.hpp"
template<class T, class V> static void geom(rng& r, const V& x) {
    T def = r.pick<int>({0, 0, 7}); uint_t n = x.dims[0], m = x.dims[1];
    std::array<uint_t,4> u{{(uint_t)r.in(0, 3), (uint_t)r.in(0, 3), (uint_t)r.in(0, 3), (uint_t)r.in(0, 3)}}; if (r.chance(1,3)) u = {{u[0], u[0], u[0], u[0]}}; bool one = u[0] == u[1] && u[1] == u[2] && u[2] == u[3] && r.chance(1,2);
    { obj o("enlarge"); im(o, x).q("u", u).n("def", def); rec(o, [&](obj& q) { if (one) vv::put(q, enlarge(x, u[0], def)); else vv::put(q, enlarge(x, u, def)); }); }
    { obj o("shrink"); im(o, x).q("u", u); rec(o, [&](obj& q) { if (one) vv::put(q, shrink(x, u[0])); else vv::put(q, shrink(x, u)); }); }
    long x0 = r.in(-3, n+2), y0 = r.in(-3, m+2); vec1i reg{x0, y0, x0 + r.in(-1, n+3), y0 + r.in(-1, m+3)};
    { obj o("window"); im(o, x).q("reg", reg).n("def", def); rec(o, [&](obj& q) { vv::put(q, subregion(x, reg, def)); }); }
    if (r.chance(1,12)) reg.push_back(1);
    { obj o("region"); im(o, x).q("reg", reg); rec(o, [&](obj& q) { vec1u a, b; if (r.chance(1,3)) { a = {1, 2}; b = {3}; } subregion(x, reg, a, b); q.raw("r", vv::js(a)).raw("r2", vv::js(b)); }); }
    { obj o("flipx"); im(o, x); rec(o, [&](obj& q) { vv::put(q, flip_x(x)); }); }
    { obj o("flipy"); im(o, x); rec(o, [&](obj& q) { vv::put(q, flip_y(x)); }); }
    long a = r.in(-(long)n-3, n+3), b = r.in(-(long)m-3, m+3); if (r.chance(1,6)) a *= 3; if (r.chance(1,6)) b = 0;
    { obj o("shift"); im(o, x).n("a", a).n("b", b); rec(o, [&](obj& q) { vec<2,T> y = x; if (r.chance(1,2)) { inplace_shift(y, a, b); vv::put(q, y); } else vv::put(q, shift(y, a, b)); }); }
    { obj o("transint"); im(o, x).n("a", a).n("b", b).n("def", def); rec(o, [&](obj& q) { vec<2,T> y = x; if (r.chance(1,2)) { inplace_translate_integer(y, a, b, def); vv::put(q, y); } else vv::put(q, translate_integer(x, a, b, def)); }); }
    std::array<uint_t,2> nd{{(uint_t)r.in(0, 7), (uint_t)r.in(0, 7)}}; long cx = r.in(-3, n+3), cy = r.in(-3, m+3);
    { obj o("recenter"); im(o, x).n("a", cx).n("b", cy).q("nd", nd).n("def", def); rec(o, [&](obj& q) { vv::put(q, recenter(x, cx, cy, nd, def)); }); }
    { obj o("recenter"); im(o, x).n("a", cx).n("b", cy).q("nd", x.dims).n("def", def); rec(o, [&](obj& q) { vv::put(q, recenter(x, cx, cy, def)); }); }
}
template<class T> static void gcase(rng& r) {
    vec<2,T> x = rv<2,T>(r, vv::rdims<2>(r, r.chance(1,8) ? 0 : 1, 5), 20); geom<T>(r, x);
    if (r.chance(1,2)) { auto y = rv<2,T>(r, {{x.dims[0] + 1, x.dims[1]}}, 20); geom<T>(r, y(_-(y.dims[0]-1), _)); }
}
static void resamp(rng& r) {
    vec2d x = rv<2,double>(r, {{(std::size_t)r.in(2, 5), (std::size_t)r.in(2, 5)}}, 20); double def = r.pick<int>({0, 5});
    { long a = r.in(-14, 14), b = r.in(-14, 14); obj o("translate"); im(o, x).n("a", a).n("b", b).n("def", def); rec(o, [&](obj& q) { auto y = translate(x, a/4.0, b/4.0, def); q.raw("rd", vv::jd(y)).raw("r", wholes(y, 16)); }); }
    { long f = r.pick<int>({1, 2, 4, 4, 8, 12}); obj o("scale"); im(o, x).n("f4", f).n("def", def); rec(o, [&](obj& q) { auto y = scale(x, 4.0/f, def); q.raw("rd", vv::jd(y)).raw("r", wholes(y, 16)); }); }
    { long k = r.in(0, 3); obj o("rotate"); im(o, x).n("q", k).n("def", def); rec(o, [&](obj& q) { auto y = rotate(x, 90.0*(r.chance(1,3) ? k - 4 : k), def); q.raw("rd", vv::jd(y)).raw("r", wholes(y, 16)); }); }
    std::array<uint_t,2> d{{(uint_t)r.in(0, 6), (uint_t)r.in(0, 6)}}; long R = r.chance(1,15) ? -1 : r.in(0, 12), X = r.in(-6, 14), Y = r.in(-6, 14);
    { obj o("circle"); o.q("d", d).n("rad", R).n("x", X).n("y", Y); rec(o, [&](obj& q) { auto y = circular_mask(d, R/2.0, X/2.0, Y/2.0); q.raw("rd", vv::jd(y)).raw("r", wholes(y, 4)); }); }
    { obj o("circle"); o.q("d", d).n("rad", R).n("x", d[0]).n("y", d[1]); rec(o, [&](obj& q) { auto y = circular_mask(d, R/2.0); q.raw("rd", vv::jd(y)).raw("r", wholes(y, 4)); }); }
    { uint_t n = r.in(1, 5); obj o("radial"); im(o, x).n("n", n); rec(o, [&](obj& q) { auto y = radial_profile(x, n); q.raw("r", fxv(y, 1000)); }); }
    { long a = r.in(-5, 5), b = r.in(-5, 5); obj o("gen"); o.q("d", d).n("a", a).n("b", b); rec(o, [&](obj& q) { vv::put(q, generate_img(d, [&](int_t i, int_t j) { return a*i + b*j + 7; })); }); }
}
void setup2();
void vp::setup() {
    vp::add("geom", 150, 6000, [](rng& r, long i) { switch (i % 3) { case 0: gcase<int>(r); break; case 1: gcase<double>(r); break; default: gcase<float>(r); } });
    vp::add("resample", 100, 4000, [](rng& r, long) { resamp(r); });
    setup2();
}
