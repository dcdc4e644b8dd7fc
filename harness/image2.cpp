// images: convolution, filters, segmentation
#include "image.hpp"
static vec2d cmap(rng& r) { return rv<2,double>(r, {{(std::size_t)r.in(1, 6), (std::size_t)r.in(1, 6)}}, 9); }
static uint_t odd(rng& r, int hi) { return 2*r.in(0, hi) + 1; }
static void conv(rng& r) {
    vec2d x = cmap(r); vec2d k = rv<2,double>(r, {{odd(r, r.chance(1,5) ? 4 : 1), odd(r, r.chance(1,5) ? 4 : 1)}}, 3); if (r.chance(1,10)) k = rv<2,double>(r, {{k.dims[0] + 1, k.dims[1]}}, 3);
    auto com = [&](obj& o, const vec2d& y, bool cyc) -> obj& { return im(o, y).raw("kd", vv::jd(k)).raw("k", vv::js(k)).n("cyclic", cyc); };
    auto put = [&](obj& q, const vec2d& y) { q.raw("rd", vv::jd(y)).raw("r", wholes(y)); };
    { obj o("conv"); com(o, x, false).t("f", "naive"); rec(o, [&](obj& q) { put(q, convolve2d_naive(x, k)); }); }
    { vec2i xi = x, ki = k; obj o("conv"); com(o, x, false).t("f", "naivei"); rec(o, [&](obj& q) { put(q, vec2d(convolve2d_naive(xi, ki))); }); }
    if (k.dims[0] % 2 == 1) { obj o("conv"); com(o, x, false).t("f", "fft"); rec(o, [&](obj& q) { put(q, convolve2d(x, k)); }); }
    { obj o("conv"); com(o, x, false).t("f", "prep"); rec(o, [&](obj& q) { uint_t a, b; auto f = convolve2d_prepare_kernel(x, k, a, b); put(q, convolve2d(x, f, a, b)); }); }
    // several images of the same dimensions through the same object
    uint_t n = r.in(1, 3); bool cyc = r.chance(1,3) && k.dims[0] <= x.dims[0] && k.dims[1] <= x.dims[1]; bool inpl = r.chance(1,2);
    std::vector<vec2d> xs(1, x); while (xs.size() < n) xs.push_back(rv<2,double>(r, x.dims, 9)); std::vector<vec2d> ys;
    int ok = vp::guard([&] { convolver2d c(k); c.cyclic = cyc; for (auto& y : xs) { if (inpl) { vec2d z = y; c.inplace_convolve(z); ys.push_back(z); } else ys.push_back(c.convolve(y)); } });
    for (uint_t i = 0; i < n; ++i) { obj o("conv"); com(o, xs[i], cyc).t("f", "batch").n("ok", ok); if (ok == 1) put(o, ys[i]); else o.raw("r", "[]"); vp::emit(o); }
}
static void filt(rng& r) {
    vec2i x = rv<2,int>(r, {{(std::size_t)r.in(1, 6), (std::size_t)r.in(1, 6)}}, 9); uint_t h = r.in(0, 8) % 8;
    { obj o("boxcar"); im(o, x).n("h", h); rec(o, [&](obj& q) { vv::put(q, boxcar(x, h, [](const vec1i& v) { long t = 0; for (uint_t i = 0; i < v.size(); ++i) t += v[i]; return 100*t + long(v.size()); })); }); }
    vec2b m = rb<2>(r, x.dims, r.pick<int>({2, 5, 12})); uint_t k = r.in(0, 5);
    { obj o("inflate"); im(o, m).n("k", k); rec(o, [&](obj& q) { vv::put(q, mask_inflate(m, k)); }); }
}
static vec2u to_u(const vec2i& m) { vec2u u(m.dims); for (uint_t i = 0; i < m.size(); ++i) u.safe[i] = m.safe[i]; return u; }
static void segs(rng& r) {
    std::array<std::size_t,2> d{{(std::size_t)r.in(0, 7), (std::size_t)r.in(1, 7)}}; int den = r.pick<int>({1, 2, 2, 3, 6}); vec2b m = rb<2>(r, d, den); vec2i mi(d); for (uint_t i = 0; i < m.size(); ++i) mi.safe[i] = m.safe[i] ? 1 : 0; if (den > 1 && r.chance(1,2)) for (auto& t : mi.data) if (t) t = r.in(1, 3);
    segment_params p; p.min_area = r.pick<int>({0, 0, 1, 2, 3, 5}); p.first_id = r.chance(1,15) ? 0 : r.pick<int>({1, 1, 4});
    auto put = [&](obj& q, const vec2u& s, const segment_output& o) { vv::put(q, s); q.q("id", o.id).q("area", o.area).q("origin", o.origin).raw("px", fxv(o.px, 1000)).raw("py", fxv(o.py, 1000)); };
    { obj o("segment"); im(o, m).n("min", p.min_area).n("first", p.first_id); rec(o, [&](obj& q) { segment_output s; auto y = segment(m, s, p); put(q, y, s); }); }
    { obj o("segment"); im(o, mi).n("min", p.min_area).n("first", p.first_id); rec(o, [&](obj& q) { segment_output s; auto y = segment(mi, s, p); put(q, y, s); }); }
    // calls on each segment: of a segmentation, or of any map, in any order
    vec2u sm = r.chance(1,2) ? segment(m) : to_u(mi); vec1u mids; std::vector<char> used(sm.size()); 
    { std::set<uint_t> seen; for (uint_t i = 0; i < sm.size(); ++i) if (sm.safe[i] != 0 && seen.insert(sm.safe[i]).second && r.chance(3,4)) mids.push_back(i); if (r.chance(1,2)) { uint_t n = mids.size(); for (uint_t i = 0; i < n/2; ++i) std::swap(mids.safe[i], mids.safe[n-1-i]); } }
    { obj o("foreach"); im(o, sm).q("mids", mids); rec(o, [&](obj& q) { std::vector<string> c; foreach_segment(sm, mids, [&](uint_t s, const vec1u& ids) { string t = "[" + vp::num(s); for (auto z : ids) t += "," + vp::num(z); c.push_back(t + "]"); }); q.raw("r", vp::arr(c)); }); }
    { obj o("grow"); im(o, sm); rec(o, [&](obj& q) { vec2u y = sm, ip; vec2d dm; segment_distance(y, dm, ip); vv::put(q, y); q.raw("imap", vv::js(ip)).raw("dist", vv::js(dm)); }); }
    vec2d img = rv<2,double>(r, d, 0); for (auto& t : img.data) t = r.chance(1,2) ? r.in(0, 2) : r.in(3, 30);
    segment_deblend_params dp; dp.detect_threshold = 3; dp.deblend_threshold = r.pick<int>({1, 2, 3, 5}); dp.min_area = r.pick<int>({0, 0, 1, 2, 4}); dp.first_id = r.chance(1,15) ? 0 : r.pick<int>({1, 1, 4});
    if (!img.empty()) { obj o("deblend"); im(o, img).n("th", 3).n("db", dp.deblend_threshold).n("min", dp.min_area).n("first", dp.first_id); rec(o, [&](obj& q) { segment_deblend_output s; auto y = segment_deblend(img, s, dp); vv::put(q, y);
        q.q("id", s.id).q("area", s.area).q("origin", s.origin).q("px", s.px).q("py", s.py).raw("bx", fxv(s.bx, 1000)).raw("by", fxv(s.by, 1000)).raw("flux", vv::js(s.flux)); }); }
}
void setup2() {
    vp::add("conv", 80, 3000, [](rng& r, long) { conv(r); });
    vp::add("filter", 120, 4000, [](rng& r, long) { filt(r); });
    vp::add("segment", 150, 5000, [](rng& r, long) { segs(r); });
}
