// rearrangements: shared templates
#include "find.hpp"
template<std::size_t N, class V, class W> void joins(const V& x, const W& y) {
    { obj o("append"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)).n("n", N + 1); V z = x; rec(o, [&](obj& s) { append<N>(z, y); vv::put(s, z); s.raw("after2", vv::js(y)); }); }
    { obj o("prepend"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)).n("n", N + 1); V z = x; rec(o, [&](obj& s) { prepend<N>(z, y); vv::put(s, z); s.raw("after2", vv::js(y)); }); }
}
template<class V, class W> void joins1(const V& x, const W& y) {
    { obj o("append"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)).n("n", 1); V z = x; rec(o, [&](obj& s) { append(z, y); vv::put(s, z); s.raw("after2", vv::js(y)); }); }
    { obj o("prepend"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("v2", vv::js(y)).raw("d2", vv::jd(y)).n("n", 1); V z = x; rec(o, [&](obj& s) { prepend(z, y); vv::put(s, z); s.raw("after2", vv::js(y)); }); }
}
template<class V> void rem(rng& r, const V& x) {
    vec1u ids; for (uint_t i : range(x.dims[0])) if (r.chance(1, 2)) ids.push_back(i);
    if (x.dims[0] > 0 && r.chance(1, 4)) ids.push_back(r.chance(1, 2) ? x.dims[0] + r.in(0, 3) : r.in(0, x.dims[0] - 1));
    for (uint_t i = ids.size(); i > 1; --i) std::swap(ids.safe[i-1], ids.safe[r.in(0, i-1)]);
    { obj o("remove"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("ids", vv::js(ids)); rec(o, [&](obj& s) { auto z = remove(x, ids); vv::put(s, z); s.raw("after", vv::js(x)); }); }
    { obj o("remove"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("ids", vv::js(ids)); V z = x; rec(o, [&](obj& s) { inplace_remove(z, ids); vv::put(s, z); }); }
}
template<class V> void repl(const V& x, uint_t a, uint_t b) {
    { obj o("replicate"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[" + vp::num(a) + "]"); rec(o, [&](obj& s) { auto z = replicate(x, a); vv::put(s, z); s.raw("after", vv::js(x)); }); }
    { obj o("replicate"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[" + vp::num(a) + "," + vp::num(b) + "]"); rec(o, [&](obj& s) { auto z = replicate(x, a, b); vv::put(s, z); }); }
}
template<class V> void shape(rng& r, const V& x) {
    { obj o("flatten"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); rec(o, [&](obj& s) { auto z = flatten(x); vv::put(s, z); s.raw("after", vv::js(x)); }); }
    { obj o("flatten"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); auto t = x; rec(o, [&](obj& s) { auto z = flatten(std::move(t)); vv::put(s, z); }); }
    uint_t n = x.size(), a = 1, b, c;
    std::vector<uint_t> dv; for (uint_t k = 1; k <= n; ++k) if (n % k == 0) dv.push_back(k);
    if (n) a = r.pick(dv); b = n/a; if (n == 0 && r.chance(1, 2)) std::swap(a, b);
    c = r.in(1, 2); if (r.chance(1, 6)) { if (r.chance(1, 2)) a += 1; else b += 1; }
    { obj o("reform"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[" + vp::num(a) + "," + vp::num(b) + "]"); rec(o, [&](obj& s) { auto z = reform(x, a, b); vv::put(s, z); s.raw("after", vv::js(x)); }); }
    { obj o("reform"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[" + vp::num(a) + "," + vp::num(b) + "]"); auto t = x; rec(o, [&](obj& s) { auto z = reform(std::move(t), a, b); vv::put(s, z); }); }
    { obj o("reform"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[1," + vp::num(a) + "," + vp::num(b) + "]"); std::array<uint_t,2> ab{{a, b}}; rec(o, [&](obj& s) { auto z = reform(x, 1, ab); vv::put(s, z); }); }
    { uint_t m = n + (c == 2 && r.chance(1, 3)); obj o("reform"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("e", "[" + vp::num(m) + "]"); rec(o, [&](obj& s) { auto z = reform(x, m); vv::put(s, z); }); }
}
template<class V> void oned(rng& r, const V& x) {
    { obj o("reverse"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); rec(o, [&](obj& s) { auto z = reverse(x); vv::put(s, z); s.raw("after", vv::js(x)); }); }
}
template<class V> void shft(rng& r, const V& x) {
    int_t n = r.in(-3*(long)x.size() - 2, 3*(long)x.size() + 2);
    { obj o("shift"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).n("n", n); rec(o, [&](obj& s) { auto z = shift(x, n); vv::put(s, z); s.raw("after", vv::js(x)); }); }
    { obj o("shift"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).n("n", n); V z = x; rec(o, [&](obj& s) { inplace_shift(z, n); vv::put(s, z); }); }
}
template<class V> void tran(const V& x) {
    obj o("transpose"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); rec(o, [&](obj& s) { auto z = transpose(x); vv::put(s, z); s.raw("after", vv::js(x)); });
}
