// where / where_first / where_last / complement / nearest true point; index conversions
#include "find.hpp"
template<class V> void wh(const V& b, const vec1u& cid) {
    { obj o("where"); o.raw("v", vv::js(b)); rec(o, [&](obj& s) { vec1u x = where(b); s.raw("r", vv::js(x)).raw("rd", vv::jd(x)); }); }
    { obj o("first"); o.raw("v", vv::js(b)); rec(o, [&](obj& s) { s.raw("r", "[" + vp::num(where_first(b)) + "]"); }); }
    { obj o("last"); o.raw("v", vv::js(b)); rec(o, [&](obj& s) { s.raw("r", "[" + vp::num(where_last(b)) + "]"); }); }
    { obj o("compl"); o.n("n", b.size()).raw("ids", vv::js(cid)); rec(o, [&](obj& s) { vec1u x = complement(b, cid); s.raw("r", vv::js(x)).raw("rd", vv::jd(x)); }); }
    { obj o("countall"); o.raw("v", vv::js(b)); rec(o, [&](obj& s) { vec1u x = complement(b, where(b)); s.raw("r", vv::js(x)).raw("rd", vv::jd(x)); }); }
}
template<std::size_t D> void wcase(rng& r, const std::array<std::size_t,D>& d, int den) {
    auto b = rb<D>(r, d, den);
    vec1u cid;
    for (uint_t i : range(b)) if (r.chance(1,2)) cid.push_back(i);
    for (uint_t i = cid.size(); i > 1; --i) std::swap(cid.safe[i-1], cid.safe[r.in(0, i-1)]);
    if (r.chance(1,10) && cid.size() + 1 < b.size()) cid.push_back(b.size() + r.in(0, 2)); // not a valid index
    wh(b, cid);
    auto w = vv::all_view(b); wh(w, cid);
    const auto& cb = b; auto cw = vv::all_view(cb); wh(cw, cid);
}
template<std::size_t D> void ids(rng& r) {
    auto d = vv::rdims<D>(r, 1, 5); vec<D,int> v; v.dims = d; v.resize();
    vec1u q; int n = r.in(0, 6); for (int i = 0; i < n; ++i) q.push_back(r.in(0, v.size()-1));
    for (uint_t i : q) {
        { obj o("mult"); o.raw("d", vp::seq(d)).n("i", i); rec(o, [&](obj& s) { vec1u x = r.chance(1,2) ? mult_ids(v, i) : mult_ids(d, i); s.raw("r", vv::js(x)); }); }
    }
    { obj o("multv"); o.raw("d", vp::seq(d)).raw("i", vv::js(q)); rec(o, [&](obj& s) { vec2u x = r.chance(1,2) ? mult_ids(v, q) : mult_ids(d, q); vv::put(s, x); }); }
    // one increment of an index list
    vec1u l(D), nn(D); for (uint_t k : range(D)) { nn[k] = d[k]; l[k] = r.chance(1,2) ? d[k]-1 : r.in(0, d[k]-1); }
    { obj o("incr"); o.raw("d", vp::seq(d)).raw("l", vv::js(l)); rec(o, [&](obj& s) { vec1u x = l; increment_index_list(x, nn); s.raw("r", vv::js(x)); }); }
    { uint_t m = r.in(1, 4); vec1u z(D); for (auto& x : z.data) x = r.in(0, m-1); std::array<std::size_t,D> dd; dd.fill(m);
      obj o("incr"); o.raw("d", vp::seq(dd)).raw("l", vv::js(z)); rec(o, [&](obj& s) { vec1u x = z; increment_index_list(x, m); s.raw("r", vv::js(x)); }); }
}
template<class T> void fid2(rng& r, bool bad) {
    auto d = vv::rdims<2>(r, 1, 5); vec<2,int> v; v.dims = d; v.resize();
    T a = r.in(std::is_signed<T>::value ? -(long)d[0] : 0, d[0]-1 + (bad ? 2 : 0)), b = r.in(std::is_signed<T>::value ? -(long)d[1] : 0, d[1]-1 + (bad ? 2 : 0));
    obj o("flat"); o.raw("d", vp::seq(d)).raw("ix", "[" + vp::num(a) + "," + vp::num(b) + "]");
    rec(o, [&](obj& s) { uint_t x = r.chance(1,2) ? flat_id(v, a, b) : flat_id(d, a, b); s.raw("r", "[" + vp::num(x) + "]"); });
}
template<class T> void fid3(rng& r, bool bad) {
    auto d = vv::rdims<3>(r, 1, 4); vec<3,int> v; v.dims = d; v.resize();
    T a = r.in(0, d[0]-1 + (bad ? 1 : 0)), b = r.in(0, d[1]-1 + (bad ? 1 : 0)), c = r.in(0, d[2]-1 + (bad ? 1 : 0));
    obj o("flat"); o.raw("d", vp::seq(d)).raw("ix", "[" + vp::num(a) + "," + vp::num(b) + "," + vp::num(c) + "]");
    rec(o, [&](obj& s) { uint_t x = flat_id(v, a, b, c); s.raw("r", "[" + vp::num(x) + "]"); });
}
void vp::setup() {
    vp::add("where1", 120, 5000, [](rng& r, long i) { std::array<std::size_t,1> d = {{(std::size_t)(i < 12 ? i/3 : r.in(0, 40))}}; wcase<1>(r, d, 1 + i % 5); });
    vp::add("where2", 60, 3000, [](rng& r, long i) { wcase<2>(r, vv::rdims<2>(r, 0, 6), 1 + i % 5); });
    vp::add("where3", 30, 1500, [](rng& r, long i) { wcase<3>(r, vv::rdims<3>(r, 0, 4), 1 + i % 5); });
    vp::add("ids", 150, 5000, [](rng& r, long i) { if (i % 3 == 0) ids<1>(r); else if (i % 3 == 1) ids<2>(r); else ids<3>(r); });
    vp::add("flat", 200, 5000, [](rng& r, long i) {
        if (i % 4 == 0) fid2<int>(r, i % 8 == 0); else if (i % 4 == 1) fid2<uint_t>(r, i % 8 == 1); else if (i % 4 == 2) fid3<uint_t>(r, i % 8 == 2); else fid3<int>(r, i % 8 == 3);
    });
    vp::add("nearest", 300, 10000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, 1, 9); auto m = rb<2>(r, d, r.pick<int>({1, 2, 5, 20, 60}));
        uint_t x = r.in(0, d[0] + 1), y = r.in(0, d[1] + 1);
        obj o("nearest"); o.raw("d", vp::seq(d)).raw("v", vv::js(m)).n("x", x).n("y", y);
        rec(o, [&](obj& s) { uint_t a = x, b = y; bool f = astar_find(m, a, b); s.raw("r", "[" + vp::num(f) + "," + vp::num(a) + "," + vp::num(b) + "]"); });
    });
}
