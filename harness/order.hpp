// sort, unique values, matching, sets, bounds
#include "find.hpp"
template<class V> void sorted(rng& r, const V& x) {
    using T = typename V::rtype;
    { obj o("sort"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { vec1u z = sort(x); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("sortdesc"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { vec1u z = sort(x, [](const T& a, const T& b) { return typename vec<1,T>::comparator_greater()(a, b); }); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("issorted"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { s.raw("r", "[" + vp::num(is_sorted(x)) + "]"); }); }
}
template<class V> void inpl(V x) {
    { obj o("inplace"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); V y = x; rec(o, [&](obj& s) { inplace_sort(y); s.raw("r", vv::js(y)).raw("rd", vv::jd(y)); }); }
    { obj o("inplacedesc"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)); V y = x; using T = typename V::rtype; rec(o, [&](obj& s) { inplace_sort(y, [](const T& a, const T& b) { return typename vec<1,T>::comparator_greater()(a, b); }); s.raw("r", vv::js(y)).raw("rd", vv::jd(y)); }); }
}
template<class V> void uniq(const V& x) {
    { obj o("uids"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { vec1u z = unique_ids(x); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("uids"); o.raw("v", vv::js(x)); vec1u sid = sort(x); rec(o, [&](obj& s) { vec1u z = unique_ids(x, sid); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("uvals"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { auto z = unique_values(x); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("uvals"); o.raw("v", vv::js(x)); vec1u sid = sort(x); rec(o, [&](obj& s) { auto z = unique_values(x, sid); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
}
template<class V> void usorted(const V& x) { // x is sorted
    { obj o("uidss"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { vec1u z = unique_ids_sorted(x); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("uvals"); o.raw("v", vv::js(x)); rec(o, [&](obj& s) { auto z = unique_values_sorted(x); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
}
template<class V, class T> void bnd(const V& x, T a, T b) { // x is sorted
    #define B1(N, E) { obj o(N); o.raw("v", vv::js(x)).raw("a", el<T>::js(a)).raw("b", el<T>::js(b)); rec(o, [&](obj& s) { E; }); }
    B1("lower", s.raw("r", "[" + vp::num(lower_bound(x, a)) + "]"))
    B1("upper", s.raw("r", "[" + vp::num(upper_bound(x, a)) + "]"))
    B1("bounds", s.raw("r", vp::seq(bounds(x, a))))
    B1("bounds2", s.raw("r", vp::seq(bounds(x, a, b))))
    B1("equal", s.raw("r", vp::seq(equal_range(x, a))))
}
template<class V, class W> void two(const V& x, const W& y) {
    { obj o("match"); o.raw("v", vv::js(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { vec1u a = {7}, b = {7, 8}; match(x, y, a, b); s.raw("r", vv::js(a)).raw("r2", vv::js(b)).raw("rd", vv::jd(a)).raw("rd2", vv::jd(b)); }); }
    { obj o("anyof"); o.raw("v", vv::js(x)).raw("d", vv::jd(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { auto z = is_any_of(x, y); vv::put(s, z); }); }
    if (!x.empty()) { obj o("any1"); o.raw("x", el<typename V::rtype>::js(x.safe[0])).raw("w", vv::js(y)); typename V::rtype t = x.safe[0]; rec(o, [&](obj& s) { s.raw("r", "[" + vp::num(is_any_of(t, y)) + "]"); }); }
}
template<class V, class W> void sets(const V& x, const W& y) {
    { obj o("inter"); o.raw("v", vv::js(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { auto z = set_intersection(x, y); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("union"); o.raw("v", vv::js(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { auto z = set_union(x, y); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
}
template<class V, class W> void sets_sorted(const V& x, const W& y) {
    { obj o("inter"); o.raw("v", vv::js(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { auto z = set_intersection_sorted(x, y); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
    { obj o("union"); o.raw("v", vv::js(x)).raw("w", vv::js(y)); rec(o, [&](obj& s) { auto z = set_union_sorted(x, y); s.raw("r", vv::js(z)).raw("rd", vv::jd(z)); }); }
}
