#include "rearr.hpp"
void setup_rearr2();
template<class T> void one_case(rng& r, long i) {
    auto v = vv::iota<1,T>({{(std::size_t)(i < 20 ? i/2 : r.in(0, 12))}}, 3);
    oned(r, v); shft(r, v); shape(r, v); rem(r, v); repl(v, r.in(0, 3), r.in(0, 3));
    viewed<T> w(r, v.data);
    { auto x = w.big[w.ids]; oned(r, x); shape(r, x); repl(x, r.in(0, 3), r.in(0, 3)); }
    { const auto& cb = w.big; auto x = cb[w.ids]; oned(r, x); shape(r, x); }
    // reverse, flatten and reform of a view still designate the elements of the vector
    for (int k = 0; k < 3; ++k) {
        auto x = w.big[w.ids]; vec<1,T> val = vv::iota<1,T>(v.dims, 60); vec1u ids = w.ids; if (k == 0) std::reverse(ids.data.begin(), ids.data.end());
        obj o("vwrite"); o.raw("v", vv::js(w.big)).raw("ids", vv::js(ids)).raw("w", vv::js(val));
        vec<1,T> copy = w.big;
        rec(o, [&](obj& s) {
            if (k == 0) { auto y = reverse(x); y = val; } else if (k == 1) { auto y = flatten(x); y = val; } else { auto y = reform(x, uint_t(1), uint_t(val.size())); y = reform(val, uint_t(1), uint_t(val.size())); }
            s.raw("r", vv::js(w.big));
        });
        w.big = copy;
    }
    auto u = vv::iota<1,T>({{(std::size_t)r.in(0, 6)}}, 40); joins1(v, u); joins<0>(v, u);
    viewed<T> q(r, u.data); { auto x = q.big[q.ids]; joins1(v, x); joins<0>(v, x); }
    { const auto& cb = q.big; auto x = cb[q.ids]; joins1(v, x); }
}
void vp::setup() {
    vp::add("one", 90, 3000, [](rng& r, long i) { if (i % 3 == 0) one_case<int>(r, i); else if (i % 3 == 1) one_case<std::string>(r, i); else one_case<double>(r, i); });
    vp::add("conv", 20, 300, [](rng& r, long i) { joins1(vv::iota<1,double>({{(std::size_t)r.in(0, 5)}}), vv::iota<1,int>({{(std::size_t)r.in(0, 5)}}, 20)); joins<1>(vv::iota<2,double>(vv::rdims<2>(r, 1, 3)), vv::iota<2,int>(vv::rdims<2>(r, 1, 3), 20)); });
    vp::add("gen", 20, 200, [](rng& r, long i) {
        auto d = vv::rdims<3>(r, 0, 4);
        { obj o("indgen"); o.raw("d", vp::seq(d)); rec(o, [&](obj& s) { vv::put(s, indgen(d)); }); }
        { obj o("indgen"); o.raw("d", vp::seq(d)); rec(o, [&](obj& s) { vv::put(s, indgen<double>(d[0], d[1], d[2])); }); }
        { obj o("indgen"); o.raw("d", "[" + vp::num(d[0]) + "]"); rec(o, [&](obj& s) { vv::put(s, indgen<int>(d[0])); }); }
        uint_t n = r.in(0, 4); int x = r.in(0, 9);
        { obj o("replicate"); o.raw("v", "[" + vp::num(x) + "]").raw("d", "[]").raw("e", vp::seq(d)); rec(o, [&](obj& s) { vv::put(s, replicate(x, d)); }); }
        { obj o("replicate"); o.raw("v", "[" + vp::num(x) + "]").raw("d", "[]").raw("e", "[" + vp::num(n) + "]"); rec(o, [&](obj& s) { vv::put(s, replicate(x, n)); }); }
    });
    setup_rearr2();
}
