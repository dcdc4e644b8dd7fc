#include "order.hpp"
void setup_order2(); void setup_order3();
template<class T> void sort_case(rng& r, long i, bool special) {
    std::array<std::size_t,1> d = {{(std::size_t)(i < 20 ? i/4 : r.in(0, i % 10 == 0 ? 90 : 14))}};
    auto v = rv<1,T>(r, d, r.pick<int>({1, 3, 20}), special);
    sorted(r, v); inpl(v);
    viewed<T> w(r, v.data); { const auto x = w.big[w.ids]; sorted(r, x); }
    auto s = v; inplace_sort(s); { obj o("issorted"); o.raw("v", vv::js(s)); rec(o, [&](obj& q) { q.raw("r", "[" + vp::num(is_sorted(s)) + "]"); }); }
    auto m = rv<2,T>(r, vv::rdims<2>(r, 0, 4), 4, special); sorted(r, m); inpl(m);
}
void vp::setup() {
    vp::add("sort", 120, 4000, [](rng& r, long i) {
        if (i % 3 == 0) sort_case<int>(r, i, false); else if (i % 3 == 1) sort_case<double>(r, i, i % 2); else sort_case<std::string>(r, i, false);
    });
    setup_order2(); setup_order3();
}
