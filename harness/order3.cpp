#include "order.hpp"
template<class T> void two_case(rng& r, long i, bool special) {
    auto sz = [&]() { return std::array<std::size_t,1>{{(std::size_t)(i % 6 == 0 ? r.in(60, 110) : i < 24 ? (i + r.in(0,1))/6 : r.in(0, 14))}}; };
    int rg = r.pick<int>({1, 4, 30, 60});
    auto a = rv<1,T>(r, sz(), rg, special), b = rv<1,T>(r, sz(), rg, special);
    two(a, b);
    viewed<T> w(r, a.data), x(r, b.data);
    { const auto p = w.big[w.ids]; const auto q = x.big[x.ids]; two(p, q); two(a, q); }
    auto m = rv<2,T>(r, vv::rdims<2>(r, 0, 5), rg, special); two(m, b);
}
template<class T> void set_case(rng& r, long i) {
    auto sz = [&]() { return std::array<std::size_t,1>{{(std::size_t)r.in(0, 12)}}; };
    int rg = r.pick<int>({1, 4, 30});
    auto a = rv<1,T>(r, sz(), rg), b = rv<1,T>(r, sz(), rg);
    sets(a, b);
    viewed<T> w(r, a.data), x(r, b.data);
    { const auto p = w.big[w.ids]; const auto q = x.big[x.ids]; sets(p, q); }
    auto pa = a, pb = b; inplace_sort(pa); inplace_sort(pb); sets_sorted(pa, pb);
    auto m = rv<2,T>(r, vv::rdims<2>(r, 0, 4), rg); sets(m, b);
    { obj o("same"); o.raw("v", vv::js(a)).raw("w", vv::js(b)); }
}
void setup_order3() {
    vp::add("match", 120, 4000, [](rng& r, long i) {
        if (i % 3 == 0) two_case<int>(r, i, false); else if (i % 3 == 1) two_case<double>(r, i, i % 2 == 0); else two_case<std::string>(r, i, false);
    });
    vp::add("sets", 60, 2000, [](rng& r, long i) { if (i % 2) set_case<int>(r, i); else set_case<double>(r, i); });
}
