#include "order.hpp"
template<class T> void uniq_case(rng& r, long i) {
    std::array<std::size_t,1> d = {{(std::size_t)(i < 16 ? i/4 : r.in(0, i % 10 == 0 ? 80 : 12))}};
    auto v = rv<1,T>(r, d, r.pick<int>({1, 3, 20}));
    uniq(v);
    viewed<T> w(r, v.data); { const auto x = w.big[w.ids]; uniq(x); }
    auto s = v; inplace_sort(s); usorted(s);
    { viewed<T> q(r, s.data); const auto x = q.big[q.ids]; usorted(x); }
    for (int k = 0; k < 3; ++k) {
        T a = val<T>(r, 6, false), b = val<T>(r, 6, false); if (k == 0 && !s.empty()) a = s.safe[r.in(0, s.size()-1)];
        if (b < a) std::swap(a, b);
        bnd(s, a, b);
        { viewed<T> q(r, s.data); const auto x = q.big[q.ids]; bnd(x, a, b); }
    }
    auto m = rv<2,T>(r, vv::rdims<2>(r, 0, 4), 4); uniq(m);
}
void setup_order2() {
    vp::add("unique", 90, 3000, [](rng& r, long i) {
        if (i % 3 == 0) uniq_case<int>(r, i); else if (i % 3 == 1) uniq_case<double>(r, i); else uniq_case<std::string>(r, i);
    });
}
