#include "rearr.hpp"
template<std::size_t D> std::array<std::size_t,D> like(rng& r, std::array<std::size_t,D> d, std::size_t n) {
    d[n] = r.in(0, 3); if (r.chance(1, 5)) { std::size_t k = r.in(0, D - 1), j = r.in(0, D - 1); if (r.chance(1, 2)) std::swap(d[k], d[j]); else d[k] = r.in(0, 4); } return d;
}
template<class T> void two_case(rng& r) {
    auto v = vv::iota<2,T>(vv::rdims<2>(r, r.chance(1, 6) ? 0 : 1, 4), 3);
    tran(v); shape(r, v); rem(r, v); repl(v, r.in(0, 3), r.in(0, 2));
    { auto y = vv::iota<2,T>(like(r, v.dims, 0), 50); joins<0>(v, y); joins<0>(v, vv::all_view(y)); }
    { auto y = vv::iota<2,T>(like(r, v.dims, 1), 50); joins<1>(v, y); const auto& cy = y; joins<1>(v, vv::all_view(cy)); }
    { auto y = vv::all_view(v); shape(r, y); repl(y, r.in(0, 3), r.in(0, 2)); }
}
template<class T> void three_case(rng& r) {
    auto v = vv::iota<3,T>(vv::rdims<3>(r, r.chance(1, 6) ? 0 : 1, 3), 3);
    shape(r, v); rem(r, v);
    joins<0>(v, vv::iota<3,T>(like(r, v.dims, 0), 50)); joins<1>(v, vv::iota<3,T>(like(r, v.dims, 1), 50)); joins<2>(v, vv::iota<3,T>(like(r, v.dims, 2), 50));
    { auto y = vv::all_view(v); shape(r, y); }
}
void setup_rearr2() {
    vp::add("two", 120, 3000, [](rng& r, long i) { if (i % 2) two_case<int>(r); else two_case<std::string>(r); });
    vp::add("three", 80, 2000, [](rng& r, long i) { if (i % 2) three_case<int>(r); else three_case<double>(r); });
}
