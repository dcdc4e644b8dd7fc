#include "vv.hpp"
#include <limits>
using namespace vv; using namespace vif;
template<class T> T val(rng& r, int range, bool special) { return (T)r.in(-range, range); }
template<> inline std::string val<std::string>(rng& r, int range, bool) { return el<std::string>::mk(r.in(10, 10 + std::min(range, 80))); }
template<> inline double val<double>(rng& r, int range, bool special) {
    if (special && r.chance(1,8)) return std::numeric_limits<double>::quiet_NaN();
    if (special && r.chance(1,16)) return r.chance(1,2) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    return (double)r.in(-range, range);
}
template<> inline unsigned long val<unsigned long>(rng& r, int range, bool) { return r.in(0, 2*range); }
template<std::size_t D, class T> vec<D,T> rv(rng& r, const std::array<std::size_t,D>& d, int range, bool special = false) {
    vec<D,T> v; v.dims = d; v.resize(); for (auto& x : v.data) x = val<T>(r, range, special); return v;
}
template<std::size_t D> vec<D,bool> rb(rng& r, const std::array<std::size_t,D>& d, int den) {
    vec<D,bool> v; v.dims = d; v.resize(); for (auto& x : v.data) x = r.chance(1, den); return v;
}
// a view on a larger vector showing v, in the same order
template<class T> struct viewed {
    vec<1,T> big; vec1u ids;
    viewed(rng& r, const std::vector<T>& v) {
        big.resize(v.size()*2 + 3); ids.resize(v.size());
        std::vector<std::size_t> p(big.size()); for (std::size_t i = 0; i < p.size(); ++i) p[i] = i;
        for (std::size_t i = p.size(); i > 1; --i) std::swap(p[i-1], p[r.in(0, i-1)]);
        for (std::size_t i = 0; i < big.size(); ++i) big.safe[i] = v.empty() ? T() : v[i % v.size()];
        for (std::size_t i = 0; i < v.size(); ++i) { ids.safe[i] = p[i]; big.safe[p[i]] = v[i]; }
    }
};
template<class V> std::string sh(const V& v) { return vv::jd(v); }
template<class F> void rec(obj& o, F f) { obj res; int ok = vp::guard([&] { f(res); }); o.n("ok", ok); if (ok == 1) o.s += "," + res.s; else o.raw("r", "[]"); vp::emit(o); }
