#include "find.hpp"
#include "vif/math/base.hpp"
#include "vif/math/reduce.hpp"
// fixed point
inline std::string fx(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); return vp::num(std::floor(x*s + 0.5)); }
inline std::string fx1(double x, double s) { return "[" + fx(x, s) + "]"; }
template<std::size_t D, class T> std::string fxs(const vec<D,T>& v, double s) { std::string r = "["; for (uint_t i : range(v)) { if (i) r += ","; r += fx(v.safe[i], s); } return r + "]"; }
template<class V, class F> void fn(const char* f, const V& x, double s, F g) {
    obj o("fn"); o.t("f", f).raw("v", vv::js(x)); rec(o, [&](obj& q) { auto z = g(x); q.raw("r", fx1(z, s)).raw("after", vv::js(x)); });
}
