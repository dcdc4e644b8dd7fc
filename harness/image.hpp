#include "find.hpp"
#include "vif/utility/time.hpp"
#include "vif/io/fits.hpp"
#include "vif/astro/astro.hpp"
#include "vif/astro/image.hpp"
using namespace vif::astro; using std::string;
static string fxp(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); double v = std::round(x*s); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)v); }
template<class V> static string fxv(const V& v, double s) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += fxp(v.safe[i], s); } return r + "]"; }
// result that should be whole up to rounding errors
static string whole(double x, double s = 1) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; double v = std::round(x); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::fabs(x - v) > 1e-6 ? std::to_string(vp::V_FRAC) : std::to_string((long)v); }
template<class V> static string wholes(const V& v, double s = 1) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += whole(v.safe[i], s); } return r + "]"; }
template<class V> static obj& im(obj& o, const V& x) { return o.raw("d", vv::jd(x)).raw("v", vv::js(x)); }
