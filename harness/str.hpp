#include "find.hpp"
#include "vif/utility/string.hpp"
using std::string;
// strings over a small alphabet so that patterns occur and overlap
inline string rs(rng& r, const string& al, long lo, long hi) { string s; long n = r.in(lo, hi); for (long i = 0; i < n; ++i) s += al[r.in(0, (long)al.size()-1)]; return s; }
inline string sq(const std::vector<string>& v) { std::vector<string> w; for (auto& x : v) w.push_back(vp::num(x)); return vp::arr(w); }
template<std::size_t D, class T> string sv(const vec<D,T>& v) { std::vector<string> w; for (uint_t i = 0; i < v.size(); ++i) w.push_back(vp::num(v.safe[i])); return vp::arr(w); }
