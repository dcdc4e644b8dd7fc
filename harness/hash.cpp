// hash() of arguments
#include "find.hpp"
#include "vif/utility/string.hpp"
using std::string;
static string hx(const string& s) { string r = "["; for (uint_t i = 0; i < s.size(); ++i) { char c = s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 16; r += (i ? "," : "") + std::to_string(d); } return r + "]"; }
template<class T> static string nums(const std::vector<T>& v) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string((long)v[i]); return r + "]"; }
template<class T> static string call(const std::vector<T>& v, bool tmp) {
    #define A(i) v[i]
    T a = v.size() > 0 ? v[0] : T(), b = v.size() > 1 ? v[1] : T(); const T c = v.size() > 2 ? v[2] : T();
    switch (v.size()) {
        case 0: return hash(); case 1: return tmp ? hash(T(a)) : hash(a); case 2: return tmp ? hash(T(a), b) : hash(a, T(b)); case 3: return tmp ? hash(T(a), T(b), T(c)) : hash(a, b, c); case 4: return hash(A(0),A(1),A(2),A(3)); case 5: return hash(A(0),A(1),A(2),A(3),A(4)); case 6: return hash(A(0),A(1),T(A(2)),A(3),A(4),A(5));
        case 8: return hash(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7)); case 10: return hash(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9)); case 13: return hash(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10),A(11),A(12)); default: return hash(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10),A(11),A(12),A(13),A(14),A(15),A(16),A(17));
    }
}
template<class T> static void ints(rng& r, int t, long most) {
    static const int ns[] = {0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 18}; std::vector<T> v(ns[r.in(0, 10)]); for (auto& x : v) { long m = 1; int d = r.in(0, 9); for (int i = 0; i < d; ++i) m *= 10; x = T(std::min(m*r.in(0, 9) + r.in(0, 9), most)); if (x != 0 && std::is_signed<T>::value && r.chance(1,4)) x = -x; }
    obj e("ints"); e.n("t", t).raw("v", nums(v)); bool tmp = r.chance(1,2); rec(e, [&](obj& q) { q.raw("r", hx(call(v, tmp))); });
}
// argument lists: the description and the hash
struct many { std::vector<std::pair<string,string>> l; void add(const string& a, const string& h) { l.push_back({a, h}); } };
// same description for same type and value
static string text(const string& s) { string r = "["; for (uint_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char)s[i]); return r + "]"; }
static string real(double x) { char b[60]; std::snprintf(b, sizeof b, "%a", x); return text(b); }
template<class T> struct de { static string go(const T& t) { return real(t); } static T mk(rng& r) { static const double b[] = {0, 1, 1.0/3, 0.12345678, 1e10/3, 1e-7, 123456789, -2.5}; double x = b[r.in(0, 7)]; int k = r.in(0, 3); return k == 1 ? std::nextafter(T(x), T(1e30)) : k == 2 ? T(x*(1 + 1e-6)) : T(x); } };
template<> struct de<int> { static string go(int t) { return "[" + std::to_string(t) + "]"; } static int mk(rng& r) { return r.in(0, 12)*(r.chance(1,2) ? 1 : -1); } };
template<> struct de<uint_t> { static string go(uint_t t) { return "[" + std::to_string(t) + "]"; } static uint_t mk(rng& r) { return r.in(0, 30); } };
template<> struct de<bool> { static string go(bool t) { return t ? "[1]" : "[0]"; } static bool mk(rng& r) { return r.chance(1,2); } };
template<> struct de<string> { static string go(const string& s) { return text(s); } static string mk(rng& r) { static const char* b[] = {"", "a", "b", "a, b", "ab", ", ", "{a}", "1", "12", "a\n", " "}; if (r.chance(1,4)) { string s(r.in(0, 140), 'x'); for (auto& c : s) if (r.chance(1,20)) c = (char)r.in(1, 255); if (s.size() && r.chance(1,5)) s[0] = 0; return s; } return b[r.in(0, 10)]; } };
template<class T> static const char* ty(); template<> const char* ty<int>() { return "i"; } template<> const char* ty<uint_t>() { return "u"; } template<> const char* ty<double>() { return "d"; } template<> const char* ty<float>() { return "f"; } template<> const char* ty<bool>() { return "b"; } template<> const char* ty<string>() { return "s"; }
template<class T> static string d1(const T& t) { return "[\"" + string(ty<T>()) + "\",[],[" + de<T>::go(t) + "]]"; }
template<std::size_t D, class T> static string dv(const vec<D,T>& v) { string s = "[\"" + string(ty<T>()) + "\"," + vp::seq(v.dims) + ",["; for (uint_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + de<T>::go(v.safe[i]); return s + "]]"; }
template<class T> static void scal(rng& r, many& m) { T t = de<T>::mk(r); const T& c = t; string d = "[" + d1<T>(t) + "]"; m.add(d, hash(t)); if (r.chance(1,2)) m.add(d, hash(c)); if (r.chance(1,2)) m.add(d, hash(T(t))); T u = de<T>::mk(r); d = "[" + d1<T>(t) + "," + d1<T>(u) + "]"; m.add(d, r.chance(1,2) ? hash(t, u) : hash(T(t), c == t ? u : u)); }
template<class T> static void vecs(rng& r, many& m) {
    uint_t a = r.in(0, 3), b = r.in(0, 3); vec<2,T> v(a, b), w(b, a); vec<1,T> f(a*b); for (uint_t i = 0; i < a*b; ++i) { T t = de<T>::mk(r); v.safe[i] = t; w.safe[i] = t; f.safe[i] = t; }
    m.add("[" + dv(v) + "]", hash(v)); m.add("[" + dv(w) + "]", hash(w)); m.add("[" + dv(f) + "]", hash(f)); if (r.chance(1,2)) m.add("[" + dv(f) + "]", hash(vec<1,T>(f))); vec<1,T> g = f; if (g.size()) { g.resize(g.size() - 1); m.add("[" + dv(g) + "]", hash(g)); m.add("[" + dv(f) + "," + dv(g) + "]", hash(f, g)); m.add("[" + dv(g) + "," + dv(f) + "]", hash(g, f)); T t = f.safe[0]; m.add("[" + d1<T>(t) + "," + dv(f) + "]", hash(t, f)); m.add("[" + dv(f) + "," + d1<T>(t) + "]", hash(f, t)); }
}
static void lists(rng& r) {
    obj e("many"); rec(e, [&](obj& q) { many m; int n = r.in(2, 6); for (int i = 0; i < n; ++i) switch (r.in(0, 10)) { case 0: scal<int>(r, m); break; case 1: scal<double>(r, m); break; case 2: scal<float>(r, m); break; case 3: case 4: scal<string>(r, m); break; case 5: vecs<int>(r, m); break; case 6: vecs<double>(r, m); break; case 7: vecs<float>(r, m); break; case 8: case 9: vecs<string>(r, m); break; default: scal<uint_t>(r, m); vecs<bool>(r, m); }
        string a = "[", h = "["; for (uint_t i = 0; i < m.l.size(); ++i) { a += (i ? "," : "") + m.l[i].first; h += (i ? "," : "") + hx(m.l[i].second); } q.raw("a", a + "]").raw("r", h + "]"); });
}
void vp::setup() {
    vp::add("ints", 150, 2000, [](rng& r, long) { ints<int>(r, 'i', 2000000000); });
    vp::add("reals", 60, 800, [](rng& r, long) { ints<double>(r, 'd', 900000); });
    vp::add("unsigned", 60, 800, [](rng& r, long) { ints<uint_t>(r, 'm', 2000000000); });
    vp::add("lists", 400, 8000, [](rng& r, long) { lists(r); });
}
