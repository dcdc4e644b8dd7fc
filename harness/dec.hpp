#include "str.hpp"
#include "vif/core/string_conversion.hpp"
#include <limits>
// decimal numbers
struct dec { bool neg; string ds; int x; };
static string jds(const string& d) { string r = "["; for (size_t i = 0; i < d.size(); ++i) { if (i) r += ","; r += d[i]; } return r + "]"; }
static string jdec(const dec& v) { obj o; o.n("neg", v.neg).raw("ds", jds(v.ds)).n("x", v.x); return o.done(); }
static dec rdec(rng& r, int nd) {
    dec v; v.neg = r.chance(1,3); v.x = r.chance(1,4) ? r.in(-30, 30) : r.in(-6, 9);
    long n = r.in(0, nd); for (long i = 0; i < n; ++i) v.ds += r.chance(1,4) ? '9' : r.chance(1,5) ? '0' : (char)('0' + r.in(0, 9));
    size_t p = v.ds.find_first_not_of('0'); if (p == string::npos) v.ds = ""; else v.ds = v.ds.substr(p);
    while (!v.ds.empty() && v.ds.back() == '0') v.ds.pop_back();
    if (v.ds.empty()) v.x = 0;
    return v;
}
static double mkd(const dec& v) { return strtod(((v.neg ? "-0." : "0.") + v.ds + "0e" + std::to_string(v.x)).c_str(), nullptr); }
template<class T> string jval(T x) { // value read, independently of vif
    obj o; char b[64];
    if (std::numeric_limits<T>::is_integer) {
        if (std::numeric_limits<T>::is_signed) snprintf(b, 64, "%lld", (long long)x); else snprintf(b, 64, "%llu", (unsigned long long)x);
        string s = b; bool neg = s[0] == '-'; if (neg) s = s.substr(1); if (s == "0") s = "";
        o.t("k", "n").n("neg", neg).raw("ds", jds(s)).n("x", 0);
    } else if (x != x) o.t("k", "nan"); else if (x > 0 && x*0.5 == x) o.t("k", "inf"); else if (x < 0 && x*0.5 == x) o.t("k", "ninf");
    else {
        snprintf(b, 64, "%.*e", sizeof(T) == 4 ? 5 : 8, (double)x); string s = b; bool neg = s[0] == '-'; if (neg) s = s.substr(1);
        size_t e = s.find('e'); o.t("k", "n").n("neg", neg).raw("ds", jds(s.substr(0, 1) + s.substr(2, e - 2))).n("x", atoi(s.c_str() + e + 1) + 1);
    }
    return o.done();
}

static string rtext_d(rng& r) { long n = r.in(1, 8), c = r.in(0, n); string d = rs(r, "0123456789", n, n); return (r.chance(1,4) ? "-" : "") + d.substr(0, c) + (c < n ? "." + d.substr(c) : "") + (r.chance(1,4) ? "e" + std::to_string(r.in(-20, 20)) : ""); }
