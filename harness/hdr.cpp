// FITS headers as text
#include "dec.hpp"
#include "vif/io/fits/base.hpp"
#include "vif/utility/time.hpp"
#include "vif/astro/wcs.hpp"
typedef std::vector<string> strs;
static string pad(string s, size_t n) { if (s.size() > n) s.resize(n); return s + string(n - s.size(), ' '); }
static const strs names{"A", "AB", "NAXIS1", "END2", "CRVAL1", "EXTEND", "RADECSYS", "SECPIX", "A/B", "HIERARCH"};
static string qstr(rng& r, long hi) { string s = rs(r, "ab /'=& E", 0, hi), o; for (char c : s) { o += c; if (c == '\'') o += c; } return "'" + o + "'"; }
static string rvalue(rng& r) {
    switch (r.in(0, 6)) { case 0: return std::to_string(r.in(-99, 99)); case 1: return std::to_string(r.in(-9, 9)) + "." + std::to_string(r.in(0, 99)); case 2: return r.chance(1,2) ? "T" : "F"; case 3: return r.chance(1,2) ? "" : "1.5E-3"; default: return qstr(r, r.chance(1,6) ? 40 : 8); }
}
static string card(rng& r) {
    if (r.chance(1,10)) return pad(r.pick(strs{"HISTORY ", "COMMENT ", "COMMENT  a = b / c", "HISTORY x=1/2 'q'", "", "        blank", "ABC / only a comment", "LONE", "COMMENT"}) + "", 80);
    string n = r.pick(names); if (n == "HIERARCH") n = "HIERARCH E.F G"; string v = rvalue(r); if (v.size() > 60) v = "'x'"; string c = n.size() > 8 ? n + " = " : pad(n, 8) + "= "; if (v[0] != '\'' && r.chance(1,2) && v.size() < 20) c += string(20 - v.size(), ' ');
    c += v; if (r.chance(1,2)) c += (r.chance(1,4) ? "/" : " / ") + rs(r, "cd '/=&", 0, r.chance(1,4) ? 60 : 12); return pad(c, 80);
}
static string text(rng& r) {
    string h; long n = r.in(0, 7);
    for (long i = 0; i < n; ++i) { h += card(r); if (r.chance(1,12)) { h += pad("LONGSTR = '" + rs(r, "ab ", 0, 20) + "&'", 80); long m = r.in(1, 3); for (long j = 0; j < m; ++j) h += pad("CONTINUE  '" + rs(r, "ab ", 0, 12) + (j + 1 < m ? "&" : "") + "'" + (r.chance(1,3) ? " / cc" : ""), 80); } }
    if (r.chance(2,3)) h += pad("END", 80);
    return h;
}
static string jd12(double x) { char b[64]; snprintf(b, 64, "%.11e", x); string t = b; bool neg = t[0] == '-'; if (neg) t = t.substr(1); size_t e = t.find('e'); obj o; o.t("k", "n").n("neg", neg).raw("ds", jds(t.substr(0, 1) + t.substr(2, e - 2))).n("x", atoi(t.c_str() + e + 1) + 1); return o.done(); }
struct sess {
    rng& r; fits::header h;
    explicit sess(rng& r_) : r(r_) { h = text(r); vp::emit(obj("begin").n("ok", 1).n("h", h)); }
    string key() { return r.chance(1,6) ? r.pick(strs{"B", "NEW", "END", "TOOLONGKEY", "LONGSTR", "HISTORY"}) : r.pick(names); }
    void get() {
        string k = key(); if (k == "HIERARCH") k = "HIERARCH E.F G"; int t = r.in(0, 2); obj o("get"); o.n("key", k).t("k", t == 0 ? "s" : t == 1 ? "i" : "d");
        rec(o, [&](obj& q) { if (t == 0) { string v; bool b = fits::getkey(h, k, v); q.n("b", b).n("r", v); } else if (t == 1) { int v = 0; bool b = fits::getkey(h, k, v); q.n("b", b).raw("r", jval<int>(v)); } else { double v = 0; bool b = fits::getkey(h, k, v); if (!b) v = 0; q.n("b", b).raw("r", jd12(v)); } });
    }
    void set() {
        string k = key(); if (k == "HIERARCH" || k == "LONGSTR") k = "B"; string c = r.chance(1,2) ? "" : rs(r, "xy'/ ", 1, r.chance(1,5) ? 70 : 9); if (c.find_first_not_of(' ') == string::npos) c = ""; int t = r.in(0, 2); obj o("set"); o.n("key", k).n("com", c).t("k", t == 0 ? "s" : t == 1 ? "i" : "d");
        string sv = r.chance(1,3) ? "'" + string(r.in(50, 75), 'q') + "'" : qstr(r, 9); if (r.chance(2,3)) sv = qstr(r, 6); int iv = r.in(-200, 200); double dv = r.in(-4000, 4000)/r.pick<double>({1, 4, 1000, 1e6});
        if (t == 0) o.n("v", sv); else if (t == 1) o.raw("v", jval<int>(iv)); else o.raw("v", jd12(dv));
        fits::header g = h;
        rec(o, [&](obj& q) { bool b = t == 0 ? (c.empty() ? fits::setkey(h, k, sv) : fits::setkey(h, k, sv, c)) : t == 1 ? fits::setkey(h, k, iv, c) : fits::setkey(h, k, dv, c); q.n("b", b).n("h", h); });
    }
    void step() {
        long k = r.in(0, 9);
        if (k < 4) set(); else if (k < 7) get();
        else if (k == 7) { obj o("parse"); rec(o, [&](obj& q) { auto p = fits::parse_header(h); strs w; for (uint_t i = 0; i < p.size(); ++i) w.push_back(obj().n("key", p.safe[i].key).n("value", p.safe[i].value).n("comment", p.safe[i].comment).n("no", p.safe[i].novalue).done()); q.raw("r", vp::arr(w)); }); }
        else if (k == 8) { obj o("serial"); rec(o, [&](obj& q) { q.n("r", fits::serialize_header(fits::parse_header(h))); }); }
        else { obj o("wcs"); rec(o, [&](obj& q) { q.n("r", astro::filter_wcs(h)); }); }
    }
};
void vp::setup() { vp::add("hdr", 500, 7000, [](rng& r, long) { sess s(r); long n = r.in(2, 10); for (long i = 0; i < n; ++i) s.step(); }); }
