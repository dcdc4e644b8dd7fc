#include "dec.hpp"
template<class T> void lim(obj& o) {
    char b[64];
    if (std::numeric_limits<T>::is_integer) {
        snprintf(b, 64, "%llu", (unsigned long long)std::numeric_limits<T>::max()); o.t("kind", "int").raw("mx", jds(b));
        if (std::numeric_limits<T>::is_signed) { snprintf(b, 64, "%lld", (long long)std::numeric_limits<T>::min()); o.raw("mn", jds(b + 1)); } else o.raw("mn", "[]");
    } else o.t("kind", "real").n("xmax", sizeof(T) == 4 ? 38 : 308);
}
template<class T> string rtext(rng& r) { // number-like text
    string s; bool intg = std::numeric_limits<T>::is_integer, uns = !std::numeric_limits<T>::is_signed; int nd = intg ? 5 : sizeof(T) == 4 ? 6 : 9;
    switch (r.in(0, 9)) {
    case 0: { s = rs(r, uns ? "01.e+ 9" : "01.e+- 9", 0, 5); return s; }
    case 1: if (!intg) { static const std::vector<string> w = {"nan", "NaN", "+nan", "-NAN", "inf", "Inf", "+INF", "INF+", "-inf", "inf-", "na", "infinity", "in"}; return r.pick(w); } break;
    case 2: if (intg) { // around the limits
            char b[64]; if (std::numeric_limits<T>::is_signed && r.chance(1,2)) snprintf(b, 64, "%lld", (long long)std::numeric_limits<T>::min()); else snprintf(b, 64, "%llu", (unsigned long long)std::numeric_limits<T>::max());
            s = b; if (r.chance(2,3)) { for (int i = (int)s.size() - 1; i >= 0; --i) { if (s[i] == '-') break; if (r.chance(1,2)) { if (s[i] < '9') ++s[i]; break; } else if (s[i] > '0' && r.chance(1,2)) { --s[i]; break; } } if (r.chance(1,6)) s += "0"; } return s; }
        s = r.chance(1,2) ? "1e" : "-9.5e"; return s + std::to_string(r.in(0, 1) ? r.in(30, 36) : sizeof(T) == 4 ? r.in(39, 320) : r.in(309, 400));
    }
    if (r.chance(1,5)) s += string(" \t").substr(r.in(0, 1), 1);
    if (r.chance(1,4)) s += uns ? "+" : r.chance(1,2) ? "-" : "+";
    if (r.chance(1,6)) s += "00";
    long n = r.in(intg ? 1 : 0, nd); string d = rs(r, "0123456789", n, n); 
    if (intg) s += d; else { long c = r.in(0, n); s += d.substr(0, c); if (c < n || r.chance(1,3)) s += "." + d.substr(c); if (r.chance(1,3)) s += string(r.chance(1,2) ? "e" : "E") + (r.chance(1,2) ? "-" : r.chance(1,2) ? "+" : "") + std::to_string(r.in(0, 25)); }
    if (r.chance(1,5)) s += r.pick(std::vector<string>{" ", "\t ", "\n", "x", " 1", ".", "e", "-"});
    return s;
}
template<class T> void readcase(rng& r) {
    if (r.chance(2,3)) {
        string s = rtext<T>(r); T x = T(); obj o("read"); o.n("s", s); lim<T>(o); bool b = false;
        rec(o, [&](obj& q) { b = from_string(s, x); q.n("b", b).raw("r", jval(x)); });
    } else {
        vec2s v(2, r.in(1, 2)); for (auto& s : v.data) s = rtext<T>(r);
        obj o("readv"); o.raw("s", sv(v)).raw("d", vv::jd(v)); lim<T>(o);
        rec(o, [&](obj& q) { vec<2,T> x; if (r.chance(1,2)) x.resize(v.dims); vec2b b = from_string(v, x); std::vector<string> w; for (auto& y : x.data) w.push_back(jval((T)y)); q.raw("b", vv::js(b)).raw("bd", vv::jd(b)).raw("r", vp::arr(w)).raw("rd", vv::jd(x)); });
    }
}
template<class T> void ints(rng& r) {
    auto mk = [&] { long v = r.chance(1,3) ? r.in(-999999999, 999999999) : r.in(-120, 120); return (T)v; };
    auto jn = [&](T x) { return vp::num((long)x); };
    long f = r.in(0, 2);
    if (f == 0) { T x = mk(); obj o("itext"); o.raw("n", jn(x)); rec(o, [&](obj& q) { q.n("r", vif::to_string(x)); }); return; }
    vec<2,T> v(r.in(0, 2), r.in(1, 2)); std::vector<string> w; for (auto& x : v.data) { x = mk(); w.push_back(jn(x)); }
    obj o(f == 1 ? "ilist" : "ivec"); o.raw("n", vp::arr(w)).raw("d", vv::jd(v));
    rec(o, [&](obj& q) { if (f == 1) q.n("r", vif::to_string(v)); else { vec2s s = to_string_vector(v); q.raw("r", sv(s)).raw("rd", vv::jd(s)); } });
}
template<class T> void floats(rng& r) {
    int nd = sizeof(T) == 4 ? 6 : 9; long mode = r.in(0, 4), f = r.in(0, 2);
    uint_t p = r.in(0, sizeof(T) == 4 ? 4 : 9);
    vec<1,T> v(f == 0 ? 1 : r.in(0, 3)); std::vector<string> w;
    for (auto& x : v.data) { dec d = rdec(r, nd); if (mode >= 3) while (d.x > (sizeof(T) == 4 ? 2 : 6)) d = rdec(r, nd); x = (T)mkd(d); w.push_back(jdec(d)); }
    const char* mn[] = {"g", "g", "e", "f", "f"};
    if (mode == 0) p = 6; if (mode == 2 || (mode == 3 && f == 2)) p = 6;
    if (mode == 2 && sizeof(T) == 4) return; // seven digits are beyond the precision of the type
    if (mode == 3 && f == 2 && sizeof(T) == 4) return;
    obj o(f == 0 ? "ftext" : f == 1 ? "flist" : "fvec"); o.t("mode", mn[mode]).n("p", p).raw("v", vp::arr(w)).raw("d", vv::jd(v)).t("ty", sizeof(T) == 4 ? "f" : "d");
    if (f == 0) rec(o, [&](obj& q) { T x = v.safe[0]; string s;
        switch (mode) { case 0: s = vif::to_string(x); break; case 1: s = vif::to_string(format::precision(x, p)); break; case 2: s = vif::to_string(format::scientific(x)); break;
            case 3: s = vif::to_string(format::fixed(format::precision(x, p))); break; default: s = vif::to_string(format::precision(format::fixed(x), p)); } q.n("r", s); });
    else if (f == 1) rec(o, [&](obj& q) { string s;
        switch (mode) { case 0: s = vif::to_string(v); break; case 1: s = vif::to_string(format::precision(v, p)); break; case 2: s = vif::to_string(format::scientific(v)); break;
            case 3: s = vif::to_string(format::fixed(format::precision(v, p))); break; default: s = vif::to_string(format::precision(format::fixed(v), p)); } q.n("r", s); });
    else { if (mode == 4) return; rec(o, [&](obj& q) { vec1s s;
        switch (mode) { case 0: s = to_string_vector(v); break; case 1: s = to_string_vector(format::precision(v, p)); break; case 2: s = to_string_vector(format::scientific(v)); break;
            default: s = to_string_vector(format::fixed(v)); } q.raw("r", sv(s)).raw("rd", vv::jd(s)); }); }
}
template<class T, class U> void trip(rng& r) {
    T x; U u; do { u = (U)r.next(); memcpy(&x, &u, sizeof x); } while (!std::isfinite(x) || (x != 0 && std::abs(x) < std::numeric_limits<T>::min()));
    auto bits = [](T y) { U v; memcpy(&v, &y, sizeof y); string s = "["; for (size_t k = 0; k < sizeof v/2; ++k) { if (k) s += ","; s += std::to_string((unsigned)((v >> (16*k)) & 0xffff)); } return s + "]"; };
    obj o("trip"); o.raw("v", bits(x));
    rec(o, [&](obj& q) { T y = 0; bool b = from_string(vif::to_string(format::precision(x, std::numeric_limits<T>::max_digits10)), y); q.n("b", b).raw("r", bits(y)); });
}
void vp::setup() {
    add("read", 2400, 20000, [](rng& r, long i) {
        switch (i % 8) { case 0: readcase<int>(r); break; case 1: readcase<long>(r); break; case 2: readcase<short>(r); break; case 3: readcase<unsigned long>(r); break;
            case 4: readcase<unsigned>(r); break; case 5: readcase<float>(r); break; default: readcase<double>(r); } });
    add("ints", 600, 3000, [](rng& r, long i) { switch (i % 5) { case 0: ints<int>(r); break; case 1: ints<long>(r); break; case 2: ints<short>(r); break; case 3: ints<unsigned short>(r); break; default: ints<bool>(r); } });
    add("floats", 2400, 20000, [](rng& r, long i) { if (i % 3) floats<double>(r); else floats<float>(r); });
    add("trip", 600, 5000, [](rng& r, long i) { if (i % 3) trip<double, uint64_t>(r); else trip<float, uint32_t>(r); });
    add("misc", 60, 60, [](rng& r, long i) {
        if (i < 6) { double x = i % 3 == 0 ? NAN : i % 3 == 1 ? INFINITY : -INFINITY; obj o("special"); o.t("k", i % 3 == 0 ? "nan" : i % 3 == 1 ? "inf" : "ninf"); rec(o, [&](obj& q) { q.n("r", i < 3 ? vif::to_string(x) : vif::to_string((float)x)); }); }
        else { vec1s v(r.in(0, 3)); for (auto& s : v.data) s = rs(r, "ab ,", 0, 3); obj o("slist"); o.raw("n", sv(v)); rec(o, [&](obj& q) { q.n("r", vif::to_string(v)); }); }
    });
}
