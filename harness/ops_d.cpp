// element-wise operators on numbers that are not whole, and between different types
#include "ops.hpp"
static const int Q = 16; // results are in sixteenths, operands in quarters
template<class T> T qval(rng& r, bool two) { if (two) { int s = r.chance(1,2) || std::is_unsigned<T>::value ? 1 : -1; return std::is_integral<T>::value ? T(s*(1 << r.in(0, 2))) : T(s*(1 << r.in(0, 3))*0.5); } return std::is_integral<T>::value ? T(r.in(-9, 9)) : T(r.in(-30, 30)*0.25); }
template<class T, std::size_t D> vec<D,T> qv(rng& r, const std::array<std::size_t,D>& d, bool two) { vec<D,T> v; v.dims = d; v.resize(); for (auto& x : v.data) x = qval<T>(r, two); return v; }
template<std::size_t D, class T> std::string qj(const vec<D,T>& v, double sc) { std::string s = "["; for (uint_t i = 0; i < v.data.size(); ++i) { if (i) s += ","; s += vp::num((double)v.safe[i], sc); } return s + "]"; }
template<std::size_t D, class T> std::string qa(const vec<D,T>& v) { return "{\"s\":0,\"d\":" + jd(v) + ",\"v\":" + qj(v, 4) + "}"; }
template<class T> std::string qs(T x) { return "{\"s\":1,\"x\":" + vp::num((double)x, 4) + "}"; }
template<std::size_t D> void qput(obj& o, const vec<D,bool>& v) { o.raw("rd", jd(v)).raw("r", qj(v, 1)); }
template<std::size_t D, class T> void qput(obj& o, const vec<D,T>& v) { o.raw("rd", jd(v)).raw("r", qj(v, Q)); }
template<class O, class T, class U, std::size_t D> void binq(rng& r, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    bool div = std::string(O::n()) == "/"; auto a0 = qv<T>(r, d, false); auto b0 = qv<U>(r, e, div); T sa = qval<T>(r, false); U sb = qval<U>(r, div);
    for (int c = 0; c < 14; ++c) {
        vec<D,T> a = a0; vec<D,U> b = b0; const auto& ca = a; const auto& cb = b; obj o("frac"); o.t("o", O::n()); obj res; int ok = 0; bool ka = true, kb = true; std::string A = qa(a0), B = qa(b0);
        #define QC(EA, EB) ok = vp::guard([&] { qput(res, O::f(EA, EB)); })
        switch (c) {
        case 0: QC(ca, cb); break; case 1: QC(std::move(a), cb); ka = false; break; case 2: QC(ca, std::move(b)); kb = false; break; case 3: QC(std::move(a), std::move(b)); ka = kb = false; break;
        case 4: QC(ca, sb); B = qs(sb); break; case 5: QC(std::move(a), sb); B = qs(sb); ka = false; break; case 6: QC(sa, cb); A = qs(sa); break; case 7: QC(sa, std::move(b)); A = qs(sa); kb = false; break;
        case 8: { auto w = vv::all_view(a); QC(w, cb); break; } case 9: { auto w = vv::all_view(cb); QC(ca, w); break; } case 10: { auto w = vv::all_view(a); auto x = vv::all_view(b); QC(w, x); break; }
        case 11: { auto w = vv::all_view(b); QC(std::move(a), w); ka = false; break; } case 12: { auto w = vv::all_view(a); QC(w, std::move(b)); kb = false; break; } default: { auto w = vv::all_view(a); QC(w, sb); B = qs(sb); break; }
        }
        if (A[5] == '1') ka = false; if (B[5] == '1') kb = false;
        o.raw("A", A).raw("B", B).n("ok", ok); if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]"); if (ka) o.raw("pa", qj(a, 4)); if (kb) o.raw("pb", qj(b, 4)); vp::emit(o);
    }
}
// operations in place: a number that does not fit in the type of the vector is truncated, as for single numbers
template<class T, class U, std::size_t D> void inq(rng& r, int k, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    auto b0 = qv<U>(r, e, k == 3); U sb = qval<U>(r, k == 3); auto a0 = qv<T>(r, d, false);
    for (int c = 0; c < 5; ++c) {
        vec<D,T> a = a0; vec<D,U> b = b0; obj o("inq"); o.t("o", k == 0 ? "+" : k == 1 ? "-" : k == 2 ? "*" : "/").n("int", std::is_integral<T>::value);
        #define QI(L, R) ok = vp::guard([&] { if (k == 0) L += R; else if (k == 1) L -= R; else if (k == 2) L *= R; else L /= R; })
        int ok = 0; switch (c) { case 0: QI(a, b); break; case 1: QI(a, sb); break; case 2: { auto w = vv::all_view(a); QI(w, b); break; } case 3: { auto w = vv::all_view(b); QI(a, w); break; } default: { auto w = vv::all_view(a); QI(w, sb); } }
        o.raw("A", qa(a0)).raw("B", c == 1 || c == 4 ? qs(sb) : qa(b0)).n("ok", ok).raw("r", ok == 1 ? qj(a, Q) : "[]"); vp::emit(o);
    }
}
template<class T, class U, std::size_t D> void one(rng& r, int k, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    switch (k) { case 0: binq<O_add,T,U>(r, d, e); break; case 1: binq<O_sub,T,U>(r, d, e); break; case 2: binq<O_mul,T,U>(r, d, e); break; case 3: binq<O_div,T,U>(r, d, e); break; case 4: binq<O_lt,T,U>(r, d, e); break; case 5: binq<O_ge,T,U>(r, d, e); break; default: inq<T,U>(r, k - 6, d, e); }
}
void setup_ops_d() {
    vp::add("mixed", 240, 8000, [](rng& r, long i) {
        auto d = vv::rdims<1>(r, 0, 5); auto e = other<1>(r, d, i % 6 == 0); int k = r.in(0, 9);
        switch (r.in(0, 4)) { case 0: one<int_t,double>(r, k, d, e); break; case 1: one<double,int_t>(r, k, d, e); break; case 2: one<double,double>(r, k, d, e); break; case 3: one<float,double>(r, k, d, e); break; default: one<short,float>(r, k, d, e); }
    });
}
