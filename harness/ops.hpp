// element-wise operators
#include "vv.hpp"
using namespace vv; using namespace vif;

template<std::size_t D, class T> vec<D,T> mkv(rng& r, const std::array<std::size_t,D>& d, bool nz) {
    vec<D,T> v; v.dims = d; v.resize();
    for (auto& x : v.data) { long k = std::is_unsigned<T>::value ? r.in(0, 9) : r.in(-9, 9); if (nz && k == 0) k = 3; x = (T)k; }
    return v;
}
template<std::size_t D> vec<D,bool> mkb(rng& r, const std::array<std::size_t,D>& d) {
    vec<D,bool> v; v.dims = d; v.resize(); for (auto& x : v.data) x = r.chance(1,2); return v;
}
template<std::size_t D, class T> std::string opv(const vec<D,T>& v) { return "{\"s\":0,\"d\":" + jd(v) + ",\"v\":" + vv::js(v) + "}"; }
template<class T> std::string ops(T x) { return "{\"s\":1,\"x\":" + vp::num(x) + "}"; }

struct O_add { static const char* n() { return "+"; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) + std::forward<B>(b)) { return std::forward<A>(a) + std::forward<B>(b); } };
struct O_sub { static const char* n() { return "-"; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) - std::forward<B>(b)) { return std::forward<A>(a) - std::forward<B>(b); } };
struct O_mul { static const char* n() { return "*"; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) * std::forward<B>(b)) { return std::forward<A>(a) * std::forward<B>(b); } };
struct O_div { static const char* n() { return "/"; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) / std::forward<B>(b)) { return std::forward<A>(a) / std::forward<B>(b); } };
struct O_mod { static const char* n() { return "%"; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) % std::forward<B>(b)) { return std::forward<A>(a) % std::forward<B>(b); } };
#define CMP(N, op) struct N { static const char* n() { return #op; } template<class A, class B> static auto f(A&& a, B&& b) -> decltype(std::forward<A>(a) op std::forward<B>(b)) { return std::forward<A>(a) op std::forward<B>(b); } };
CMP(O_eq, ==) CMP(O_ne, !=) CMP(O_lt, <) CMP(O_le, <=) CMP(O_gt, >) CMP(O_ge, >=) CMP(O_and, &&) CMP(O_or, ||)

template<class R> void fin(obj& o, int ok, const obj& res) {}

// every value category of the operands: const lvalue, lvalue, temporary, view, const view, scalar
template<class O, std::size_t D, class T, class U> void bin(rng& r, const vec<D,T>& a0, const vec<D,U>& b0, T sa, U sb) {
    for (int c = 0; c < 13; ++c) {
        vec<D,T> a = a0; vec<D,U> b = b0;
        const auto& ca = a; const auto& cb = b;
        obj o("bin"); o.t("o", O::n());
        obj res; int ok = 0; bool ka = true, kb = true;
        #define CALL(EA, EB) ok = vp::guard([&] { vv::put(res, O::f(EA, EB)); })
        std::string A = opv(a0), B = opv(b0);
        switch (c) {
        case 0: CALL(ca, cb); break;
        case 1: CALL(std::move(a), cb); ka = false; break;
        case 2: CALL(ca, std::move(b)); kb = false; break;
        case 3: CALL(std::move(a), std::move(b)); ka = kb = false; break;
        case 4: CALL(ca, sb); B = ops(sb); kb = false; break;
        case 5: CALL(std::move(a), sb); B = ops(sb); ka = kb = false; break;
        case 6: CALL(sa, cb); A = ops(sa); ka = false; break;
        case 7: CALL(sa, std::move(b)); A = ops(sa); ka = kb = false; break;
        case 8: { auto w = vv::all_view(a); CALL(w, cb); break; }
        case 9: { auto w = vv::all_view(cb); CALL(ca, w); break; }
        case 10: { auto w = vv::all_view(a); auto x = vv::all_view(b); CALL(w, x); break; }
        case 11: { auto w = vv::all_view(b); CALL(std::move(a), w); ka = false; break; }
        default: CALL(a, b); break;
        }
        o.raw("A", A).raw("B", B).n("ok", ok);
        if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
        if (ka) o.raw("pa", vv::js(a));
        if (kb) o.raw("pb", vv::js(b));
        vp::emit(o);
    }
}
template<class O, std::size_t D> void logic(rng& r, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    auto a = mkb<D>(r, d), b = mkb<D>(r, e);
    bin<O,D,bool,bool>(r, a, b, r.chance(1,2), r.chance(1,2));
}
template<class V> void un1(const char* n, const V& a, std::function<void(obj&)> f) {
    obj o("un"); o.t("o", n).raw("A", opv(a)); obj res;
    int ok = vp::guard([&] { f(res); });
    o.n("ok", ok); if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
    o.raw("pa", vv::js(a)); vp::emit(o);
}
template<std::size_t D, class T, class U> void arith(rng& r, int k, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    auto a = mkv<D,T>(r, d, false); auto b = mkv<D,U>(r, e, false);
    T sa = (T)r.in(0, 9); U sb = (U)r.in(1, 9);
    switch (k) {
    case 0: bin<O_add>(r, a, b, sa, sb); break; case 1: bin<O_sub>(r, a, b, sa, sb); break; case 2: bin<O_mul>(r, a, b, sa, sb); break;
    case 3: bin<O_eq>(r, a, b, sa, sb); break; case 4: bin<O_ne>(r, a, b, sa, sb); break; case 5: bin<O_lt>(r, a, b, sa, sb); break;
    case 6: bin<O_le>(r, a, b, sa, sb); break; case 7: bin<O_gt>(r, a, b, sa, sb); break; case 8: bin<O_ge>(r, a, b, sa, sb); break;
    }
}
template<std::size_t D> std::array<std::size_t,D> other(rng& r, std::array<std::size_t,D> d, bool bad) {
    if (bad) { if (D > 1 && r.chance(1,2)) std::swap(d[0], d[D-1]); else d[r.in(0, D-1)] += 1; }
    return d;
}
template<std::size_t D> void all(rng& r, long i, bool bad) {
    auto d = vv::rdims<D>(r, 0, i % 20 == 0 ? (D == 1 ? 120 : 9) : 4);
    auto e = other<D>(r, d, bad);
    if (i % 3 == 0) arith<D,int,int>(r, r.in(0, 8), d, e);
    else if (i % 3 == 1) arith<D,double,double>(r, r.in(0, 8), d, e);
    else arith<D,int,double>(r, r.in(0, 8), d, e);
}
static int userf(int a, int b) { return 3*a + b; }
template<std::size_t D> void vectorised(rng& r, const std::array<std::size_t,D>& d, const std::array<std::size_t,D>& e) {
    auto a = mkv<D,int>(r, d, false), b = mkv<D,int>(r, e, false); int s = r.in(-9, 9);
    auto f = vectorize_lambda([](int x, int y) { return 3*x + y; });
    auto g = vectorize_lambda_first([](int x, int y) { return 3*x + y; });
    for (int c = 0; c < 6; ++c) {
        obj o("bin"); o.t("o", "f"); obj res; int ok = 0;
        std::string A = opv(a), B = opv(b);
        switch (c) {
        case 0: ok = vp::guard([&] { vv::put(res, f(a, b)); }); break;
        case 1: ok = vp::guard([&] { vv::put(res, f(a, s)); }); B = ops(s); break;
        case 2: ok = vp::guard([&] { vv::put(res, f(s, b)); }); A = ops(s); break;
        case 3: ok = vp::guard([&] { vv::put(res, g(a, s)); }); B = ops(s); break;
        case 4: ok = vp::guard([&] { auto w = vv::all_view(a); vv::put(res, f(w, b)); }); break;
        default: ok = vp::guard([&] { auto t = a; vv::put(res, f(std::move(t), b)); }); break;
        }
        o.raw("A", A).raw("B", B).n("ok", ok);
        if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
        vp::emit(o);
    }
}
