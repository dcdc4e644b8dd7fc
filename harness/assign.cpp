// assignments between vectors and views sharing data
#include "vv.hpp"
using namespace vv; using namespace vif;

static std::vector<long> rperm(rng& r, long n, long m) { // m positions in 0..n-1, often a permutation / shifted
    std::vector<long> p;
    int kind = r.in(0, 3);
    for (long i = 0; i < m; ++i) {
        if (n == 0) break;
        if (kind == 0) p.push_back(r.in(0, n-1));
        else if (kind == 1) p.push_back((i + 1) % n);
        else if (kind == 2) p.push_back(((n - 1 - i) % n + n) % n);
        else p.push_back((i*2 + 1) % n);
    }
    return p;
}
static vec1u tou(const std::vector<long>& p) { vec1u v; for (long x : p) v.push_back(x); return v; }

template<class T, std::size_t D> struct env {
    vec<D,T> v;
    obj o;
    void begin(const char* op) { o = obj("asg"); o.t("o", op).raw("d", jd(v)).raw("v", vv::js(v)); }
    template<std::size_t E, class U> static std::string view(const vec<D,T>& root, const vec<E,U>& w) {
        std::vector<long> p;
        for (uint_t i = 0; i < w.data.size(); ++i) p.push_back((const char*)w.data[i] - (const char*)root.data.data());
        for (auto& x : p) x /= (long)sizeof(typename vec<D,T>::dtype);
        return "{\"k\":\"view\",\"d\":" + jd(w) + ",\"p\":" + vp::seq(p) + "}";
    }
    static std::string whole() { return "{\"k\":\"vec\"}"; }
    template<std::size_t E, class U> static std::string val(const vec<E,U>& w) { return "{\"k\":\"val\",\"d\":" + jd(w) + ",\"v\":" + vv::js(w) + "}"; }
    void end(int ok) { o.n("ok", ok).raw("ad", jd(v)).raw("av", vv::js(v)); vp::emit(o); }
};

// op dispatch. K: 0 '=', 1 '+=', 2 '-=', 3 '*=', 4 '/=', 5 '%='
static const char* opn[] = {"=", "+=", "-=", "*=", "/=", "%="};
template<class L, class R> void doop(L& l, const R& r, int k, std::true_type /*arith*/, std::true_type /*mod*/) {
    switch (k) { case 0: l = r; break; case 1: l += r; break; case 2: l -= r; break; case 3: l *= r; break; case 4: l /= r; break; case 5: l %= r; break; }
}
template<class L, class R> void doop(L& l, const R& r, int k, std::true_type, std::false_type) {
    switch (k) { case 0: l = r; break; case 1: l += r; break; case 2: l -= r; break; case 3: l *= r; break; default: l /= r; break; }
}
template<class L, class R, class M> void doop(L& l, const R& r, int k, std::false_type, M) { l = r; }
template<class T> struct isar : std::integral_constant<bool, std::is_same<T,int>::value || std::is_same<T,double>::value || std::is_same<T,long>::value> {};

template<class T> T val(rng& r) { return el<T>::mk(r.in(1, 9)); }
template<class T, std::size_t D> vec<D,T> mkroot(rng& r, const std::array<std::size_t,D>& d) {
    vec<D,T> v; v.dims = d; v.resize();
    long big = r.chance(1,2) ? 90 : 1;
    for (uint_t i = 0; i < v.data.size(); ++i) v.data[i] = el<T>::mk(big + (long)(i*7 % 11) + 1 + (long)i);
    return v;
}

template<class L, class T> void vs(L& l, const T& x, int k, std::true_type) { switch (k) { case 1: l += x; break; case 2: l -= x; break; case 3: l *= x; break; default: l /= x; } }
template<class L, class T> void vs(L& l, const T& x, int k, std::false_type) {}
template<class T> void one1(rng& r) {
    using A = isar<T>; using M = std::is_integral<T>;
    long n = r.chance(1,10) ? r.in(60, 150) : r.in(1, 6);
    env<T,1> E; E.v = mkroot<T,1>(r, {{(std::size_t)n}});
    auto& v = E.v; const auto& cv = v;
    int k = A::value ? r.in(0, 5) : 0;
    if (k == 3) { if (n > 6) k = 1; else for (auto& x : v.data) x = el<T>::mk(r.in(1, 3)); }
    int lk = r.in(0, 6), rk = r.in(0, 10);
    if (std::is_same<T,double>::value && k >= 4) k = 1;
    if (lk == 0 && k == 5) k = 4;
    long m = r.in(1, n);
    // left-hand sides
    auto lids = tou(rperm(r, n, m));
    long a = r.in(0, n-1), b = r.in(a, n-1);
    auto wl = v[tou(rperm(r, n, n))];
    // size of the left-hand side
    long ln = lk == 0 ? n : lk == 1 ? (long)lids.size() : lk == 2 ? b-a+1 : lk == 3 ? n : lk == 4 ? n : lk == 5 ? b-a+1 : (long)lids.size();
    long rn = r.chance(1,12) ? ln + 1 : ln;
    if (lk == 0 && k == 0 && r.chance(1,2)) rn = r.in(0, n+2);
    if (rk == 3 && rn == 0) rn = 1;
    auto rids = tou(rperm(r, n, rn));
    auto w = v[tou(rperm(r, n, std::max<long>(rn, n)))];
    const auto cw = cv[tou(rperm(r, n, n))];
    long e = r.in(0, n-1);
    E.begin(opn[k]);
    vec<1,T> ind; for (long i = 0; i < rn; ++i) ind.push_back(val<T>(r));
    T sc = val<T>(r);

    #define RHS(LX) \
        switch (rk) { \
        case 0: { auto x = v[rids]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        case 1: { auto x = cv[rids]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        case 2: { auto x = w[tou(rperm(r, w.size(), rn))]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        case 3: { auto x = w[0-_-(uint_t)(std::min<long>(rn, w.size())-1)]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        case 4: { E.o.raw("R", E.whole()); ok = vp::guard([&]{ doop(LX, v, k, A{}, M2{}); }); break; } \
        case 5: { E.o.raw("R", E.val(ind)); ok = vp::guard([&]{ doop(LX, ind, k, A{}, M2{}); }); break; } \
        case 6: { E.o.raw("R", "{\"k\":\"s\",\"x\":" + el<T>::js(sc) + "}"); ok = vp::guard([&]{ doops(LX, sc, k, A{}, M2{}); }); break; } \
        case 7: { E.o.raw("R", "{\"k\":\"e\",\"p\":" + vp::num(e) + "}"); ok = vp::guard([&]{ doops(LX, v[e], k, A{}, M2{}); }); break; } \
        case 8: { const auto x = cw[_]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        case 9: { auto x = v[_]; E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M2{}); }); break; } \
        default: { auto ix = tou(rperm(r, n, std::max<long>(1, rn))); auto x = v[ix]; auto y = x[tou(rperm(r, x.size(), rn))]; E.o.raw("R", E.view(v, y)); ok = vp::guard([&]{ doop(LX, y, k, A{}, M2{}); }); break; } \
        }
    int ok = 0;
    if (lk == 0 && k == 0 && (rk == 6 || rk == 7)) rk = 0; // a vector cannot be assigned a scalar
    if (lk == 0) {
        E.o.raw("L", E.whole());
        using M2 = std::false_type;
        #define doops(l, x, k, a, m) vs(l, x, k, a)
        RHS(v)
        #undef doops
    } else {
        #define doops(l, x, k, a, m) doop(l, x, k, a, m)
        using M2 = M;
        if (lk == 1) { auto l = v[lids]; E.o.raw("L", E.view(v, l)); RHS(l) }
        else if (lk == 2) { auto l = v[a-_-b]; E.o.raw("L", E.view(v, l)); RHS(l) }
        else if (lk == 3) { auto l = v[_]; E.o.raw("L", E.view(v, l)); RHS(l) }
        else if (lk == 4) { auto l = wl[_]; E.o.raw("L", E.view(v, l)); RHS(l) }
        else if (lk == 5) { auto l = wl[a-_-b]; E.o.raw("L", E.view(v, l)); RHS(l) }
        else { auto l = v(lids); E.o.raw("L", E.view(v, l)); RHS(l) }
        #undef doops
    }
    E.end(ok);
}

template<class T> void one2(rng& r) {
    using A = isar<T>; using M = std::false_type;
    auto d = vv::rdims<2>(r, 1, 4);
    env<T,2> E; E.v = mkroot<T,2>(r, d);
    auto& v = E.v; const auto& cv = v;
    int k = A::value ? r.in(0, 3) : 0;
    if (k == 3) for (auto& x : v.data) x = el<T>::mk(r.in(1, 2));
    auto ids = [&](uint_t n) { return tou(rperm(r, n, n)); };
    E.begin(opn[k]);
    int lk = r.in(0, 3), rk = r.in(0, 5), ok = 0;
    vec<2,T> ind = mkroot<T,2>(r, {{v.dims[0], r.chance(1,6) ? v.dims[1]+1 : v.dims[1]}});
    uint_t i0 = r.in(0, d[0]-1), i1 = r.in(0, d[0]-1), j0 = r.in(0, d[1]-1), j1 = r.in(0, d[1]-1);
    if (r.chance(1,3)) {
        // lines and columns (1-dimensional views of a 2-dimensional vector)
        int q = r.in(0, 3);
        if (q == 0) { auto l = v(i0,_); auto x = v(i1,ids(d[1])); E.o.raw("L", E.view(v,l)).raw("R", E.view(v,x)); ok = vp::guard([&]{ doop(l, x, k, A{}, M{}); }); }
        else if (q == 1) { auto l = v(_,j0); auto x = cv(ids(d[0]),j1); E.o.raw("L", E.view(v,l)).raw("R", E.view(v,x)); ok = vp::guard([&]{ doop(l, x, k, A{}, M{}); }); }
        else if (q == 2) { auto l = v(_,j0); auto x = v(i0,_); E.o.raw("L", E.view(v,l)).raw("R", E.view(v,x)); ok = vp::guard([&]{ doop(l, x, k, A{}, M{}); }); }
        else { auto l = v(ids(d[0]),j0); auto x = v[ids(d[0])]; E.o.raw("L", E.view(v,l)).raw("R", E.view(v,x)); ok = vp::guard([&]{ doop(l, x, k, A{}, M{}); }); }
        E.end(ok);
        return;
    }
    #define RHS2(LX) \
        switch (rk) { \
        case 0: { auto x = v(ids(d[0]), ids(d[1])); E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M{}); }); break; } \
        case 1: { auto x = cv(ids(d[0]), _); E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M{}); }); break; } \
        case 2: { auto x = v(_, ids(d[1])); auto y = x(ids(d[0]), _); E.o.raw("R", E.view(v, y)); ok = vp::guard([&]{ doop(LX, y, k, A{}, M{}); }); break; } \
        case 3: { E.o.raw("R", E.whole()); ok = vp::guard([&]{ doop(LX, v, k, A{}, M{}); }); break; } \
        case 4: { E.o.raw("R", E.val(ind)); ok = vp::guard([&]{ doop(LX, ind, k, A{}, M{}); }); break; } \
        default: { auto x = v(0-_-i0, _); E.o.raw("R", E.view(v, x)); ok = vp::guard([&]{ doop(LX, x, k, A{}, M{}); }); break; } \
        }
    if (lk == 0) { E.o.raw("L", E.whole()); RHS2(v) }
    else if (lk == 1) { auto l = v(_, _); E.o.raw("L", E.view(v, l)); RHS2(l) }
    else if (lk == 2) { auto l = v(ids(d[0]), ids(d[1])); E.o.raw("L", E.view(v, l)); RHS2(l) }
    else { auto x = v(ids(d[0]), _); auto l = x(_, ids(d[1])); E.o.raw("L", E.view(v, l)); RHS2(l) }
    E.end(ok);
}
template<class T> void follow(rng& r) {
    long n = r.in(1, 8);
    auto v = mkroot<T,1>(r, {{(std::size_t)n}});
    const auto& cv = v;
    auto p = rperm(r, n, r.in(0, n+2));
    auto w = v[tou(p)]; auto cw = cv[tou(p)]; auto w2 = w;
    for (int k = 0; k < 2; ++k) {
        v[r.in(0, n-1)] = val<T>(r);
        if (k && p.size()) w[r.in(0, p.size()-1)] = val<T>(r);
        obj o("follow");
        o.raw("v", vv::js(v)).raw("p", vp::seq(p)).raw("r", vv::js(w)); vp::emit(o);
        obj q("follow");
        q.raw("v", vv::js(v)).raw("p", vp::seq(p)).raw("r", vv::js(cw)); vp::emit(q);
        obj s("follow");
        s.raw("v", vv::js(v)).raw("p", vp::seq(p)).raw("r", vv::js(w2.concretise())); vp::emit(s);
    }
}
void vp::setup() {
    vp::add("assign-1d", 8000, 300000, [](rng& r, long i) {
        switch (i % 5) { case 0: case 1: one1<int>(r); break; case 2: one1<double>(r); break; case 3: one1<std::string>(r); break; default: one1<long>(r); }
    });
    vp::add("assign-2d", 4000, 150000, [](rng& r, long i) {
        switch (i % 3) { case 0: one2<int>(r); break; case 1: one2<double>(r); break; default: one2<std::string>(r); }
    });
    vp::add("follow", 400, 10000, [](rng& r, long i) { if (i % 2) follow<int>(r); else follow<std::string>(r); });
}
