// D = 2: strides, assignment through an access, const and view access
#include "index.hpp"
template<class V> void stride2(V& v, rng& r) {
    for (int k = 0; k < 2; ++k) {
        long n = v.dims[1-k];
        long i = r.in(-n-1, n+1);
        obj o("stride");
        sel full; full.k = 'r'; full.a = full.b = -1;
        sel one; one.k = 'i'; one.a = i;
        std::vector<sel> s = k == 0 ? std::vector<sel>{full, one} : std::vector<sel>{one, full};
        o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
        std::vector<std::string> got;
        int ok = vp::guard([&] {
            if (k == 0) { for (auto& x : v.stride(_, i)) got.push_back(vv::el<typename V::rtype>::js(x)); }
            else { for (auto& x : v.stride(i, _)) got.push_back(vv::el<typename V::rtype>::js(x)); }
        });
        o.n("ok", ok).raw("r", vp::arr(got));
        vp::emit(o);
    }
}
template<class T> void set2(rng& r) {
    auto d = vv::rdims<2>(r, 0, 6);
    auto v = vv::iota<2,T>(d);
    auto s = rs2(r, d);
    // ranges and scalars only, so that the selectors map to a small set of calls
    for (int k = 0; k < 2; ++k) if (s[k].k == 'v') { s[k].t = 0; for (auto& y : s[k].l) if (y < 0) y = 0; }
    for (int k = 0; k < 2; ++k) if (s[k].k == 'r' && d[k] == 0) { s[k].k = 'v'; s[k].l.clear(); }
    obj o("set");
    o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
    long x = 77;
    int ok = vp::guard([&] {
        if (s[0].k == 'i' && s[1].k == 'i') v((int_t)s[0].a, (int_t)s[1].a) = el<T>::mk(x);
        else if (s[0].k == 'i' && s[1].k == 'v') v((int_t)s[0].a, tovec<uint_t>(s[1].l)) = el<T>::mk(x);
        else if (s[0].k == 'v' && s[1].k == 'i') v(tovec<uint_t>(s[0].l), (int_t)s[1].a) = el<T>::mk(x);
        else if (s[0].k == 'v' && s[1].k == 'v') v(tovec<uint_t>(s[0].l), tovec<uint_t>(s[1].l)) = el<T>::mk(x);
        else {
            // at least one range
            auto rg = [&](const sel& q, long n) {
                return impl::range_impl::left_right_range_t(q.a == -1 ? 0 : q.a, q.b == -1 ? n-1 : q.b);
            };
            if (s[0].k == 'r' && s[1].k == 'r') v(rg(s[0], d[0]), rg(s[1], d[1])) = el<T>::mk(x);
            else if (s[0].k == 'r' && s[1].k == 'i') v(rg(s[0], d[0]), (int_t)s[1].a) = el<T>::mk(x);
            else if (s[0].k == 'i') v((int_t)s[0].a, rg(s[1], d[1])) = el<T>::mk(x);
            else if (s[0].k == 'v') v(tovec<uint_t>(s[0].l), rg(s[1], d[1])) = el<T>::mk(x);
            else v(rg(s[0], d[0]), tovec<uint_t>(s[1].l)) = el<T>::mk(x);
        }
    });
    o.n("ok", ok).raw("x", el<T>::js(el<T>::mk(x))).raw("r", vv::js(v));
    vp::emit(o);
}
template<class T> bool valid2(const std::vector<sel>& s, T& v) {
    for (int k = 0; k < 2; ++k) {
        long n = v.dims[k];
        if (s[k].k == 'i' && (s[k].a < 0 || s[k].a >= n)) return false;
        if (s[k].k == 'r' && (s[k].a >= n || s[k].b >= n)) return false;
        if (s[k].k == 'v') for (long x : s[k].l) if (x < 0 || x >= n) return false;
    }
    return true;
}

// the same selectors restricted to the forms "i", "_", "a-_-b", list of unsigned
static std::vector<sel> simp(std::vector<sel> q, const std::array<std::size_t,2>& d) {
    for (int k = 0; k < 2; ++k) { auto& x = q[k];
        if (x.k == 'v') for (auto& y : x.l) if (y < 0) y = 0;
        if (x.k == 'r' && x.a == -1 && x.b != -1) x.a = 0;
        if (x.k == 'r' && x.b == -1 && x.a != -1) x.b = std::max<long>(x.a, (long)d[k]-1);
        if (x.k == 'i' && x.t > 1) x.t = 0;
    }
    return q;
}
void setup2b() {
    vp::add("d2b", 700, 30000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, i % 10 == 0 ? 0 : 1, i % 5 == 0 ? 14 : 5);
        auto s = rs2(r, d);
        std::array<std::size_t,2> bd{{d[0]+2, d[1]+1}};
        auto b = vv::iota<2,int>(bd);
        vec1u i0, i1;
        for (uint_t k = 0; k < d[0]; ++k) i0.push_back((k*2+1) % bd[0]);
        for (uint_t k = 0; k < d[1]; ++k) i1.push_back((d[1]-k) % bd[1]);
        auto w = b(i0, i1);
        if (i % 2) at<2>("at", w, s); else { cat<1>("at", w, simp(s, d)); }
        if (valid2(s, w)) at<1,true>("safe", w, simp(s, d));
    });
    vp::add("stride2", 150, 5000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, 1, 7);
        auto v = vv::iota<2,int>(d);
        stride2(v, r);
        { const auto& c = v; stride2(c, r); }
        auto vs = vv::iota<2,double>(d);
        auto w = vs(_, _);
        stride2(w, r);
    });
    vp::add("set2", 400, 20000, [](rng& r, long i) { if (i % 3 == 0) set2<std::string>(r); else if (i % 3 == 1) set2<int>(r); else set2<double>(r); });
}
