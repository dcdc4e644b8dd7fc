// D = 4; strides in D = 3
#include "index.hpp"
template<class V> void stride3(V& v, rng& r) {
    for (int k = 0; k < 3; ++k) {
        std::vector<sel> s;
        long ix[3];
        for (int j = 0; j < 3; ++j) {
            sel q; q.k = j == k ? 'r' : 'i'; q.a = q.b = -1;
            long n = v.dims[j];
            if (j != k) q.a = r.in(-n, n - (r.chance(1,6) ? 0 : 1));
            ix[j] = q.a; s.push_back(q);
        }
        obj o("stride");
        o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
        std::vector<std::string> got;
        int ok = vp::guard([&] {
            if (k == 0) { for (auto& x : v.stride(_, ix[1], ix[2])) got.push_back(vv::el<typename V::rtype>::js(x)); }
            else if (k == 1) { for (auto& x : v.stride(ix[0], _, ix[2])) got.push_back(vv::el<typename V::rtype>::js(x)); }
            else { for (auto& x : v.stride(ix[0], ix[1], _)) got.push_back(vv::el<typename V::rtype>::js(x)); }
        });
        o.n("ok", ok).raw("r", vp::arr(got));
        vp::emit(o);
    }
}
void setup4() {
    vp::add("d4", 300, 12000, [](rng& r, long i) {
        auto d = vv::rdims<4>(r, i % 11 == 0 ? 0 : 1, 4);
        auto s = rsn<4>(r, d, false);
        auto v = vv::iota<4,int>(d);
        if (i % 2 == 0) at<0>("at", v, s); else cat<0>("at", v, s);
    });
    vp::add("stride3", 120, 4000, [](rng& r, long i) {
        auto d = vv::rdims<3>(r, 1, 5);
        auto v = vv::iota<3,int>(d);
        stride3(v, r);
        { const auto& c = v; stride3(c, r); }
        auto w = v(_, _, _); stride3(w, r);
    });
    vp::add("repeat", 80, 2000, [](rng& r, long i) {
        // repeat<N>(_) stands for N full ranges
        auto d = vv::rdims<4>(r, 1, 4);
        auto v = vv::iota<4,int>(d);
        sel full; full.k = 'r'; full.a = full.b = -1;
        sel one; one.k = 'i'; one.a = r.in(0, d[0]-1);
        sel last; last.k = 'i'; last.a = r.in(0, d[3]-1);
        obj o("at");
        std::vector<sel> s = i % 2 ? std::vector<sel>{one, full, full, full} : std::vector<sel>{full, full, full, last};
        o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
        obj res;
        int ok = vp::guard([&] {
            if (i % 2) vv::put(res, v((uint_t)one.a, repeat<3>(_)));
            else vv::put(res, v(repeat<3>(_), (uint_t)last.a));
        });
        o.n("ok", ok);
        if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
        vp::emit(o);
    });
}
