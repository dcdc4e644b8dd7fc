#include "vv.hpp"
using namespace vv;
using namespace vif;

struct sel { char k; long a = 0, b = 0; std::vector<long> l; int t = 0; };
inline std::string js(const sel& s) {
    if (s.k == 'i') return "{\"k\":\"i\",\"a\":" + (s.a < 0 && s.t == 1 ? vp::num((uint_t)-1) : vp::num(s.a)) + "}";
    if (s.k == 'r') return "{\"k\":\"r\",\"a\":" + vp::num(s.a) + ",\"b\":" + vp::num(s.b) + "}";
    return "{\"k\":\"v\",\"l\":" + vp::seq(s.l) + "}";
}
inline std::string js(const std::vector<sel>& s) {
    std::vector<std::string> v; for (auto& x : s) v.push_back(js(x));
    return vp::arr(v);
}
template<class T> vec<1,T> tovec(const std::vector<long>& l) {
    vec<1,T> v(l.size()); for (uint_t i = 0; i < l.size(); ++i) v.data[i] = l[i]; return v;
}

// ---- one leaf: the real access ------------------------------------------------------------
template<bool S> struct acc { obj o; };

inline void finish(obj& o, const obj& res, int ok) {
    o.n("ok", ok);
    if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
}
template<class V, class ... A> void leaf_at(V& v, acc<false>& c, const A& ... a) {
    obj res;
    finish(c.o, res, vp::guard([&] { vv::put(res, v(a...)); }));
}
template<class V, class ... A> void leaf_at(V& v, acc<true>& c, const A& ... a) {
    obj res;
    finish(c.o, res, vp::guard([&] { vv::put(res, v.safe(a...)); }));
}

// recursion over the axes; K selects how many selector kinds are instantiated
template<int K, bool S, std::size_t N, class V, class ... A> struct rec {
    static void go(V& v, acc<S>& c, const std::vector<sel>& s, const A& ... a) {
        const sel& q = s[sizeof...(A)];
        nxt(v, c, s, q, a...);
    }
    template<class T> static void with(V& v, acc<S>& c, const std::vector<sel>& s, const T& t, const A& ... a) {
        rec<K,S,N-1,V,A...,T>::go(v, c, s, a..., t);
    }
    static void nxt(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, const A& ... a) {
        if (q.k == 'i') {
            kind_i(v, c, s, q, std::integral_constant<int,K>{}, a...);
        } else if (q.k == 'r') {
            kind_r(v, c, s, q, std::integral_constant<int,K>{}, a...);
        } else kind_v(v, c, s, q, std::integral_constant<int,K>{}, a...);
    }
    // K = 0: minimal (int_t, _, vec1u)   K = 1: + ranges    K = 2: + more types    K = 3: everything
    template<int k> static void kind_i(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,k>, const A& ... a) {
        if (k == 0 || q.t == 0) with(v, c, s, (int_t)q.a, a...);
        else with(v, c, s, (uint_t)q.a, a...);
    }
    static void kind_i(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,2>, const A& ... a) {
        if (q.t == 0) with(v, c, s, (int_t)q.a, a...);
        else if (q.t == 1) with(v, c, s, (uint_t)q.a, a...);
        else with(v, c, s, (short)q.a, a...);
    }
    static void kind_i(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,3>, const A& ... a) {
        switch (q.t) {
        case 0: with(v, c, s, (int_t)q.a, a...); break;
        case 1: with(v, c, s, (uint_t)q.a, a...); break;
        case 2: with(v, c, s, (int)q.a, a...); break;
        case 3: with(v, c, s, (short)q.a, a...); break;
        case 4: with(v, c, s, (signed char)q.a, a...); break;
        case 5: with(v, c, s, (unsigned)q.a, a...); break;
        default: with(v, c, s, (unsigned char)q.a, a...); break;
        }
    }
    static void kind_r(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,0>, const A& ... a) {
        with(v, c, s, _, a...);
    }
    static void kind_r(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,1>, const A& ... a) {
        if (q.a == -1) with(v, c, s, _, a...);
        else with(v, c, s, (uint_t)q.a-_-(uint_t)q.b, a...);
    }
    static void kind_r(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,3>, const A& ... a) {
        kind_r(v, c, s, q, std::integral_constant<int,2>{}, a...);
    }
    static void kind_r(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,2>, const A& ... a) {
        if (q.a == -1 && q.b == -1) with(v, c, s, _, a...);
        else if (q.a == -1) with(v, c, s, _-(int_t)q.b, a...);
        else if (q.b == -1) with(v, c, s, (uint_t)q.a-_, a...);
        else with(v, c, s, (int)q.a-_-(uint_t)q.b, a...);
    }
    template<int k> static void kind_v(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,k>, const A& ... a) {
        with(v, c, s, tovec<uint_t>(q.l), a...);
    }
    static void kind_v(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,2>, const A& ... a) {
        if (q.t == 0) with(v, c, s, tovec<uint_t>(q.l), a...);
        else if (q.t == 1) with(v, c, s, tovec<int_t>(q.l), a...);
        else { vec<1,uint_t> b = tovec<uint_t>(q.l); with(v, c, s, b[_], a...); }
    }
    static void kind_v(V& v, acc<S>& c, const std::vector<sel>& s, const sel& q, std::integral_constant<int,3>, const A& ... a) {
        if (q.t == 0) with(v, c, s, tovec<uint_t>(q.l), a...);
        else if (q.t == 1) with(v, c, s, tovec<int_t>(q.l), a...);
        else if (q.t == 2) { vec<1,uint_t> b = tovec<uint_t>(q.l); with(v, c, s, b[_], a...); }
        else with(v, c, s, tovec<int>(q.l), a...);
    }
};
template<int K, bool S, class V, class ... A> struct rec<K,S,0,V,A...> {
    static void go(V& v, acc<S>& c, const std::vector<sel>&, const A& ... a) { leaf_at(v, c, a...); }
};

template<int K, bool S = false, std::size_t D, class T> void at(const char* op, vec<D,T>& v, const std::vector<sel>& s) {
    acc<S> c; c.o = obj(op);
    c.o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
    rec<K,S,D,vec<D,T>>::go(v, c, s);
    vp::emit(c.o);
}
template<int K, bool S = false, std::size_t D, class T> void cat(const char* op, const vec<D,T>& v, const std::vector<sel>& s) {
    acc<S> c; c.o = obj(op);
    c.o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", js(s));
    rec<K,S,D,const vec<D,T>>::go(v, c, s);
    vp::emit(c.o);
}

// flat access v[...]
template<class V> void flat(V& v, const sel& q) {
    obj o("flat");
    o.raw("d", jd(v)).raw("v", vv::js(v)).raw("s", "[" + js(q) + "]");
    obj res;
    int ok = vp::guard([&] {
        if (q.k == 'i') {
            switch (q.t) {
            case 0: vv::put(res, v[(int_t)q.a]); break;
            case 1: vv::put(res, v[(uint_t)q.a]); break;
            case 2: vv::put(res, v[(int)q.a]); break;
            case 3: vv::put(res, v[(short)q.a]); break;
            case 4: vv::put(res, v[(signed char)q.a]); break;
            case 5: vv::put(res, v[(unsigned)q.a]); break;
            default: vv::put(res, v[(unsigned char)q.a]); break;
            }
        } else if (q.k == 'r') {
            if (q.a == -1 && q.b == -1) vv::put(res, v[_]);
            else if (q.a == -1) vv::put(res, v[_-(uint_t)q.b]);
            else if (q.b == -1) vv::put(res, v[(uint_t)q.a-_]);
            else vv::put(res, v[(uint_t)q.a-_-(int_t)q.b]);
        } else {
            if (q.t == 0) vv::put(res, v[tovec<uint_t>(q.l)]);
            else if (q.t == 1) vv::put(res, v[tovec<int_t>(q.l)]);
            else if (q.t == 2) { vec<1,uint_t> b = tovec<uint_t>(q.l); vv::put(res, v[b[_]]); }
            else vv::put(res, v[tovec<int>(q.l)]);
        }
    });
    o.n("ok", ok);
    if (ok == 1) o.s += "," + res.s; else o.raw("rd", "[]").raw("r", "[]");
    vp::emit(o);
}

// random selectors for an axis of n elements; ~half of the accesses entirely valid
inline sel rsel(rng& r, long n, bool bad, int nkind_i = 7, int nkind_v = 4) {
    sel s;
    int k = r.in(0, 9);
    if (k < 4) {
        s.k = 'i'; s.t = r.in(0, nkind_i-1);
        bool sgn = s.t == 0 || (s.t >= 2 && s.t <= 4);
        if (bad) s.a = sgn ? (r.chance(1,2) ? n + r.in(0,3) : -n - r.in(1,2)) : n + r.in(0, 3);
        else if (n == 0) s.a = 0;
        else s.a = sgn && r.chance(1,2) ? -r.in(1, n) : r.in(0, n-1);
        if (s.t == 4 && (s.a > 127 || s.a < -128)) s.t = 0;
        if (s.t >= 5 && (s.a > 255)) s.t = 1;
    } else if (k < 7) {
        s.k = 'r';
        int q = r.in(0, 3);
        if (bad) {
            s.a = q & 1 ? n + r.in(0,2) : -1; s.b = q & 2 || !(q & 1) ? n + r.in(0,2) : -1;
            if (q == 3 && r.chance(1,2) && n > 0) { s.a = r.in(0,n-1); }
            if (q == 3 && s.b < s.a) s.b = s.a;
        } else if (n == 0) { s.a = s.b = -1; }
        else {
            s.a = q & 1 ? r.in(0, n-1) : -1;
            s.b = q & 2 ? r.in(s.a == -1 ? 0 : s.a, n-1) : -1;
        }
    } else {
        s.k = 'v'; s.t = r.in(0, nkind_v-1);
        long m = r.in(0, 4);
        for (long j = 0; j < m && n > 0; ++j) s.l.push_back(s.t % 2 && r.chance(1,2) ? -r.in(1,n) : r.in(0, n-1));
        if (bad) s.l.insert(s.l.begin() + r.in(0, s.l.size()), n + r.in(0, 2));
    }
    return s;
}
inline std::vector<sel> rs2(rng& r, const std::array<std::size_t,2>& d) {
    bool bad = r.chance(1,3); int w = r.in(0,1);
    return {rsel(r, d[0], bad && w == 0, 3, 3), rsel(r, d[1], bad && w == 1, 3, 3)};
}
template<std::size_t D> std::vector<sel> rsn(rng& r, const std::array<std::size_t,D>& d, bool ranges) {
    int w = r.chance(1,3) ? r.in(0, D-1) : -1;
    std::vector<sel> s;
    for (std::size_t k = 0; k < D; ++k) {
        sel q = rsel(r, d[k], (int)k == w, ranges ? 2 : 1, 1);
        if (q.k == 'r') {
            if (!ranges) q.a = q.b = -1;
            else if (q.a == -1 && q.b != -1) q.a = 0;
            else if (q.b == -1 && q.a != -1) q.b = q.a < (long)d[k] ? (long)d[k]-1 : q.a;
        }
        s.push_back(q);
    }
    return s;
}
