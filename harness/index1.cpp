// D = 1, and the flat access v[...] on any number of dimensions
#include "index.hpp"
void setup2(); void setup2b(); void setup3(); void setup4();

// v(i) on 1-dimensional vectors of booleans does not compile: only v[i] is usable
template<class V> void d1at(V&, const std::vector<sel>&, std::true_type) {}
template<class V> void d1at(V& v, const std::vector<sel>& s, std::false_type) {
    at<3>("at", v, s); cat<3>("at", v, s);
}
template<class T> void d1(const std::vector<sel>& s, long n) {
    auto v = vv::iota<1,T>({{(std::size_t)n}});
    d1at(v, s, std::is_same<T,bool>{});
    flat(v, s[0]); { const auto& c = v; flat(c, s[0]); }
}
template<class T> void d1v(const std::vector<sel>& s, long n) {
    // a view whose elements are in an unusual order, out of a larger vector
    auto b = vv::iota<1,T>({{(std::size_t)(2*n+3)}});
    std::vector<long> ids; for (long i = 0; i < n; ++i) ids.push_back((i*2+1+(i%3 == 0)) % (2*n+3));
    auto w = b[tovec<uint_t>(ids)];
    const auto& cb = b;
    const auto cw = cb[tovec<uint_t>(ids)];
    d1at(w, s, std::is_same<T,bool>{}); flat(w, s[0]); flat(cw, s[0]);
    { const auto& c = w; flat(c, s[0]); }
}
static std::vector<sel> all1(long n) {
    std::vector<sel> r;
    for (int t = 0; t < 7; ++t) for (long a = -n-2; a <= n+2; ++a) {
        bool sgn = t == 0 || (t >= 2 && t <= 4);
        if (!sgn && a < 0) { if (t != 1 || a < -1) continue; }
        sel s; s.k = 'i'; s.a = a; s.t = t; r.push_back(s);
    }
    for (long a = -1; a <= n+1; ++a) for (long b = -1; b <= n+1; ++b) { sel s; s.k = 'r'; s.a = a; s.b = b; r.push_back(s); }
    for (int t = 0; t < 4; ++t) {
        long lo = t % 2 ? -n : 0;
        { sel s; s.k = 'v'; s.t = t; r.push_back(s); }
        for (long a = lo; a <= n; ++a) {
            sel s; s.k = 'v'; s.t = t; s.l = {a}; r.push_back(s);
            for (long b = lo; b <= n; ++b) {
                s.l = {a, b}; r.push_back(s);
                if ((a + 2*b + 20) % 3 == 0 && n > 0) { s.l = {a, 0, b, n-1}; r.push_back(s); }
            }
        }
    }
    return r;
}

void vp::setup() {
    vp::add("d1-exhaustive", 6, 8, [](rng& r, long n) {
        for (auto& s : all1(n)) {
            std::vector<sel> q{s};
            if (n > 4 && r.chance(1,2)) continue;
            // reversed ranges have no meaning: never executed
            if (s.k == 'r' && s.a != -1 && s.b != -1 && s.a > s.b + 1) continue;
            d1<int>(q, n); d1v<int>(q, n);
            if (r.chance(1, 4)) { d1<double>(q, n); d1v<std::string>(q, n); }
            if (r.chance(1, 4)) { d1<bool>(q, n); d1v<bool>(q, n); d1<std::string>(q, n); }
        }
    });
    vp::add("d1-large", 60, 3000, [](rng& r, long) {
        long n = r.in(6, 320);
        for (int i = 0; i < 4; ++i) {
            std::vector<sel> q{rsel(r, n, r.chance(1,3))};
            if (r.chance(1,2)) d1<int>(q, n); else d1v<double>(q, n);
        }
    });
    vp::add("flat-nd", 120, 6000, [](rng& r, long) {
        auto d2 = vv::rdims<2>(r, 0, 6); auto d3 = vv::rdims<3>(r, 0, 4); auto d4 = vv::rdims<4>(r, 1, 4);
        auto v2 = vv::iota<2,int>(d2); auto v3 = vv::iota<3,double>(d3); auto v4 = vv::iota<4,int>(d4);
        for (int i = 0; i < 2; ++i) {
            flat(v2, rsel(r, v2.size(), r.chance(1,3)));
            { const auto& c = v3; flat(c, rsel(r, v3.size(), r.chance(1,3))); }
            flat(v4, rsel(r, v4.size(), r.chance(1,3)));
            if (v2.size()) { auto w = v2(_, repeat<1>(_)); flat(w, rsel(r, w.size(), r.chance(1,3))); }
        }
    });
    setup2(); setup2b(); setup3(); setup4();
}
