// random draws
#include "find.hpp"
#include "vif/math/random.hpp"
#include "vif/math/reduce.hpp"
using std::string;
static string li(const std::vector<long>& v) { string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static string dm(const std::vector<long>& d) { return li(d); }
template<class V> static string got(const V& v) { return vp::seq(v.dims); }
// calls f(dims...) with n draws asked in some shape; scalar draws too
struct shape { int kind; long n; long a, b, c; std::vector<long> d; };
static shape sh_(rng& r, long n) { shape s; s.n = n; s.kind = r.in(0, 6); switch (s.kind) { case 1: s.a = r.in(1, 4); s.b = (n + s.a - 1)/s.a; s.d = {s.a, s.b}; break; case 2: case 4: s.a = r.in(1, 3); s.b = r.in(1, 3); s.c = (n + s.a*s.b - 1)/(s.a*s.b); s.d = {s.a, s.b, s.c}; break; case 5: s.a = r.in(1, 4); s.b = (n + s.a - 1)/s.a; s.d = {s.a, s.b}; break; default: s.d = {n}; } return s; }
// F: generic functor with operator()(Args...) giving a vector, and one() giving one value; C: from value to number
template<class F, class C> static void draw(obj& q, const shape& s, F&& f, C&& c) {
    std::vector<long> r; string g;
    #define TAKE(call) { auto v = call; g = got(v); for (uint_t i = 0; i < v.size(); ++i) r.push_back(c(v.safe[i])); }
    switch (s.kind) {
        case 0: TAKE(f(s.n)) break; case 1: TAKE(f(s.a, s.b)) break; case 2: TAKE(f(s.a, s.b, s.c)) break;
        case 3: { vec<1,float> t(s.n); TAKE(f(t.dims)) break; } case 4: { std::array<uint_t,2> d = {{uint_t(s.a), uint_t(s.b)}}; TAKE(f(d, s.c)) break; } case 5: { vec<2,bool> t(s.a, s.b); TAKE(f(t.dims)) break; }
        default: for (long i = 0; i < s.n; ++i) r.push_back(c(f())); g = dm(s.d);
    }
    q.raw("g", g).raw("r", li(r));
}
static seed_t sd(rng& r) { switch (r.in(0, 2)) { case 0: return make_seed(int(r.in(0, 1000000))); case 1: return make_seed(uint_t(r.in(0, 1000000))); default: { auto s = make_seed(42); int k = r.in(0, 50); for (int i = 0; i < k; ++i) s(); return s; } } }
template<class A, class B> struct fint { seed_t& s; A lo; B hi; template<class ... T> auto operator()(T&& ... t) -> decltype(randomi(s, lo, hi, std::forward<T>(t)...)) { return randomi(s, lo, hi, std::forward<T>(t)...); } };
struct funi { seed_t& s; template<class ... T> auto operator()(T&& ... t) -> decltype(randomu(s, std::forward<T>(t)...)) { return randomu(s, std::forward<T>(t)...); } };
struct fnor { seed_t& s; template<class ... T> auto operator()(T&& ... t) -> decltype(randomn(s, std::forward<T>(t)...)) { return randomn(s, std::forward<T>(t)...); } };
template<class X, class Y> struct fpdf { seed_t& s; const X& x; const Y& y; template<class ... T> auto operator()(T&& ... t) -> decltype(random_pdf(s, x, y, std::forward<T>(t)...)) { return random_pdf(s, x, y, std::forward<T>(t)...); } };
template<class W> struct fwei { seed_t& s; const W& w; template<class ... T> auto operator()(T&& ... t) -> decltype(random_pdf_discrete(s, w, std::forward<T>(t)...)) { return random_pdf_discrete(s, w, std::forward<T>(t)...); } };
struct fcoin { seed_t& s; double p; template<class ... T> auto operator()(T&& ... t) -> decltype(random_coin(s, p, std::forward<T>(t)...)) { return random_coin(s, p, std::forward<T>(t)...); } };
template<class A, class B> static void ints(rng& r, long lo, long hi) {
    shape s = sh_(r, r.chance(1,3) ? r.in(0, 6) : (hi - lo + 1)*r.in(40, 90)); obj e("int"); e.n("lo", lo).n("hi", hi).raw("d", dm(s.d));
    rec(e, [&](obj& q) { auto z = sd(r); draw(q, s, fint<A,B>{z, A(lo), B(hi)}, [](long v) { return v; }); });
}
template<class A> static void wide(rng& r, A lo, A hi) {
    long k = r.in(2, 8); shape s = sh_(r, k*r.in(40, 90)); obj e("part"); e.n("k", k).raw("d", dm(s.d));
    rec(e, [&](obj& q) { auto z = sd(r); draw(q, s, fint<A,A>{z, lo, hi}, [&](A v) { if (v < lo || v > hi) return 0l; return std::min(k, 1 + long((((long double)v - lo)/((long double)hi - lo + 1))*k)); }); });
}
static void integers(rng& r) {
    long k = r.in(1, 12);
    switch (r.in(0, 9)) {
        case 0: ints<int,int>(r, 0, k-1); break; case 1: ints<int,uint_t>(r, r.in(0, 5), 5 + k); break; case 2: ints<uint_t,uint_t>(r, r.in(0, 100), 100 + k); break; case 3: ints<short,int>(r, -k, k/2); break;
        case 4: case 5: { long l = -r.in(1, 12); ints<int,int>(r, l, l + k); break; } case 6: ints<long,int>(r, -1000000 - k, -1000000); break;
        case 7: wide<int>(r, 0, std::numeric_limits<int>::max()); break; case 8: wide<int>(r, -1000000000 - k, 1000000000); break; default: wide<long>(r, -4000000000l, 1000000000000l + k);
    }
}
static void reals(rng& r) {
    if (r.chance(1,2)) { long k = r.in(2, 16); shape s = sh_(r, r.chance(1,4) ? r.in(0, 6) : k*r.in(40, 90)); obj e("part"); e.n("k", k).raw("d", dm(s.d)); rec(e, [&](obj& q) { auto z = sd(r); draw(q, s, funi{z}, [&](double v) { return v >= 0 && v < 1 ? 1 + long(v*k) : 0; }); }); }
    else { shape s = sh_(r, r.chance(1,4) ? r.in(0, 6) : r.in(200, 2000)); obj e("normal"); e.raw("d", dm(s.d)); rec(e, [&](obj& q) { auto z = sd(r); draw(q, s, fnor{z}, [&](double v) { return std::isnan(v) || std::fabs(v) > 9 ? 0 : 1 + std::min(5l, std::max(0l, long(std::floor(v)) + 3)); }); }); }
}
template<class T> static void density(rng& r) {
    uint_t n = r.in(2, 5); std::vector<long> x, y; long c = r.in(-5, 5); long tot = 0; while (!tot) { y.clear(); for (uint_t i = 0; i < n; ++i) { y.push_back(r.chance(1,4) ? 0 : r.in(0, 4)); tot += y.back(); } } for (uint_t i = 0; i < n; ++i) { x.push_back(c); c += r.in(1, 3); } if (r.chance(1,12)) { if (r.chance(1,2)) y.pop_back(); else y.push_back(1); }
    shape s = sh_(r, r.chance(1,4) ? r.in(0, 6) : r.in(100, 1200)); vec<1,T> px, py; for (long v : x) px.push_back(v*0.5); for (long v : y) py.push_back(v*0.25); int how = r.in(0, 2);
    obj e("pdf"); e.raw("x", li(x)).raw("y", li(y)).raw("d", dm(s.d));
    rec(e, [&](obj& q) { auto z = sd(r); auto cv = [&](T v) { double u = v*2; for (uint_t i = 0; i + 1 < x.size(); ++i) if (u >= x[i] && u <= x[i+1]) return long(2*i + 1 + (u - x[i] > 0.5*(x[i+1] - x[i]))); return 0l; };
        if (how == 0) { std::vector<T> a(px.begin(), px.end()), b(py.begin(), py.end()); viewed<T> va(r, a), vb(r, b); auto wa = va.big[va.ids]; auto wb = vb.big[vb.ids]; fpdf<decltype(wa),decltype(wb)> f{z, wa, wb}; draw(q, s, f, cv); }
        else if (how == 1) { vec1i iy; for (long v : y) iy.push_back(v); fpdf<vec<1,T>,vec1i> f{z, px, iy}; draw(q, s, f, cv); } else { fpdf<vec<1,T>,vec<1,T>> f{z, px, py}; draw(q, s, f, cv); } });
}
template<class T> static void weights(rng& r) {
    uint_t n = r.in(1, 7); std::vector<long> w; long tot = 0; while (!tot) { w.clear(); for (uint_t i = 0; i < n; ++i) { w.push_back(r.chance(1,3) ? 0 : r.in(0, 6)); tot += w.back(); } } shape s = sh_(r, r.chance(1,4) ? r.in(0, 6) : r.in(100, 1200));
    vec<1,T> v; for (long t : w) v.push_back(T(t)); obj e("weights"); e.raw("w", li(w)).raw("d", dm(s.d)); bool vw = r.chance(1,3);
    rec(e, [&](obj& q) { auto z = sd(r); auto c = [](uint_t i) { return i > 1000000 ? -1l : long(i); }; if (vw) { viewed<T> x(r, std::vector<T>(v.begin(), v.end())); auto y = x.big[x.ids]; draw(q, s, fwei<decltype(y)>{z, y}, c); } else draw(q, s, fwei<vec<1,T>>{z, v}, c); });
}
static void coins(rng& r) {
    if (r.chance(1,2)) { long p = r.chance(1,5) ? (r.chance(1,2) ? 0 : 10) : r.in(0, 10); shape s = sh_(r, r.chance(1,4) ? r.in(0, 6) : r.in(100, 1500)); obj e("coin"); e.n("p", p).raw("d", dm(s.d)); rec(e, [&](obj& q) { auto z = sd(r); draw(q, s, fcoin{z, p*0.1}, [](bool b) { return long(b); }); }); return; }
    uint_t a = r.in(1, 5), b = r.in(0, 200); std::vector<long> p; long fix = r.in(0, 10); bool all = r.chance(1,2); for (uint_t i = 0; i < a*b; ++i) p.push_back(all ? r.in(0, 10) : r.chance(1,2) ? fix : 10 - fix); int how = r.in(0, 2); obj e("coins"); e.raw("p", li(p));
    rec(e, [&](obj& q) { auto z = sd(r); std::vector<long> o; string g; string d; auto take = [&](const vec<1,bool>& v) { for (bool x : v) o.push_back(x); };
        if (how == 0) { vec2f m(a, b); for (uint_t i = 0; i < p.size(); ++i) m.safe[i] = p[i]*0.1f; auto v = random_coin(z, m); g = got(v); d = dm({long(a), long(b)}); take(flatten(v)); }
        else if (how == 1) { vec1d m(a*b); for (uint_t i = 0; i < p.size(); ++i) m.safe[i] = p[i]*0.1; auto v = random_coin(z, m); g = got(v); d = dm({long(a*b)}); take(v); }
        else { std::vector<double> t; for (long x : p) t.push_back(x*0.1); viewed<double> m(r, t); auto w = m.big[m.ids]; auto v = random_coin(z, w); g = got(v); d = dm({long(a*b)}); take(v); }
        q.raw("d", d).raw("g", g).raw("r", li(o)); });
}
template<class T> static void shuf(rng& r) {
    uint_t a = r.in(1, 3), b = r.in(0, 12); vec<2,T> m(a, b); std::vector<long> v; for (uint_t i = 0; i < a*b; ++i) { long x = r.chance(1,3) ? r.in(10, 15) : 10 + long(i); v.push_back(x); m.safe[i] = el<T>::mk(x); } int how = r.in(0, 5); bool inpl = how == 1 || how == 3;
    obj e("shuffle"); e.raw("v", li(v)).n("inpl", inpl).raw("d", how < 2 ? dm({long(a), long(b)}) : dm({long(a*b)}));
    rec(e, [&](obj& q) { auto z = sd(r); string g; bool rest = true; std::vector<long> o, after; auto num = [](const T& t) { return std::stol(el<T>::js(t)); };
        vec<1,T> f(a*b); for (uint_t i = 0; i < f.size(); ++i) f.safe[i] = m.safe[i];
        if (how == 0) { auto s = shuffle(z, m); g = got(s); for (uint_t i = 0; i < s.size(); ++i) o.push_back(num(s.safe[i])); for (uint_t i = 0; i < m.size(); ++i) after.push_back(num(m.safe[i])); }
        else if (how == 1) { inplace_shuffle(z, m); g = got(m); for (uint_t i = 0; i < m.size(); ++i) o.push_back(num(m.safe[i])); after = o; }
        else if (how == 2) { const vec<1,T> k = f; auto s = shuffle(z, k); g = got(s); for (auto& t : s) o.push_back(num(t)); for (auto& t : k) after.push_back(num(t)); }
        else if (how == 3) { inplace_shuffle(z, f); g = got(f); for (auto& t : f) o.push_back(num(t)); after = o; }
        else if (how == 4) { auto s = shuffle(z, vec<1,T>(f)); g = got(s); for (auto& t : s) o.push_back(num(t)); after = v; }
        else { viewed<T> w(r, std::vector<T>(f.begin(), f.end())); vec<1,T> b0 = w.big; vec<1,T> s = shuffle(z, w.big[w.ids]); g = got(s); for (auto& t : s) o.push_back(num(t)); for (uint_t i = 0; i < w.ids.size(); ++i) after.push_back(num(w.big.safe[w.ids.safe[i]])); for (uint_t i = 0; i < b0.size(); ++i) { bool in = false; for (auto t : w.ids) in = in || t == i; if (!in && num(b0.safe[i]) != num(w.big.safe[i])) rest = false; } }
        q.raw("g", g).raw("r", li(o)).raw("after", li(after)).n("rest", rest); });
}
static void orders(rng& r) {
    obj e("orders"); rec(e, [&](obj& q) { auto z = sd(r); std::vector<long> o; int n = 6*r.in(40, 80); for (int i = 0; i < n; ++i) { vec1i v = {0, 1, 2}; if (r.chance(1,2)) v = shuffle(z, v); else inplace_shuffle(z, v); long k = v[0]*2 + (v[1] > v[2] ? 1 : 0); o.push_back(k + 1); } q.raw("r", li(o)); });
}
static void again(rng& r) {
    struct call { int what; long n, m; }; std::vector<call> p; int k = r.in(1, 5); bool big = false; for (int i = 0; i < k; ++i) { p.push_back({int(r.in(0, 8)), r.in(0, 30), r.in(1, 4)}); big = big || (p.back().what < 2 && p.back().n > 8); } long s0 = r.in(0, 100000), s1 = s0 + r.in(1, 1000);
    auto run = [&](seed_t& s) { string o; char b[60]; auto pd = [&](double v) { std::snprintf(b, sizeof b, "%a,", v); o += b; }; for (auto& c : p) switch (c.what) {
            case 0: for (double v : randomu(s, c.n)) pd(v); break; case 1: for (double v : randomn(s, c.n, c.m)) pd(v); break; case 2: pd(randomu(s)); break; case 3: pd(randomn(s)); break; case 4: for (int v : randomi(s, -3, 9, c.n)) pd(v); break; case 5: pd(randomi(s, 0, 1000000)); break;
            case 6: for (bool v : random_coin(s, 0.5, c.n)) pd(v); break; case 7: for (int v : shuffle(s, indgen<int>(c.n))) pd(v); break; default: for (uint_t v : random_pdf_discrete(s, vec1d{1, 2, 3}, c.n)) pd(v); for (double v : random_pdf(s, vec1d{1, 2, 3}, vec1d{1, 2, 3}, c.n)) pd(v); } return o; };
    obj e("again"); e.n("big", big); rec(e, [&](obj& q) { auto a = make_seed(s0), b = make_seed(s0), c = make_seed(s1); if (r.chance(1,2)) { run(a); b = a; } string x = run(a), y = run(b), z = run(c), n = run(a); q.n("same", x == y).n("other", x != z).n("next", x != n); });
}
void vp::setup() {
    vp::add("integers", 300, 3000, [](rng& r, long) { integers(r); });
    vp::add("reals", 200, 2000, [](rng& r, long) { reals(r); });
    vp::add("density", 100, 1000, [](rng& r, long) { density<double>(r); });
    vp::add("densityf", 50, 500, [](rng& r, long) { density<float>(r); });
    vp::add("weights", 80, 800, [](rng& r, long) { weights<double>(r); });
    vp::add("weightsi", 60, 600, [](rng& r, long) { weights<int>(r); });
    vp::add("coins", 150, 1500, [](rng& r, long) { coins(r); });
    vp::add("shuf", 100, 1000, [](rng& r, long) { shuf<int>(r); });
    vp::add("shufs", 60, 600, [](rng& r, long) { shuf<string>(r); });
    vp::add("shufd", 40, 400, [](rng& r, long) { shuf<double>(r); });
    vp::add("orders", 30, 300, [](rng& r, long) { orders(r); });
    vp::add("again", 300, 3000, [](rng& r, long) { again(r); });
}
