// histories of construction / copy / move / resize / push_back / clear
#include "vv.hpp"
using namespace vv; using namespace vif;

template<class T> std::string z(const T& x) { return el<T>::js(x); }
template<> std::string z<std::string>(const std::string& x) { return x.empty() ? "0" : el<std::string>::js(x); }
template<class T> T mk(long i) { return i == 0 ? T() : el<T>::mk(i); }

template<std::size_t D, class T> std::string js0(const vec<D,T>& v) {
    std::string r = "[";
    for (uint_t i = 0; i < v.data.size(); ++i) { if (i) r += ","; r += z<T>(v.safe[i]); }
    return r + "]";
}
template<class T> void fb(obj& o, const vec<1,T>& v) {
    if (v.empty()) o.raw("f", "0").raw("b", "0");
    else o.raw("f", z<T>(v.front())).raw("b", z<T>(v.back()));
}
template<std::size_t D, class T> void fb(obj& o, const vec<D,T>& v) { o.raw("f", "0").raw("b", "0"); }

template<std::size_t D, class T> struct hist {
    std::vector<vec<D,T>> g; rng& r; long next = 1;
    hist(rng& rr) : g(3), r(rr) { obj o("begin"); o.n("n", 3).n("D", (int)D); vp::emit(o); }
    std::string st() {
        std::vector<std::string> s;
        for (auto& v : g) {
            obj o; o.raw("d", jd(v)).raw("v", js0(v)).n("n", v.size()).n("e", (int)v.empty()); fb(o, v);
            s.push_back(o.done());
        }
        return vp::arr(s);
    }
    std::array<std::size_t,D> dims(long hi) { auto d = vv::rdims<D>(r, 1, hi); if (r.chance(1,8)) d[r.in(0,D-1)] = 0; return d; }
    template<std::size_t E> vec<E,T> some(const std::array<std::size_t,E>& d) {
        vec<E,T> v; v.dims = d; v.resize(); for (auto& x : v.data) x = mk<T>(next++ % 90 + 1); return v;
    }
    void push(obj& o, int a, std::integral_constant<std::size_t,1>) {
        long x = next++ % 90 + 1; T t = mk<T>(x);
        o.t("f", "push");
        if (r.chance(1,3) && !g[a].empty()) { // push one of its own elements
            uint_t k = r.in(0, g[a].size()-1);
            o.raw("x", z<T>(g[a].safe[k]));
            int ok = vp::guard([&] { g[a].push_back(g[a].safe[k]); }); o.n("ok", ok); return;
        }
        o.raw("x", z<T>(t));
        int ok = vp::guard([&] { if (x % 2) g[a].push_back(t); else g[a].push_back(mk<T>(x)); });
        o.n("ok", ok);
    }
    template<std::size_t E> void push(obj& o, int a, std::integral_constant<std::size_t,E>) {
        o.t("f", "pushrow");
        std::array<std::size_t,E-1> d;
        for (std::size_t i = 0; i < E-1; ++i) {
            d[i] = g[a].dims[i+1];
            if (d[i] == 0 || r.chance(1, 6)) d[i] = r.in(1, 4);
        }
        auto row = some<E-1>(d);
        o.raw("rd", jd(row)).raw("r", js0(row));
        int q = r.in(0, 2);
        int ok = vp::guard([&] {
            if (q == 0) g[a].push_back(row);
            else if (q == 1) g[a].push_back(vv::all_view(row));
            else { const auto& c = row; g[a].push_back(c); }
        });
        o.n("ok", ok);
    }
    void step() {
        int a = r.in(0, 2), b = r.in(0, 2);
        obj o("step"); o.n("a", a+1).n("b", b+1);
        switch (r.in(0, 15)) {
        case 0: { auto v = some<D>(dims(4)); o.t("f", "list").raw("rd", jd(v)).raw("r", js0(v)); g[a] = v; break; }
        case 1: { auto d = dims(4); o.t("f", "zeros").raw("rd", vp::seq(d)); g[a] = vec<D,T>(d); break; }
        case 2: { o.t("f", "default"); g[a] = vec<D,T>(); break; }
        case 3: { o.t("f", "copy"); g[a] = g[b]; break; }
        case 4: { o.t("f", "copy"); vec<D,T> t(g[b]); g[a] = t; break; }
        case 5: { o.t("f", "move"); g[a] = std::move(g[b]); break; }
        case 6: { if (a == b) b = (a+1) % 3; o = obj("step"); o.n("a", a+1).n("b", b+1); o.t("f", "move"); vec<D,T> t(std::move(g[b])); g[a] = std::move(t); break; }
        case 7: { o.t("f", "swap"); if (a != b) std::swap(g[a], g[b]); break; }
        case 8: { o.t("f", "clear"); g[a].clear(); break; }
        case 9: case 10: { auto d = dims(r.chance(1,4) ? 9 : 4); o.t("f", "resize").raw("rd", vp::seq(d)); g[a].resize(d); break; }
        case 11: { o.t("f", "reserve"); g[a].reserve(r.in(0, 50)); break; }
        case 12: { auto v = some<D>(g[a].dims); o.t("f", "fill").raw("r", js0(v)); for (uint_t i = 0; i < v.size(); ++i) g[a].safe[i] = v.safe[i]; break; }
        default: push(o, a, std::integral_constant<std::size_t,D>{}); break;
        }
        o.raw("st", st());
        vp::emit(o);
    }
    void ilist(std::integral_constant<std::size_t,1>) {
        obj o("step"); o.n("a", 1).t("f", "list"); g[0] = {mk<T>(1), mk<T>(4), mk<T>(7)}; o.raw("rd", "[3]").raw("r", "[" + z<T>(mk<T>(1)) + "," + z<T>(mk<T>(4)) + "," + z<T>(mk<T>(7)) + "]").raw("st", st()); vp::emit(o);
    }
    void ilist(std::integral_constant<std::size_t,2>) {
        obj o("step"); o.n("a", 2).t("f", "list");
        vec<2,T> v = {{mk<T>(1), mk<T>(4)}, {mk<T>(7), mk<T>(10)}, {mk<T>(2), mk<T>(3)}}; g[1] = v;
        std::vector<std::string> s; for (long i : {1,4,7,10,2,3}) s.push_back(z<T>(mk<T>(i)));
        o.raw("rd", "[3,2]").raw("r", vp::arr(s)).raw("st", st()); vp::emit(o);
    }
    void ilist(std::integral_constant<std::size_t,3>) {
        obj o("step"); o.n("a", 3).t("f", "list");
        g[2] = {{{mk<T>(1), mk<T>(4)}, {mk<T>(7), mk<T>(10)}, {mk<T>(2), mk<T>(3)}}};
        std::vector<std::string> s; for (long i : {1,4,7,10,2,3}) s.push_back(z<T>(mk<T>(i)));
        o.raw("rd", "[1,3,2]").raw("r", vp::arr(s)).raw("st", st()); vp::emit(o);
    }
    template<std::size_t E> void ilist(std::integral_constant<std::size_t,E>) {}
    void run(int n) { if (r.chance(1,4)) ilist(std::integral_constant<std::size_t,D>{}); for (int i = 0; i < n; ++i) step(); }
};
void vp::setup() {
    vp::add("life", 500, 20000, [](rng& r, long i) {
        int n = r.in(5, 25);
        switch (i % 9) {
        case 0: hist<1,int>(r).run(n); break; case 1: hist<1,std::string>(r).run(n); break; case 2: hist<1,bool>(r).run(n); break;
        case 3: hist<2,int>(r).run(n); break; case 4: hist<2,std::string>(r).run(n); break; case 5: hist<3,double>(r).run(n); break;
        case 6: hist<2,bool>(r).run(n); break; case 7: hist<1,double>(r).run(n); break; default: hist<4,int>(r).run(n/2); break;
        }
    });
}
