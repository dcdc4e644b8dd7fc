// helpers shared by the drivers that work on vif vectors
#ifndef VV_HPP
#define VV_HPP
#include "vp.hpp"
#include "vif/core/vec.hpp"
#include "vif/core/print.hpp"
#include "vif/utility/generic.hpp"
namespace vv {
    using namespace vif;
    using vp::obj;
    using vp::rng;

    // element encoding: the driver works with small integers whatever the element type
    template<class T> struct el {
        static T mk(long i) { return (T)i; }
        static std::string js(const T& x) { return vp::num(x); }
    };
    template<> struct el<std::string> {
        static std::string mk(long i) { return "e" + std::to_string(i); }
        static std::string js(const std::string& s) {
            if (s.empty()) return "-1";
            if (s[0] != 'e') return "-2";
            return s.substr(1);
        }
    };
    template<> struct el<bool> {
        static bool mk(long i) { return i % 3 == 1; }
        static std::string js(bool x) { return x ? "1" : "0"; }
    };
    template<> struct el<char> {
        static char mk(long i) { return (char)(i % 100); }
        static std::string js(char x) { return vp::num(x); }
    };
    template<std::size_t D, class T> std::string js(const vec<D,T>& v) {
        using R = typename vec<D,T>::rtype;
        std::string r = "[";
        for (uint_t i = 0; i < v.data.size(); ++i) { if (i) r += ","; r += el<R>::js(v.safe[i]); }
        return r + "]";
    }
    template<std::size_t D, class T> std::string jd(const vec<D,T>& v) { return vp::seq(v.dims); }

    // r <- {"rd":dims,"r":data}
    template<std::size_t D, class T> void put(obj& o, const vec<D,T>& v) { o.raw("rd", jd(v)).raw("r", js(v)); }
    template<class T> typename std::enable_if<!meta::is_vec<T>::value>::type put(obj& o, const T& x) {
        o.raw("rd", "[]").raw("r", "[" + el<T>::js(x) + "]");
    }

    // a vector with given shape holding mk(0), mk(1), ...
    template<std::size_t D, class T> vec<D,T> iota(const std::array<std::size_t,D>& d, long start = 0, long step = 1) {
        vec<D,T> v; v.dims = d; v.resize();
        for (uint_t i = 0; i < v.data.size(); ++i) v.data[i] = el<T>::mk(start + step*(long)i);
        return v;
    }
    // the view of everything
    template<class T> auto all_view(vec<1,T>& v) -> decltype(v[_]) { return v[_]; }
    template<class T> auto all_view(const vec<1,T>& v) -> decltype(v[_]) { return v[_]; }
    template<class T> auto all_view(vec<2,T>& v) -> decltype(v(_,_)) { return v(_,_); }
    template<class T> auto all_view(const vec<2,T>& v) -> decltype(v(_,_)) { return v(_,_); }
    template<class T> auto all_view(vec<3,T>& v) -> decltype(v(_,_,_)) { return v(_,_,_); }
    template<class T> auto all_view(const vec<3,T>& v) -> decltype(v(_,_,_)) { return v(_,_,_); }
    template<class T> auto all_view(vec<4,T>& v) -> decltype(v(_,_,_,_)) { return v(_,_,_,_); }
    template<std::size_t D> std::array<std::size_t,D> rdims(rng& r, long lo, long hi) {
        std::array<std::size_t,D> d;
        for (auto& x : d) x = r.in(lo, hi);
        return d;
    }
}
#endif
