// Common conformance-driver support.
//
// A driver is a program that includes the real vif headers, exercises the real functions on
// enumerated / seeded inputs, and writes one JSON line per public call (operation, arguments,
// outcome, result).  It contains NO expected values: the lines are judged by TLC against the
// TLA+ specification.
#ifndef VP_HPP
#define VP_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include <functional>
#include <exception>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

namespace vp {
    // ---- outcome capture: exit()/abort() of the library become a logged outcome -------------
    extern jmp_buf* cur_jmp;
    // 1: returned, 0: stopped the program with an error, 2: C++ exception
    template<class F> int guard(F&& f) {
        jmp_buf jb;
        jmp_buf* old = cur_jmp;
        cur_jmp = &jb;
        if (setjmp(jb)) { cur_jmp = old; return 0; }
        int r = 1;
        try { f(); } catch (...) { r = 2; }
        cur_jmp = old;
        return r;
    }

    // ---- values --------------------------------------------------------------------------
    // TLC integers are 32 bit: everything that does not fit is mapped to a sentinel.
    const long V_NPOS = 2000000000, V_NAN = 2000000001, V_INF = 2000000002, V_NINF = 2000000003,
               V_FRAC = 2000000004, V_BIG = 2000000005;

    inline std::string num(double d, double scale = 1) {
        if (std::isnan(d)) return std::to_string(V_NAN);
        if (std::isinf(d)) return std::to_string(d > 0 ? V_INF : V_NINF);
        d *= scale;
        if (std::floor(d) != d) return std::to_string(V_FRAC);
        if (d > 1e9 || d < -1e9) return std::to_string(V_BIG);
        return std::to_string((long)d);
    }
    inline std::string num(float d, double scale = 1) { return num((double)d, scale); }
    inline std::string num(long d) {
        if (d > 1000000000l || d < -1000000000l) return std::to_string(V_BIG);
        return std::to_string(d);
    }
    inline std::string num(unsigned long d) {
        if (d == (unsigned long)-1) return std::to_string(V_NPOS);
        if (d > 1000000000ul) return std::to_string(V_BIG);
        return std::to_string(d);
    }
    inline std::string num(long long d) { return num((long)d); }
    inline std::string num(unsigned long long d) { return num((unsigned long)d); }
    inline std::string num(int d) { return num((long)d); }
    inline std::string num(unsigned d) { return num((unsigned long)d); }
    inline std::string num(short d) { return num((long)d); }
    inline std::string num(unsigned short d) { return num((long)d); }
    inline std::string num(char d) { return num((long)(signed char)d); }
    inline std::string num(signed char d) { return num((long)d); }
    inline std::string num(unsigned char d) { return num((long)d); }
    inline std::string num(bool d) { return d ? "1" : "0"; }
    // strings are sequences of byte codes
    inline std::string num(const std::string& s) {
        std::string r = "[";
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (i) r += ",";
            r += std::to_string((unsigned char)s[i]);
        }
        return r + "]";
    }

    template<class C> std::string seq(const C& c) {
        std::string r = "["; bool first = true;
        for (auto&& x : c) { if (!first) r += ","; first = false; r += num(x); }
        return r + "]";
    }
    template<class C> std::string seq(const C& c, double scale) {
        std::string r = "["; bool first = true;
        for (auto&& x : c) { if (!first) r += ","; first = false; r += num((double)x, scale); }
        return r + "]";
    }
    inline std::string arr(const std::vector<std::string>& v) {
        std::string r = "[";
        for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
        return r + "]";
    }
    inline std::string str(const std::string& s) { return "\"" + s + "\""; }

    // a JSON object under construction
    struct obj {
        std::string s;
        obj() {}
        explicit obj(const char* op) { raw("op", str(op)); }
        obj& raw(const char* k, const std::string& v) {
            if (!s.empty()) s += ",";
            s += "\""; s += k; s += "\":"; s += v; return *this;
        }
        template<class T> obj& n(const char* k, const T& v) { return raw(k, num(v)); }
        template<class T> obj& q(const char* k, const T& v) { return raw(k, seq(v)); }
        obj& t(const char* k, const std::string& v) { return raw(k, str(v)); }
        std::string done() const { return "{" + s + "}"; }
    };

    // ---- random --------------------------------------------------------------------------
    struct rng {
        uint64_t x;
        explicit rng(uint64_t s = 1) : x(s*0x9E3779B97F4A7C15ull + 0x123456789ull) { next(); next(); }
        uint64_t next() {
            x += 0x9E3779B97F4A7C15ull;
            uint64_t z = x;
            z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27))*0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        long in(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); } // inclusive
        bool chance(int num, int den) { return (long)(next() % den) < num; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    };

    // ---- driver --------------------------------------------------------------------------
    struct options {
        uint64_t seed = 1; bool thorough = false;
        long shard = 0, nshards = 1, from = 0, only = -1;
        std::string out, status, extra, scratch;
    };
    extern options opt;
    extern FILE* fout;
    extern long cur_case;
    extern long nevents;

    inline void emit(const obj& o) {
        fprintf(fout, "{\"c\":%ld,%s}\n", cur_case, o.s.c_str());
        ++nevents;
    }

    // A family of cases. `n` cases; run(r, i) performs case i.
    struct family {
        std::string name; long n; std::function<void(rng&, long)> run;
    };
    extern std::vector<family> families;
    inline void add(const std::string& name, long nquick, long nthorough, std::function<void(rng&, long)> f) {
        families.push_back({name, opt.thorough ? nthorough : nquick, f});
    }
    void setup(); // provided by the driver: calls add(...)
}
#endif
