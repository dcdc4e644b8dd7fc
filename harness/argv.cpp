// program arguments, environment variables, commands
#include "dec.hpp"
#include "vif/utility/argv.hpp"
#include "vif/utility/os.hpp"
#include <fstream>
#include <sstream>
#include <memory>
typedef std::vector<string> strs;
template<class T> struct kd { static const char* c() { return std::is_same<T,int>::value ? "i" : std::is_same<T,bool>::value ? "b" : std::is_same<T,double>::value ? "d" : "s"; } };
static string jv(const string& s) { return vp::num(s); }
template<class T> string jv(const T& x) { return jval<T>(x); }
static string jv(const double& x) { char b[64]; snprintf(b, 64, "%.11e", x); string t = b; bool neg = t[0] == '-'; if (neg) t = t.substr(1); size_t e = t.find('e'); obj o; o.t("k", "n").n("neg", neg).raw("ds", jds(t.substr(0, 1) + t.substr(2, e - 2))).n("x", atoi(t.c_str() + e + 1) + 1); return o.done(); }
template<class T> string jl(const T& x) { return "[" + jv(x) + "]"; }
template<class T> string jl(const vec<1,T>& x) { strs w; for (uint_t i = 0; i < x.size(); ++i) w.push_back(jv((const T&)x.safe[i])); return vp::arr(w); }
template<class T> string kof(const T&) { return kd<T>::c(); }
template<class T> string kof(const vec<1,T>&) { return kd<T>::c(); }
template<class T> int wof(const T&) { return 0; }
template<class T> int wof(const vec<1,T>&) { return 1; }
static string itx(rng& r) { return r.chance(1,30) ? r.pick(strs{"2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999"}) : std::to_string(r.in(-20, 120)); }
static string rval(rng& r, const string& k) {
    if (r.chance(1,8)) return r.pick(strs{"", "x", "1 2", "3z", "--1", "1.5.2", "e", ".", "1e", "2x3", "[", "]", "[]"});
    if (k == "i") return itx(r) + (r.chance(1,20) ? ".5" : "");
    if (k == "b") return r.chance(3,4) ? std::to_string(r.in(0, 1)) : std::to_string(r.in(0, 3));
    if (k == "d") return r.chance(1,3) ? std::to_string(r.in(-20, 120)) : r.chance(1,4) ? r.pick(strs{"1e3", "-2.5E-2", ".5", "5.", "+4"}) : std::to_string(r.in(-9, 9)) + "." + std::to_string(r.in(0, 99));
    return rs(r, "ab. n=-", 0, 5);
}
static const strs names{"n", "nn", "an", "n1", "verbose", "x"};
static string dec1(rng& r, string v) { if (r.chance(1,4)) v = string(1, r.chance(1,2) ? '"' : '\'') + v + "\""; if (r.chance(1,4)) v = " " + v; if (r.chance(1,8)) v += " "; return v; }
static string rarg(rng& r, const std::map<string,string>& ks) {
    string n = r.pick(names), k = ks.count(n) ? ks.at(n) : "s"; bool w = k.size() > 1; k = k.substr(0, 1);
    string d = r.chance(1,2) ? "" : r.pick(strs{"-", "--", "--"});
    if (r.chance(1,4)) return d + n + (r.chance(1,8) ? r.pick(strs{"n", "1", " "}) : "");
    string a = d + n + (r.chance(1,8) ? " " : "") + "=";
    if (w && r.chance(3,4)) { strs c; long m = r.in(0, 4); a += r.chance(1,6) ? " [" : "["; for (long i = 0; i < m; ++i) { string v = rval(r, k); for (auto& q : v) if (q == ',' ) q = ';'; if (m == 1 && v.find_first_not_of(" '\"") == string::npos) v = "7"; a += (i ? "," : "") + dec1(r, v); } return a + "]" + (r.chance(1,8) ? " " : ""); }
    return a + dec1(r, rval(r, k));
}
struct capture { std::ostringstream o; std::streambuf* b; capture() : b(std::cout.rdbuf(o.rdbuf())) {} ~capture() { std::cout.rdbuf(b); } };
static string warned(const string& t) { // the arguments said to be unknown
    strs w; size_t p = 0; const string key = "unrecognized program argument '";
    while ((p = t.find(key, p)) != string::npos) { p += key.size(); size_t e = t.find("'\n", p); if (e == string::npos) break; w.push_back(t.substr(p, e - p)); p = e; }
    return sq(w);
}
template<class T> void rnd(rng& r, T& t);
static void rone(rng& r, int& t) { t = r.in(-9, 30); } static void rone(rng& r, bool& t) { t = r.chance(1,2); } static void rone(rng& r, double& t) { t = r.in(-40, 40)/4.0; } static void rone(rng& r, string& t) { t = rs(r, "abn", 0, 4); }
template<class T> void rnd(rng& r, T& t) { rone(r, t); }
template<class T> void rnd(rng& r, vec<1,T>& t) { t.clear(); long n = r.in(0, 3); for (long i = 0; i < n; ++i) { T x; rone(r, x); t.push_back(x); } }
static void rnd(rng& r, vec1s& t) { t.clear(); long n = r.in(0, 3); for (long i = 0; i < n; ++i) t.push_back(rs(r, "ab", 1, 3)); }
template<class T> string desc(const string& n, const T& t) { obj o; o.n("n", n).t("k", kof(t)).n("w", wof(t)).raw("def", jl(t)); return o.done(); }
static string spell(rng& r, const string& n) { return (r.chance(1,5) ? "opts." : r.chance(1,6) ? "a.b." : "") + n; }
struct sess {
    rng& r; std::unique_ptr<program_arguments> p[2]; std::map<string,string> ks;
    int i1 = 0, i2 = 0; double d1 = 0; bool b1 = false; string s1; vec<1,int> vi; vec1d vd; vec1s vs; vec1b vb;
    std::vector<string> nm;
    explicit sess(rng& r_) : r(r_) {
        vp::emit(obj("begin")); nm = names; for (size_t i = nm.size(); i > 1; --i) std::swap(nm[i-1], nm[r.in(0, i-1)]);
        const char* k[6] = {"i", "d", "b", "s", "iv", "sv"}; for (int i = 0; i < 6; ++i) ks[nm[i]] = r.chance(1,4) ? r.pick(strs{"i", "dv", "bv", "d"}) : k[i];
    }
    strs args(long lo, long hi) { strs a; long n = r.in(lo, hi); for (long i = 0; i < n; ++i) { string t = rarg(r, ks); a.push_back(t); } return a; }
    struct cargs { std::vector<std::vector<char>> s; std::vector<char*> p; cargs(const strs& a) { s.push_back({'p', 0}); for (auto& x : a) { s.emplace_back(x.begin(), x.end()); s.back().push_back(0); } for (auto& x : s) p.push_back(x.data()); p.push_back(nullptr); } int c() { return s.size(); } };
    void make(int x) { strs a = args(0, 5); bool c = r.chance(1,2); if (!c) for (auto& t : a) t = trim(t); obj o("new"); o.n("x", x).raw("a", sq(a)).n("argc", c); end(x);
        rec(o, [&](obj& q) { if (c) { cargs z(a); p[x].reset(new program_arguments(z.c(), z.p.data())); } else { vec1s v; for (auto& t : a) v.push_back(t); p[x].reset(new program_arguments(v)); } q.n("r", 1); }); }
    void end(int x) { if (!p[x]) return; obj o("end"); o.n("x", x); rec(o, [&](obj& q) { capture c; p[x].reset(); q.raw("r", warned(c.o.str())); }); }
    // f(program_arguments&, ...) with one variable, three, or named ones
    template<class T> void one(const string& n, T& t, int x, bool wr) {
        rnd(r, t); bool named = r.chance(1,4); obj o(wr ? "write" : "read"); o.n("x", x).raw("vs", vp::arr({desc(n, t)})); string sp = named ? "name(t, \"" + n + "\")" : spell(r, n);
        rec(o, [&](obj& q) { capture c; if (wr) { if (named) p[x]->write(sp, vif::name(t, n)); else p[x]->write(sp, t); } else { if (named) p[x]->read(sp, vif::name(t, n)); else p[x]->read(sp, t); } q.raw("r", vp::arr({jl(t)})); });
    }
    void var(const string& n, int x, bool wr) {
        const string& k = ks[n];
        if (k == "i") one(n, i1, x, wr); else if (k == "d") one(n, d1, x, wr); else if (k == "b") one(n, b1, x, wr); else if (k == "s") one(n, s1, x, wr);
        else if (k == "iv") one(n, vi, x, wr); else if (k == "dv") one(n, vd, x, wr); else if (k == "bv") one(n, vb, x, wr); else one(n, vs, x, wr);
    }
    void many(int x, int how) { // 0 read, 1 write, 2 read_args
        string a = nm[r.in(0, 5)], b = nm[r.in(0, 5)], c = nm[r.in(0, 5)]; ks[a] = "i"; if (b != a) ks[b] = "sv"; if (c != a && c != b) ks[c] = "d"; if (a == b || b == c || a == c) return;
        strs ar; if (how == 2) ar = args(0, 6); rnd(r, i1); rnd(r, vs); rnd(r, d1); int pos = r.in(0, 3); string bl = r.chance(1,2) ? ", " : ",";
        obj o(how == 0 ? "read" : how == 1 ? "write" : "readargs"); o.n("x", x).raw("vs", vp::arr({desc(a, i1), desc(b, vs), desc(c, d1)})); if (how == 2) o.raw("a", sq(ar));
        auto q = [](const string& n) { return "name(v, \"" + n + "\")"; };
        rec(o, [&](obj& z) { capture cp; cargs ca(ar);
            #define CALL(N, ...) { if (how == 0) p[x]->read(N, __VA_ARGS__); else if (how == 1) p[x]->write(N, __VA_ARGS__); else read_args(ca.c(), ca.p.data(), N, __VA_ARGS__); }
            if (pos == 0) CALL(q(a) + bl + b + bl + spell(r, c), vif::name(i1, a), vs, d1) else if (pos == 1) CALL(a + bl + q(b) + bl + c, i1, vif::name(vs, b), d1)
            else if (pos == 2) CALL(a + bl + b + bl + q(c), i1, vs, vif::name(d1, c)) else CALL(spell(r, a) + bl + b + bl + c, i1, vs, d1)
            z.raw("r", vp::arr({jl(i1), jl(vs), jl(d1)})); if (how == 2) z.raw("w", warned(cp.o.str())); });
    }
    void step() {
        int x = r.in(0, 1); long k = r.in(0, 11);
        if (k == 10) { many(x, 2); return; }
        if (!p[x]) { make(x); return; }
        if (k < 5) var(r.pick(nm), x, false); else if (k == 5) var(r.pick(nm), x, true); else if (k == 6) many(x, 0); else if (k == 7) many(x, 1);
        else if (k == 8) { obj o("serialize"); o.n("x", x); rec(o, [&](obj& q) { q.n("r", p[x]->serialize()); }); }
        else if (k == 9) { if (!p[1-x]) return; obj o("merge"); o.n("x", x).n("y", 1-x); rec(o, [&](obj& q) { p[x]->merge(*p[1-x]); q.n("r", 1); }); }
        else end(x);
    }
};
template<class T> void env(rng& r) {
    string nme = "VP_TEST_" + rs(r, "AB", 1, 2), k = kd<T>::c(), t; do { t = rval(r, k); } while (k == "b" && t.find('-') != string::npos); T def; rone(r, def); bool set = r.chance(4,5);
    if (set) setenv(nme.c_str(), t.c_str(), 1); else unsetenv(nme.c_str());
    obj o("env"); o.t("k", k).n("set", set).n("t", t).raw("def", jv(def)); rec(o, [&](obj& q) { T g = system_var<T>(nme, def); q.raw("r", jv(g)); }); unsetenv(nme.c_str());
}
static void envs(rng& r) {
    string nme = "VP_TEST_" + rs(r, "AB", 1, 2), t = rs(r, "a b=,", 0, 6), def = rs(r, "xy", 0, 3); bool set = r.chance(3,4), lit = r.chance(1,2);
    if (set) setenv(nme.c_str(), t.c_str(), 1); else unsetenv(nme.c_str());
    obj o("env"); o.t("k", "s").n("set", set).n("t", t).raw("def", jv(def)); rec(o, [&](obj& q) { string g = lit ? system_var(nme, def.c_str()) : system_var(nme, def); q.raw("r", jv(g)); }); unsetenv(nme.c_str());
}
void vp::setup() {
    vp::add("args", 1100, 14000, [](rng& r, long) { sess s(r); long n = r.in(3, 18); for (long i = 0; i < n; ++i) s.step(); s.end(0); s.end(1); });
    vp::add("few", 10, 100, [](rng& r, long i) { vp::emit(obj("begin")); int a = 1, b = 2, c = 3; obj o("few"); rec(o, [&](obj& q) { capture cp; program_arguments pa(vec1s{}); if (i % 4 == 0) pa.read("a", a, b); else if (i % 4 == 1) pa.read("a, b", a, b, c); else if (i % 4 == 2) pa.write("a", a, b); else pa.read("o.a", a, b, c); q.n("r", 1); }); });
    vp::add("cmd", 300, 4000, [](rng& r, long) {
        vp::emit(obj("begin")); strs a; long n = r.in(0, 5); for (long i = 0; i < n; ++i) { string k = rs(r, "ab-", 1, 3), v = rs(r, "a =,[]b ", 1, 8); a.push_back(r.chance(1,3) ? v.find('=') == string::npos ? v : "c" : r.chance(1,3) ? k : k + "=" + v); }
        sess::cargs c(a); strs all = a; all.insert(all.begin(), "p");
        { obj o("cmd"); o.raw("a", sq(all)); rec(o, [&](obj& q) { q.n("r", make_cmd(c.c(), c.p.data())); }); }
        { obj o("save"); string f = vp::opt.scratch + "/save.txt"; string pn = rs(r, "ab", 1, 3); o.raw("a", sq(a)).n("p", pn); rec(o, [&](obj& q) { save_args(f, pn, c.c(), c.p.data()); std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); q.n("r", ss.str()); }); ::remove(f.c_str()); }
    });
    vp::add("env", 400, 5000, [](rng& r, long i) { vp::emit(obj("begin")); switch (i % 4) { case 0: env<int>(r); break; case 1: env<double>(r); break; case 2: env<bool>(r); break; default: envs(r); } });
    vp::add("spawn", 16, 60, [](rng& r, long i) {
        vp::emit(obj("begin")); string f = vp::opt.scratch + "/ran"; ::remove(f.c_str()); long code = i % 3 == 0 ? 0 : r.in(1, 255); if (i % 4 == 3) code = 0; bool bg = i % 4 == 3;
        obj o("spawn"); o.n("code", code); rec(o, [&](obj& q) { bool b = bg ? vif::fork("echo x > '" + f + "'") : vif::spawn("echo x > '" + f + "'; exit " + std::to_string(code)); q.n("r", b); bool ran = false; for (int k = 0; k < (bg ? 400 : 1) && !ran; ++k) { ran = std::ifstream(f).is_open(); if (!ran && bg) usleep(10000); } q.n("ran", ran); });
        ::remove(f.c_str());
    });
}
