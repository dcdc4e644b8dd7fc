#include "dec.hpp"
#include "vif/io/filesystem.hpp"
#include "vif/io/ascii.hpp"
static string path() { return vp::opt.scratch + "/t" + std::to_string(vp::opt.shard) + ".txt"; }
static string slurp(const string& p) { string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return "?"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void spit(const string& p, const string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
// ---- writing
static string arg(const char* t, const char* k, long rows, long m, const std::vector<string>& v, long p = 6) { obj o; o.t("t", t).t("k", k).n("rows", rows).n("m", m).raw("v", vp::arr(v)).n("p", p); return o.done(); }
static string grp(long n, const std::vector<string>& of) { obj o; o.t("t", "g").n("n", n).raw("of", vp::arr(of)); return o.done(); }
static string word(rng& r, bool csv) { return rs(r, csv ? "ab c" : "abz1", csv ? 0 : 1, r.chance(1,5) ? 9 : 3); }
static int ri(rng& r) { return r.chance(1,4) ? r.in(-99999, 99999) : r.in(-20, 20); }
struct tab {
    rng& r; bool csv;
    template<std::size_t D> vec<D,int> vi(std::array<std::size_t,D> d) { vec<D,int> v; v.dims = d; v.resize(); for (auto& x : v.data) x = ri(r); return v; }
    template<std::size_t D> vec<D,string> vs(std::array<std::size_t,D> d) { vec<D,string> v; v.dims = d; v.resize(); for (auto& x : v.data) x = word(r, csv); return v; }
};
template<class V> std::vector<string> els(const V& v) { std::vector<string> w; for (uint_t i = 0; i < v.size(); ++i) w.push_back(vp::num(v.safe[i])); return w; }
static long maxw(rng& r) { return r.in(0, 1) ? 0 : r.in(2, 6); }
static void writecase(rng& r, long i) {
    ascii::output_format f = r.chance(1,3) ? ascii::output_format::csv() : ascii::output_format::standard();
    bool csv = !f.auto_width;
    if (r.chance(1,3)) f.auto_width = r.chance(1,2); if (r.chance(1,3)) f.min_width = maxw(r); if (r.chance(1,6)) f.delim = r.chance(1,2) ? " | " : "\t";
    if (r.chance(1,4)) f.header_chars = r.chance(1,2) ? "" : "%";
    tab t{r, csv}; std::size_t n = r.chance(1,6) ? 0 : r.in(1, 4), m = r.in(1, 3);
    auto off = [&] { return r.chance(1,12) ? (std::size_t)r.in(0, 4) : n; };
    std::size_t n1 = off(), n2 = off();
    string p = path(); std::vector<string> a; int ncol = 0; int kind = i % 7; bool useft = false; vec1s names;
    auto hdr = [&] { if (!useft) { if (r.chance(1,3)) { ncol += r.chance(1,12); f.header.resize(ncol); for (auto& s : f.header.data) s = rs(r, "xyz", 1, r.chance(1,4) ? 7 : 2); } names = f.header; } };
    auto go = [&](std::function<void()> call) {
        obj q; std::vector<string> hs; for (uint_t k = 0; k < names.size(); ++k) hs.push_back(vp::num(names.safe[k]));
        q.raw("hdr", vp::arr(hs)).n("hc", f.header_chars).n("delim", f.delim).n("auto", f.auto_width).n("minw", f.min_width);
        obj o("write"); o.raw("a", vp::arr(a)).raw("o", q.done());
        rec(o, [&](obj& z) { call(); z.n("r", slurp(p)); });
    };
    bool dflt = f.auto_width && f.min_width == 0 && f.delim == " " && f.header_chars == "# " && r.chance(1,2);
    switch (kind) {
    case 0: { auto x = t.vi<1>({{n1}}); auto y = t.vs<1>({{n2}}); a = {arg("v", "i", n1, 1, els(x)), arg("v", "s", n2, 1, els(y))}; ncol = 2; if (!dflt) hdr(); go([&] { if (dflt) ascii::write_table(p, x, y); else ascii::write_table(p, f, x, y); }); break; }
    case 1: { auto x = t.vs<1>({{n1}}); auto y = t.vi<2>({{n2, m}}); auto z = t.vi<1>({{n}}); a = {arg("v", "s", n1, 1, els(x)), arg("m", "i", n2, m, els(y)), arg("v", "i", n, 1, els(z))}; ncol = 2 + m; hdr(); go([&] { ascii::write_table(p, f, x, y, z); }); break; }
    case 2: { auto x = t.vi<1>({{n}}); auto y = t.vi<2>({{n1, m}}); auto z = t.vs<2>({{n2, m}}); a = {arg("v", "i", n, 1, els(x)), grp(m, {arg("m", "i", n1, m, els(y)), arg("m", "s", n2, m, els(z))})}; ncol = 1 + 2*m; hdr(); go([&] { ascii::write_table(p, f, x, ascii::columns(m, y, z)); }); break; }
    case 3: { auto id = t.vi<1>({{n}}); auto flux = t.vi<2>({{n, m}}); struct { vec1s name; } cat; cat.name = t.vs<1>({{n2}}); useft = true; names.push_back("id"); for (size_t k = 0; k < m; ++k) names.push_back("flux_" + std::to_string(k + 1)); names.push_back("name");
        a = {arg("v", "i", n, 1, els(id)), arg("m", "i", n, m, els(flux)), arg("v", "s", n2, 1, els(cat.name))}; go([&] { if (dflt) ascii::write_table(p, ftable(id, flux, cat.name)); else ascii::write_table(p, f, ftable(id, flux, cat.name)); }); break; }
    case 4: { auto v1 = t.vi<1>({{n}}); useft = true; names = {"v1", "shift(v1, 0)", "v1"}; a = {arg("v", "i", n, 1, els(v1)), arg("v", "i", n, 1, els(shift(v1, 0))), arg("v", "i", n, 1, els(v1))}; go([&] { ascii::write_table(p, f, ftable(v1 , shift(v1, 0),v1)); }); break; }
    default: { vec1d x(n); std::vector<string> w; uint_t pr = r.in(1, 9); for (auto& y : x.data) { dec d = rdec(r, 9); if (!d.ds.empty() && d.ds.back() == '5') d.ds.back() = '7'; y = mkd(d); w.push_back(jdec(d)); }
        auto z = t.vi<1>({{n1}}); bool sc = r.chance(1,2); a = {arg("v", sc ? "e" : "g", n, 1, w, sc ? 6 : pr), arg("v", "i", n1, 1, els(z)), arg("v", "g", n, 1, w, 6)}; ncol = 3; hdr();
        go([&] { if (sc) ascii::write_table(p, f, format::scientific(x), z, x); else ascii::write_table(p, f, format::precision(x, pr), z, x); }); break; }
    }
    remove(p.c_str());
}
// ---- reading
static string ra(const char* t, const char* k) { obj o; o.t("t", t).t("k", k); return o.done(); }
static string rg(long n, const std::vector<string>& of) { std::vector<string> w; for (auto& x : of) w.push_back(vp::str(x)); obj o; o.t("t", "g").n("n", n).raw("of", vp::arr(w)); return o.done(); }
template<std::size_t D, class T> string rv_(const vec<D,T>& v) { obj o; o.raw("d", vv::jd(v)).raw("v", vp::arr(els(v))); return o.done(); }
template<std::size_t D> string rv_(const vec<D,double>& v) { std::vector<string> w; for (auto x : v.data) w.push_back(jval(x)); obj o; o.raw("d", vv::jd(v)).raw("v", vp::arr(w)); return o.done(); }
template<class T> string rx(const T& v) { obj o; o.raw("v", vp::arr({vp::num(v)})); return o.done(); }
static const string NONE = "{\"d\":[],\"v\":[]}";
static void readcase(rng& r, long i) {
    ascii::input_format f = r.chance(1,2) ? ascii::input_format::csv() : ascii::input_format::standard();
    bool csv = f.delim_single; bool dflt = !csv && r.chance(1,2);
    if (!dflt) {
        if (r.chance(1,5)) f.delim = csv ? (r.chance(1,2) ? ";" : "::") : ", ";
        if (r.chance(1,5)) f.skip_pattern = r.chance(1,2) ? "%" : "//";
        if (r.chance(1,5)) f.auto_skip = false;
        if (r.chance(1,4)) f.skip_first = r.in(0, 3);
    }
    string sep = csv ? f.delim : f.delim == ", " ? "," : " ";
    std::size_t n = r.chance(1,6) ? 0 : r.in(1, 3), m = r.in(1, 3); int kind = i % 8;
    // kinds of the columns
    std::vector<string> k;
    switch (kind) { case 0: k = {"i", "s"}; break; case 1: k = {"s", "i", "s"}; break; case 2: k = {"i"}; for (size_t g = 0; g < m; ++g) { k.push_back("i"); k.push_back("s"); } break;
        case 3: for (size_t g = 0; g < m; ++g) k.push_back("s"); k.push_back("i"); break; case 4: k = {"d", "i"}; break; case 5: k = {"i", "s"}; if (r.chance(3,4)) n = 1; break; case 6: for (size_t g = 0; g < m; ++g) { k.push_back("s"); k.push_back("i"); } break; default: k = {"s", "s", "s"}; }
    auto cell = [&](const string& c) -> string {
        if (r.chance(1,60)) return csv ? "" : "x";
        if (c == "s") return csv ? rs(r, "ab c", 0, 3) : rs(r, "ab1", 1, 3);
        if (c == "d") return rtext_d(r);
        return (csv && r.chance(1,4) ? " " : "") + (r.chance(1,40) ? "99999999999999999999" : std::to_string(ri(r))) + (r.chance(1,60) ? ".5" : "");
    };
    string file, nl = r.chance(1,5) ? "\r\n" : "\n";
    auto junk = [&](bool com) { while (r.chance(1,6)) file += (com && r.chance(1,2) ? (r.chance(1,2) ? " " : "") + f.skip_pattern + " a b" : r.chance(1,2) ? " \t" : "") + nl; };
    if (f.skip_first == 0) junk(f.auto_skip);
    for (size_t h = 0; h < f.skip_first && (h < 2 || r.chance(1,2)); ++h) file += "title " + std::to_string(h) + nl;
    for (size_t j = 0; j < n; ++j) {
        string l = !csv && r.chance(1,3) ? "  " : "";
        size_t nc = k.size() + (r.chance(1,8) ? 1 : 0) - (r.chance(1,40) ? 1 : 0);
        for (size_t c = 0; c < nc; ++c) l += (c ? (csv ? sep : sep + (r.chance(1,3) ? (sep == "," ? " " : "\t ") : "")) : "") + cell(c < k.size() ? k[c] : "s");
        if (!csv && r.chance(1,5)) l += " ";
        file += l; if (j + 1 < n || r.chance(2,3)) { file += nl; junk(f.auto_skip); }
    }
    string p = path(); spit(p, file);
    std::vector<string> a, res; std::function<void()> call;
    vec1i vi, vi2; vec1s vs, vs2, vs3; vec2i mi; vec2s ms; vec1d vd; int xi = 0; string xs;
    if (r.chance(1,3)) { vi = {1, 2, 3, 4, 5}; vs = {"q"}; mi.resize(2, 5); }
    #define RD(...) if (dflt) ascii::read_table(p, __VA_ARGS__); else ascii::read_table(p, f, __VA_ARGS__)
    switch (kind) {
    case 0: a = {ra("v", "i"), ra("v", "s")}; call = [&] { RD(vi, vs); res = {rv_(vi), rv_(vs)}; }; break;
    case 1: if (r.chance(1,2)) { a = {ra("_", "_"), ra("v", "i"), ra("v", "s")}; call = [&] { RD(_, vi, vs); res = {NONE, rv_(vi), rv_(vs)}; }; }
            else { a = {ra("v", "s"), ra("_", "_"), ra("v", "s")}; call = [&] { RD(vs, _, vs2); res = {rv_(vs), NONE, rv_(vs2)}; }; } break;
    case 2: a = {ra("v", "i"), rg(m, {"i", "s"})}; call = [&] { RD(vi, ascii::columns(m, mi, ms)); res = {rv_(vi), vp::arr({rv_(mi), rv_(ms)})}; }; break;
    case 3: if (r.chance(1,2)) { a = {rg(m, {"s"}), ra("v", "i")}; call = [&] { RD(ascii::columns(m, ms), vi); res = {vp::arr({rv_(ms)}), rv_(vi)}; }; }
            else { a = {rg(m, {"_"}), ra("v", "i")}; call = [&] { RD(ascii::columns(m, _), vi); res = {vp::arr({NONE}), rv_(vi)}; }; } break;
    case 4: a = {ra("v", "d"), ra("v", "i")}; call = [&] { RD(vd, vi); res = {rv_(vd), rv_(vi)}; }; break;
    case 5: a = {ra("x", "i"), ra("x", "s")}; call = [&] { RD(xi, xs); res = {rx(xi), rx(xs)}; }; break;
    case 6: a = {rg(m, {"_", "i"})}; call = [&] { RD(ascii::columns(m, _, mi)); res = {vp::arr({NONE, rv_(mi)})}; }; break;
    default: a = {ra("v", "s"), ra("v", "s"), ra("v", "s")}; call = [&] { RD(vs, vs2, vs3); res = {rv_(vs), rv_(vs2), rv_(vs3)}; };
    }
    obj q; q.n("auto", f.auto_skip).n("pat", f.skip_pattern).n("first", f.skip_first).n("delim", f.delim).n("single", f.delim_single);
    obj o("read"); o.n("f", file).raw("o", q.done()).raw("a", vp::arr(a));
    rec(o, [&](obj& z) { call(); z.raw("r", vp::arr(res)); });
    remove(p.c_str());
}
void vp::setup() {
    add("write", 1400, 10000, writecase);
    add("read", 1800, 12000, readcase);
    add("nofile", 1, 1, [](rng& r, long) { obj o("nofile"); o.n("x", 0); vec1i v; rec(o, [&](obj& z) { ascii::read_table(path() + ".none", v); z.raw("r", "[]"); }); });
}
