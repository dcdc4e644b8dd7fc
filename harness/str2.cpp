#include "str.hpp"
struct item { string cs; int lo, hi, cap; };
struct regexp { int a, z; std::vector<item> it; };
static string pat(rng& r, const regexp& e) {
    string s = e.a ? "^" : "";
    for (auto& i : e.it) {
        string c = i.cs.size() == 1 && r.chance(1,2) ? i.cs : "[" + i.cs + "]";
        if (i.cs.size() == 1 && c == i.cs && (c == "(" || c == "." || c == "\\")) c = "\\" + c;
        string q = i.lo == 1 && i.hi == 1 ? "" : i.lo == 0 && i.hi == 1 ? "?" : i.lo == 0 && i.hi == 99 ? "*" : i.lo == 1 && i.hi == 99 ? "+" :
            "{" + std::to_string(i.lo) + "," + (i.hi == 99 ? string() : std::to_string(i.hi)) + "}";
        s += i.cap == 2 ? "(" + c + ")" + q : i.cap ? "(" + c + q + ")" : c + q;
    }
    return s + (e.z ? "$" : "");
}
static string jre(const regexp& e) {
    std::vector<string> w;
    for (auto& i : e.it) { obj q; q.n("cs", i.cs).n("lo", i.lo).n("hi", i.hi).n("cap", i.cap ? 1 : 0); w.push_back(q.done()); }
    obj q; q.n("a", e.a).n("z", e.z).raw("it", vp::arr(w)); return q.done();
}
static regexp rre(rng& r, bool cap) {
    static const std::vector<string> cl = {"a", "b", "ab", "c", "(", "bc", "ac"};
    regexp e; e.a = r.chance(1,6); e.z = r.chance(1,6);
    long n = r.in(1, 3);
    for (long k = 0; k < n; ++k) {
        item i; i.cs = r.pick(cl); i.cap = cap && r.chance(1,2);
        switch (r.in(0, 5)) { case 0: i.lo = 0; i.hi = 1; break; case 1: i.lo = 0; i.hi = 99; break; case 2: i.lo = 1; i.hi = 99; break; case 3: i.lo = 1; i.hi = 2; break; default: i.lo = i.hi = 1; }
        // an optional group that does not take part in the match
        if (i.cap && i.hi == 1 && i.lo == 0 && r.chance(1,2)) i.cap = 2;
        e.it.push_back(i);
    }
    return e;
}
static void lst(obj& q, const vec1s& v) { q.raw("r", sv(v)).raw("rd", vv::jd(v)); }
void str2() {
    using namespace vp;
    add("pieces", 2000, 12000, [](rng& r, long i) {
        static const string al[] = {"ab", "ab ", "a, ", " aaab"};
        const string& a = al[r.in(0, 3)];
        string s = rs(r, a, 0, r.chance(1,3) ? 20 : 7), p = rs(r, a, 1, 3);
        switch (i % 6) {
        case 0: { obj o("split"); o.raw("v", sq({s})).n("p", p); rec(o, [&](obj& q) { lst(q, split(s, p)); }); break; }
        case 1: { obj o("splitany"); o.raw("v", sq({s})).n("p", p); rec(o, [&](obj& q) { lst(q, split_any_of(s, p)); }); break; }
        case 2: { uint_t n = r.in(1, 8); obj o("cut"); o.raw("v", sq({s})).n("n", n); rec(o, [&](obj& q) { lst(q, cut(s, n)); }); break; }
        case 3: { bool ell = r.chance(1,3); string ind(r.in(0, 2), r.chance(1,2) ? ' ' : '>'); uint_t n = ell ? r.in(ind.size() + 3, 12) : r.in(ind.size() + 1, 10);
            s = rs(r, al[r.chance(1,2) ? 3 : 1], 0, 40);
            obj o("wrap"); o.raw("v", sq({s})).n("n", n).n("p", ind).n("ell", ell);
            rec(o, [&](obj& q) { lst(q, ell || r.chance(1,2) ? wrap(s, n, ind, ell) : ind.empty() ? wrap(s, n) : wrap(s, n, ind)); }); break; }
        case 4: { vec1s v(r.in(0, 4)); for (auto& x : v.data) x = rs(r, a, 0, 3); string sep = r.chance(1,2) ? "" : p;
            obj o("collapse"); o.raw("v", sv(v)).n("p", sep);
            viewed<string> vw(r, v.data); long f = r.in(0, 2); vec2s m(v.size() ? 1 : 0, v.size()); if (f == 2) for (uint_t k : range(v)) m.safe[k] = v.safe[k];
            rec(o, [&](obj& q) {
                string x = sep.empty() && r.chance(1,2) ? (f == 0 ? collapse(v) : f == 1 ? collapse(vw.big[vw.ids]) : collapse(m)) : (f == 0 ? collapse(v, sep) : f == 1 ? collapse(vw.big[vw.ids], sep) : collapse(m, sep));
                q.raw("r", sq({x})); }); break; }
        case 5: { int n = r.in(-4, 4); obj o("word"); o.raw("v", sq({s})).n("p", p).n("n", n); rec(o, [&](obj& q) { q.raw("r", sq({get_word(s, n, p)})); }); break; }
        }
    });
    add("blocks", 1200, 8000, [](rng& r, long i) {
        struct bl { string b, s, e, al; };
        static const std::vector<bl> bs = {{"<", ",", ">", "ab<>,"}, {"f{", "}{", "}", "af{}"}, {"|", ":", "|", "a:|"}, {"ab", "b", "ba", "ab"}, {"(", ";;", ")", "a();"}};
        const bl& b = r.pick(bs);
        string s;
        if (r.chance(1,2)) s = rs(r, b.al, 0, 12);
        else { long n = r.in(0, 3); for (long k = 0; k < n; ++k) { s += rs(r, "ax", 0, 2) + b.b; long m = r.in(1, 3); for (long j = 0; j < m; ++j) s += (j ? b.s : "") + rs(r, "xy", 0, 2); if (!r.chance(1,10)) s += b.e; } s += rs(r, "ax", 0, 2); }
        std::vector<string> seen, rep;
        if (i % 2) {
            obj o("block"); o.raw("v", sq({s})).n("p", b.b).n("q", b.e);
            rec(o, [&](obj& q) {
                string x = replace_block(s, b.b, b.e, [&](string t) { seen.push_back(vp::num(t)); rep.push_back("[" + string(rep.size() % 2 ? b.b : "#") + std::to_string(rep.size()) + t); return rep.back(); });
                q.raw("r", sq({x})).raw("seen", vp::arr(seen)).raw("rep", sq(rep)); });
        } else {
            obj o("blocks"); o.raw("v", sq({s})).n("p", b.b).n("sep", b.s).n("q", b.e);
            rec(o, [&](obj& q) {
                string x = replace_blocks(s, b.b, b.s, b.e, [&](vec1s t) { seen.push_back(sv(t)); rep.push_back("#" + b.e + std::to_string(rep.size()) + b.b); return rep.back(); });
                q.raw("r", sq({x})).raw("seen", vp::arr(seen)).raw("rep", sq(rep)); });
        }
    });
    add("regex", 1600, 10000, [](rng& r, long i) {
        regexp e = rre(r, i % 4 > 1); string p = pat(r, e);
        string s = rs(r, r.chance(1,4) ? "ab(" : "abc", 0, 9);
        if (i % 4 == 0) {
            obj o("rematch"); o.raw("re", jre(e)).n("pat", p);
            if (r.chance(1,2)) { o.raw("v", sq({s})).raw("d", "[]"); rec(o, [&](obj& q) { q.raw("r", vp::arr({vp::num(regex_match(s, p))})).raw("rd", "[]"); }); }
            else { vec2s v(2, 2); for (auto& x : v.data) x = rs(r, "abc", 0, 6); o.raw("v", sv(v)).raw("d", vv::jd(v)); rec(o, [&](obj& q) { auto b = regex_match(v, p); q.raw("r", sv(b)).raw("rd", vv::jd(b)); }); }
        } else if (i % 4 == 1) {
            vec1s ps; std::vector<string> js; long n = r.in(1, 3);
            for (long k = 0; k < n; ++k) { regexp e2 = rre(r, true); ps.push_back(pat(r, e2)); js.push_back(jre(e2)); }
            obj o("rematch2"); o.n("s", s).raw("rl", vp::arr(js)).raw("d", vv::jd(ps));
            rec(o, [&](obj& q) { auto b = regex_match(s, ps); q.raw("r", sv(b)).raw("rd", vv::jd(b)); });
        } else if (i % 4 == 2) {
            obj o("reextract"); o.raw("re", jre(e)).n("pat", p).n("s", s);
            rec(o, [&](obj& q) { auto b = regex_extract(s, p); q.raw("r", sv(b)).raw("rd", vv::jd(b)); });
        } else {
            std::vector<string> seen, rep;
            obj o("rereplace"); o.raw("re", jre(e)).n("pat", p).n("s", s);
            rec(o, [&](obj& q) {
                string x = regex_replace(s, p, [&](vec1s t) { seen.push_back(sv(t)); rep.push_back("#ab" + std::to_string(rep.size())); return rep.back(); });
                q.raw("r", sq({x})).raw("seen", vp::arr(seen)).raw("rep", sq(rep)); });
        }
    });
    add("badregex", 12, 12, [](rng& r, long i) {
        static const char* bad[] = {"(a", "[a", "*", "a{2"};
        string p = bad[i % 4]; obj o("rebad"); o.n("k", (long)i);
        rec(o, [&](obj& q) {
            if (i / 4 == 0) regex_match("aa", p); else if (i / 4 == 1) regex_extract("aa", p); else regex_replace("aa", p, [](vec1s) { return string(); }); q.raw("r", "[]"); });
    });
}
