#include "str.hpp"
// f is applied to a string, a vector, a matrix, a view and a temporary
template<class F> void forms(rng& r, const char* op, const std::vector<string>& pool, F f, std::function<void(obj&)> args) {
    long form = r.in(0, 4);
    obj o(op); args(o);
    auto pick = [&] { return pool[r.in(0, (long)pool.size()-1)]; };
    if (form == 0) {
        string s = pick(); o.raw("v", sq({s})).raw("d", "[]").t("f", "s");
        rec(o, [&](obj& q) { auto x = f(s); q.raw("r", vp::arr({vp::num(x)})).raw("rd", "[]"); });
    } else if (form == 1 || form == 2) {
        vec1s v(r.in(0, 4)); for (auto& x : v.data) x = pick();
        o.raw("v", sv(v)).raw("d", vv::jd(v)).t("f", "v");
        rec(o, [&](obj& q) { auto x = form == 1 ? f(v) : f(vec1s(v)); q.raw("r", sv(x)).raw("rd", vv::jd(x)); });
    } else if (form == 3) {
        vec2s v(r.in(0, 2), r.in(1, 3)); for (auto& x : v.data) x = pick();
        o.raw("v", sv(v)).raw("d", vv::jd(v)).t("f", "m");
        rec(o, [&](obj& q) { auto x = f(v); q.raw("r", sv(x)).raw("rd", vv::jd(x)); });
    } else {
        std::vector<string> w(r.in(0, 4)); for (auto& x : w) x = pick();
        viewed<string> vw(r, w);
        o.raw("v", sq(w)).raw("d", "[" + std::to_string(w.size()) + "]").t("f", "w");
        rec(o, [&](obj& q) { auto x = f(vw.big[vw.ids]); q.raw("r", sv(x)).raw("rd", vv::jd(x)); });
    }
}
#define FORMS(op, call, ...) forms(r, op, pool, [&](const auto& x) { return call; }, [&](obj& o) { __VA_ARGS__; })
void str2();
void vp::setup() {
    add("vectorised", 2500, 12000, [](rng& r, long i) {
        static const string al[] = {"ab", "aAb ", " \tab", "azAZ@[`{09", "\x80\xff\xc3z"};
        const string& a = al[r.in(0, 4)];
        std::vector<string> pool; for (int k = 0; k < 4; ++k) pool.push_back(rs(r, a, 0, r.chance(1,4) ? 12 : 5));
        string p = r.chance(1,3) ? pool[0].substr(0, r.in(0, 3)) : rs(r, a, 0, 3), q = rs(r, a, 0, 3);
        uint_t n = r.in(0, 7);
        char c = r.chance(1,2) ? ' ' : '0';
        switch (i % 19) {
        case 0: FORMS("length", length(x), ); break;
        case 1: FORMS("empty", empty(x), ); break;
        case 2: FORMS("kfirst", keep_first(x, n), o.n("n", n)); break;
        case 3: FORMS("klast", keep_last(x, n), o.n("n", n)); break;
        case 4: FORMS("dist", distance(x, p), o.n("p", p)); break;
        case 5: FORMS("find", vif::find(x, p), o.n("p", p)); break;
        case 6: case 17: if (p.empty()) p = a.substr(0, 1); FORMS("replace", replace(x, p, q), o.n("p", p).n("q", q)); break;
        case 7: FORMS("trim", trim(x, p), o.n("p", p)); break;
        case 8: FORMS("begins", begins_with(x, p), o.n("p", p)); break;
        case 9: FORMS("ends", ends_with(x, p), o.n("p", p)); break;
        case 10: FORMS("ebn", erase_begin(x, n), o.n("n", n)); break;
        case 11: FORMS("een", erase_end(x, n), o.n("n", n)); break;
        case 12: for (auto& s : pool) if (r.chance(3,4)) s = p + s; FORMS("ebp", erase_begin(x, p), o.n("p", p)); break;
        case 13: for (auto& s : pool) if (r.chance(3,4)) s = s + p; FORMS("eep", erase_end(x, p), o.n("p", p)); break;
        case 14: FORMS("upper", to_upper(x), ); break;
        case 15: FORMS("lower", to_lower(x), ); break;
        case 16: switch (r.in(0, 2)) {
            case 0: FORMS("left", align_left(x, n, c), o.n("n", n).n("p", string(1, c))); break;
            case 1: FORMS("right", align_right(x, n, c), o.n("n", n).n("p", string(1, c))); break;
            default: FORMS("center", align_center(x, n, c), o.n("n", n).n("p", string(1, c))); } break;
        case 18: switch (r.in(0, 4)) { // default arguments
            case 0: FORMS("trim", trim(x), o.n("p", string(" \t\n\r"))); break;
            case 1: FORMS("kfirst", keep_first(x), o.n("n", 1)); break;
            case 2: FORMS("klast", keep_last(x), o.n("n", 1)); break;
            case 3: FORMS("left", align_left(x, n), o.n("n", n).n("p", string(" "))); break;
            default: FORMS("center", align_center(x, n), o.n("n", n).n("p", string(" "))); } break;
        }
    });
    str2();
}
