#include "fits.hpp"
template<class F> static void col_kind(char k, int D, F&& f) {
    if (k == 'a') { switch (D) { case 0: f(tag<'a',0>{}); break; case 1: f(tag<'a',1>{}); break; default: f(tag<'a',2>{}); } return; }
    switch (D) { case 0: by_kind<0>(k, false, f); break; case 1: by_kind<1>(k, false, f); break; case 2: by_kind<2>(k, false, f); break; default: if (k == 'd') f(tag<'d',3>{}); else f(tag<'s',3>{}); }
}
static int maxd(char k) { return k == 'a' ? 2 : k == 'd' || k == 's' ? 3 : 2; }
void session::format() { if (!ot() || !cols().empty()) return; bool row = r.chance(1,2); obj o("format"); o.t("v", row ? "row" : "col"); run(o, [&](obj&) { ot()->set_format(row ? fits::table_format::row_oriented : fits::table_format::column_oriented); }); rowfmt = row; }
template<class T, class F> static typename std::enable_if<!meta::is_vec<T>::value>::type viewed_or(T& v, bool, F&& f) { f(v); }
template<class T, class F> static typename std::enable_if<meta::is_vec<T>::value>::type viewed_or(T& v, bool view, F&& f) { if (view) { auto w = all_view(v); f(w); } else f(v); }
// how: 0 write, 1 update
void session::wcol(int how) {
    char k = rkind(true); int D = r.chance(1,4) ? 0 : r.in(1, maxd(k)); auto d = shape(D); string n = name(); auto cs = fresh ? std::vector<colinfo>{} : cols();
    if (how == 0) for (auto& c : cs) if (up(c.name) == up(n)) return;
    if (!cs.empty() && D > 0 && rows() != 1 && r.chance(9,10)) d[0] = rows();   // most often the right number of rows
    if (how == 1 && !ta()) return;
    if ((rowfmt || (!cs.empty() && rows() != 1)) && d.size() > 1) { for (std::size_t i = 1; i < d.size(); ++i) d[i] = std::max<uint_t>(1, d[i]); if (d.size() == 2 && k != 'a') d[1] = std::max<uint_t>(2, d[1]); }   // empty cells, and cells of shape (1), are not covered
    col_kind(k, D, [&](auto t) {
        using G = decltype(t); typename G::H v; fill(r, v, d, R, true); bool view = r.chance(1,5);
        if (G::D == 0 && k == 'a') { auto& s = reinterpret_cast<string&>(v); if (s.empty()) s = "q"; }
        obj o(how ? "ucol" : "wcol"); o.n("n", n).t("k", string(1, k)).raw("d", edims(v)).raw("v", evals(v)); int via = r.in(0, 2);
        if (run(o, [&](obj&) { viewed_or(v, view && evals(v) != "[]", [&](auto& w) { if (how) { if (via) ta()->update_column(n, w); else ta()->update_columns(n, w); } else if (via) ot()->write_column(n, w); else ot()->write_columns(n, w); }); })) fresh = false;
    });
}
void session::rcol(int how) {
    auto cs = cols(); string n = !cs.empty() && r.chance(11,12) ? r.pick(cs).name : "NONE"; char k = 'd'; int D = r.in(0, 2);
    for (auto& c : cs) if (c.name == n) { k = c.k == 'a' ? 'a' : r.chance(1,2) ? host(r, c.k) : r.chance(1,3) ? rkind(true) : 'd'; if (k == 'b' && c.k == 'c') k = 'c'; long rk = c.e.size() + (rows() != 1); if (rk == 0) rk = r.in(0, 1); if (r.chance(4,5)) D = rk; else D = r.in(0, 3); }
    if (R > 1 && k == 'b') for (auto& c : cs) if (c.name == n && c.k != 'b' && c.k != 'o') k = 'd';
    D = std::min(D, maxd(k)); for (auto& c : cs) if (c.name == n) n = r.chance(1,3) ? "" : n;
    if (n.empty()) { n = r.pick(cs).name; for (auto& c : n) c = tolower(c); for (auto& c : cs) if (up(c.name) == up(n)) { k = host(r, c.k); D = std::min<int>(maxd(k), std::max<int>(1, c.e.size() + (rows() != 1))); } }
    fits::table_read_options q; int x = r.in(0, 9); if (x == 0) q = fits::narrow; if (x == 1) q = fits::missing; if (x == 2) q = fits::dim_promote; if (x == 3 && D > 0) q = fits::flatten; if (x == 4 && D > 0) q = fits::permissive; if (x == 5) q = fits::narrow | fits::dim_promote; if (x == 6) q = fits::missing | fits::narrow;
    col_kind(k, D, [&](auto t) {
        using G = decltype(t); typename G::H v; auto d0 = std::vector<uint_t>{1, 2, 1}; fill(r, v, d0, 1, false);
        obj oo; oo.n("narrow", q.allow_narrow).n("missing", q.allow_missing).n("promote", q.allow_dim_promote).n("flatten", q.allow_flatten);
        obj o("rcol"); o.n("n", n).t("k", string(1, k)).n("D", (long)G::D).raw("o", oo.done()).raw("od", edims(v)).raw("ov", evals(v)); int via = r.in(0, 2);
        obj res; int ok = vp::guard([&] { bool g = true; if (via == 0) { auto s = it()->read_column(q, n, v); g = s.is_good(); } else if (via == 1) it()->read_columns(q, n, v); else it()->read_column(q, n, v); res.n("g", g).raw("d", edims(v)).raw("v", evals(v)); });
        o.n("ok", ok); if (ok == 1) o.s += "," + res.s; o.n("st", h->cfitsio_status() != 0).n("cur", cur()); fits_clear_errmsg(); vp::emit(o); if (h->cfitsio_status() != 0) dead = true;
    });
}
void session::rmcol() { if (!ta() || type() != 't') return; auto cs = cols(); string n = !cs.empty() && r.chance(5,6) ? r.pick(cs).name : "NONE"; obj o("rmcol"); o.n("n", n); run(o, [&](obj&) { if (r.chance(1,2)) ta()->remove_column(n); else ta()->remove_columns(n); }); }
void session::info() {
    if (!it() || type() != 't') return; auto cs = cols(); obj o("info"); int via = r.in(0, 1); string n = cs.empty() || r.chance(1,8) ? "NONE" : r.pick(cs).name;
    auto js = [&](const fits::column_info& c) { obj z; z.n("n", c.name).t("ty", c.type == fits::column_info::string ? "a" : c.type == fits::column_info::boolean ? "b" : c.type == fits::column_info::byte ? "c" : c.type == fits::column_info::integer ? "i" : c.type == fits::column_info::float_simple ? "f" : "d").q("d", c.dims).n("len", c.length); return z.done(); };
    if (via) { run(o, [&](obj& z) { auto v = it()->read_columns_info(); std::vector<string> w; for (auto& c : v.data) w.push_back(js(c)); z.raw("all", vp::arr(w)); }); }
    else { obj q("info1"); q.n("n", n); run(q, [&](obj& z) { fits::column_info c; bool g = it()->read_column_info(n, c); z.n("g", g); if (g) z.raw("c", js(c)); }); }
}
template<class T> static void zero_one(T& x) { x = x != 0; }
template<std::size_t D, class T> static void zero_one(vec<D,T>& v) { for (auto& x : v) x = x != 0; }
static bool in1(rng& r) { return r.chance(1,16); }
void session::elems(bool upd) {
    if (!it() || (upd && !ta()) || (rowfmt && rows() == 1)) return; std::vector<colinfo> cs; for (auto& c : cols()) if (c.k != 'a' && c.k != 'o') cs.push_back(c); if (cs.empty()) return; auto c = r.pick(cs);
    std::vector<uint_t> s = c.e; if (rows() != 1) s.insert(s.begin(), rows()); if (s.empty()) s = {1}; if (s.size() > 3) return; for (auto x : s) if (x == 0) return;
    int ni = r.in(1, s.size()); vec1u ix; for (int i = 0; i < ni; ++i) ix.push_back(in1(r) ? s[i] : r.in(0, s[i] - 1)); std::vector<uint_t> rest(s.begin() + ni, s.end()); if (in1(r) && upd && !rest.empty()) rest[0]++;
    char k = r.chance(3,4) ? host(r, c.k) : 'd'; if (k == 'b') k = 'd';
    auto go = [&](auto t) {
        using G = decltype(t); typename G::H v; fill(r, v, rest, 1, false); if (k != c.k) zero_one(v); obj o(upd ? "uelem" : "relem"); o.n("n", c.name).t("k", string(1, k)).q("ix", ix.data).n("D", (long)G::D); if (upd) o.raw("d", edims(v)).raw("v", evals(v));
        run(o, [&](obj& z) {
            #define EL(...) { if (upd) ta()->update_elements(c.name, v, fits::at(__VA_ARGS__)); else it()->read_elements(c.name, v, fits::at(__VA_ARGS__)); }
            switch (ni*4 + (int)rest.size()) { case 4: EL(ix[0]); break; case 8: EL(ix[0], ix[1]); break; case 12: EL(ix[0], ix[1], ix[2]); break; case 5: EL(ix[0], _); break; case 6: EL(ix[0], _, _); break; case 9: EL(ix[0], ix[1], _); break; default: ; }
            if (!upd) z.raw("d", edims(v)).raw("v", evals(v)); });
    };
    if (k != 'd' && k != 'l' && k != 's' && k != 'c' && k != 'f') k = 'd';
    auto bk = [&](auto d) { const std::size_t D = decltype(d)::D; switch (k) { case 'l': go(tag<'l',D>{}); break; case 's': go(tag<'s',D>{}); break; case 'f': go(tag<'f',D>{}); break; case 'c': go(tag<'c',D>{}); break; default: go(tag<'d',D>{}); } };
    switch (rest.size()) { case 0: bk(tag<'d',0>{}); break; case 1: bk(tag<'d',1>{}); break; case 2: bk(tag<'d',2>{}); break; default: bk(tag<'d',3>{}); }
}
void session::alloc() {
    if (!ot()) return; string n = name(); for (auto& c : cols()) if (up(c.name) == up(n)) return; uint_t a = r.in(1, 3), b = r.in(1, 3); auto cs = cols(); if (!cs.empty() && rows() != 1) a = rows(); char k = "dlsb"[r.in(0, 3)]; int D = r.in(1, 2); if (rowfmt || rows() != 1) b = r.in(2, 3);
    obj o("alloc"); o.n("n", n).t("k", string(1, k)).raw("d", D == 1 ? vp::seq(std::vector<uint_t>{a}) : vp::seq(std::vector<uint_t>{a, b}));
    #define AL(T) { if (D == 1) ot()->allocate_column<T>(n, a); else ot()->allocate_column<T>(n, a, b); }
    if (run(o, [&](obj&) { if (k == 'd') AL(double) else if (k == 'l') AL(int_t) else if (k == 's') AL(short) else AL(bool) })) fresh = false;
}
// several columns at once, with the names of the variables
void session::multi(int how) {
    auto cs = cols(); bool wr = ot() && cs.empty() && r.chance(1,2);
    if (wr) {
        uint_t n = r.in(1, 3); struct { vec1d flux; vec2s tag; } cat; vec1u ID; double z = 0; cat.flux = {}; std::vector<uint_t> d1 = {n}, d2 = {n, 2}; fill(r, cat.flux, d1, R, true); fill(r, cat.tag, d2, R, false); fill(r, ID, d1, R, false); z = r.in(0, 9);
        auto col = [&](const string& nm, const string& k, const string& d, const string& v) { obj q; q.n("n", nm).t("k", k).raw("d", d).raw("v", v); return q.done(); }; int form = r.in(0, 1);
        obj o("wcols"); o.raw("cs", vp::arr({col("ID", "u", edims(ID), evals(ID)), col("flux", "d", edims(cat.flux), evals(cat.flux)), col("tag", "a", edims(cat.tag), evals(cat.tag))}));
        run(o, [&](obj&) { if (form) ot()->write_columns(ftable(ID, cat.flux, cat.tag)); else ot()->write_columns("ID", ID, "flux", cat.flux, "tag", cat.tag); });
    } else if (it()) {
        bool all = false; for (auto& c : cs) if (c.name == "FLUX") all = true; if (!all) return;
        vec1d flux; vec1u ID; int form = r.in(0, 1); obj o("rcols");
        run(o, [&](obj& z) { if (form) it()->read_columns(fits::missing, ftable(flux, ID)); else it()->read_columns(fits::missing, "flux", flux, "ID", ID); z.raw("fd", edims(flux)).raw("fv", evals(flux)).raw("gd", edims(ID)).raw("gv", evals(ID)); });
    }
}
void session::table_op() {
    if (text()) { if (it()) rcol(0); return; }   // of tables in text form only the columns are read
    if (type() == 'i' && !r.chance(1,12)) { image_op(); return; }
    switch (r.in(0, 15)) {
    case 0: case 1: case 2: if (ot()) { if (r.chance(1,3)) format(); wcol(0); } break;
    case 3: case 4: if (ta()) wcol(1); break;
    case 5: case 6: case 7: case 8: if (it() && type() == 't') rcol(0); break;
    case 9: rmcol(); break; case 10: info(); break; case 11: case 12: elems(true); break; case 13: elems(false); break; case 14: if (type() != 'i') alloc(); break; default: if (type() != 'i') multi(0); }
}
