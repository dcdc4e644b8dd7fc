#include "fits.hpp"
static string unq(const char* q) { string o; for (++q; *q; ++q) { if (*q == '\'') { if (q[1] != '\'') break; ++q; } o += *q; } while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
void session::dump(const char* op) {
    obj o(op); fitsfile* f = nullptr; int st = 0; std::vector<string> hs;
    if (fits_open_diskfile(&f, path.c_str(), READONLY, &st) == 0) {
        int n = 0; fits_get_num_hdus(f, &n, &st);
        for (int k = 1; k <= n; ++k) {
            obj q; int t = 0; st = 0; fits_movabs_hdu(f, k, &t, &st); std::vector<string> cs, keys, vals; string kd = "-", dims = "[]"; long rows = 1; string tt = "table", nl = "[]";
            if (t == IMAGE_HDU) {
                int na = 0, bp = 0; long ax[9] = {0}; fits_get_img_param(f, 9, &bp, &na, ax, &st); int eq; fits_get_img_equivtype(f, &eq, &st);
                tt = na ? "image" : "empty"; std::vector<long> d; long sz = 1; for (int i = 0; i < na; ++i) { d.push_back(ax[na-1-i]); sz *= ax[i]; }
                if (na) { kd = eq == BYTE_IMG ? "b" : eq == SBYTE_IMG ? "c" : eq == SHORT_IMG ? "s" : eq == LONG_IMG ? "j" : eq == USHORT_IMG ? "w" : eq == LONGLONG_IMG ? "l" : eq == FLOAT_IMG ? "f" : eq == DOUBLE_IMG ? "d" : "?"; dims = vp::seq(d); std::vector<double> v(sz); int an; if (sz) fits_read_img(f, TDOUBLE, 1, sz, nullptr, v.data(), &an, &st); for (auto x : v) vals.push_back(ej(x)); }
            } else {
                int nc = 0; fits_get_num_cols(f, &nc, &st); fits_get_num_rows(f, &rows, &st);
                for (int i = 1; i <= nc; ++i) {
                    colinfo c = session::rawcol(f, i); long sz = rows; for (auto x : c.e) sz *= x; std::vector<string> w;
                    if (c.k == 'a') { int tc; long rep, wd; fits_get_coltype(f, i, &tc, &rep, &wd, &st); std::vector<string> bs(sz, string(rep + 2, '\0')); std::vector<char*> b; for (auto& s : bs) b.push_back(&s[0]); int an; if (sz && rep) fits_read_col(f, TSTRING, i, 1, 1, sz, nullptr, b.data(), &an, &st); for (auto& s : bs) { string x = s.c_str(); while (!x.empty() && x.back() == ' ') x.pop_back(); w.push_back(vp::num(x)); } }
                    else if (c.k == 'o') { std::vector<char> v(sz); int an; if (sz) fits_read_col(f, TLOGICAL, i, 1, 1, sz, nullptr, v.data(), &an, &st); for (auto x : v) w.push_back(x ? "4" : "0"); }
                    else { std::vector<double> v(sz); int an; if (sz) fits_read_col(f, TDOUBLE, i, 1, 1, sz, nullptr, v.data(), &an, &st); for (auto x : v) w.push_back(ej(x)); }
                    obj z; z.n("n", c.name).t("k", string(1, c.k)).q("e", c.e).raw("v", vp::arr(w)).raw("z", c.z); cs.push_back(z.done());
                }
            }
            long bl; int s3 = 0; if (tt == "image" && fits_read_key(f, TLONG, "BLANK", &bl, nullptr, &s3) == 0) nl = "[" + vp::num((double)bl, 4) + "]";
            int nk = 0; st = 0; fits_get_hdrspace(f, &nk, nullptr, &st);
            for (int i = 1; i <= nk; ++i) { char nm[80], val[80], com[80], out[80]; int s2 = 0; fits_read_keyn(f, i, nm, val, com, &s2); string name = nm; if (name[0] != 'K' && name.substr(0, 4) != "LONG") continue; obj z; z.n("n", name);
                if (val[0] == '\'') { z.t("t", "s").n("v", unq(val)); } else z.t("t", "n").raw("v", ej(atof(val))); keys.push_back(z.done()); }
            q.t("t", tt).t("k", kd).raw("d", dims).raw("v", vp::arr(vals)).n("rows", rows).raw("cols", vp::arr(cs)).raw("keys", vp::arr(keys)).raw("z", nl).n("st", st != 0); hs.push_back(q.done());
        }
        st = 0; fits_close_file(f, &st);
    }
    fits_clear_errmsg();
    o.raw("h", vp::arr(hs)); vp::emit(o);
}
template<class C> static base* mk(const string& p, bool late) { return new C(p); }
template<> base* mk<fits::input_image>(const string& p, bool late) { if (!late) return new fits::input_image(p); auto* h = new fits::input_image; h->open(p); return h; }
template<> base* mk<fits::image>(const string& p, bool late) { if (!late) return new fits::image(p); auto* h = new fits::image; h->open(p); return h; }
template<> base* mk<fits::input_table>(const string& p, bool late) { if (!late) return new fits::input_table(p); auto* h = new fits::input_table; h->open(p); return h; }
template<> base* mk<fits::output_table>(const string& p, bool late) { if (!late) return new fits::output_table(p); auto* h = new fits::output_table; h->open(p); return h; }
template<> base* mk<fits::output_image>(const string& p, bool late) { if (!late) return new fits::output_image(p); auto* h = new fits::output_image; h->open(p); return h; }
void session::open(const string& c) {
    rowfmt = false; cls = c; fresh = c == "oi" || c == "ot" || c == "of";
    obj o("open"); o.t("k", c); bool late = r.chance(1,3);
    // reopening with a handle that is open, or whose last open() failed
    run(o, [&](obj&) {
        if (late && r.chance(1,3) && !fresh) { std::unique_ptr<base> q; if (c[1] == 't' || c == "t") q.reset(new fits::input_table); else q.reset(new fits::input_image);
            if (c == "ii" || c == "it") { try { q->open(path + ".none"); } catch (fits::exception&) {} fits_clear_errmsg(); q->open(path); h = std::move(q); return; } }
        h.reset(c == "ii" ? mk<fits::input_image>(path, late) : c == "oi" ? mk<fits::output_image>(path, late) : c == "io" ? mk<fits::image>(path, late) : c == "it" ? mk<fits::input_table>(path, late) : c == "ot" ? mk<fits::output_table>(path, late) : c == "t" ? (base*)new fits::table(path) : c == "if" ? (base*)new fits::input_file(path) : c == "of" ? (base*)new fits::output_file(path) : (base*)new fits::file(path));
    });
}
void session::close() { obj o("close"); bool del = r.chance(1,2); run(o, [&](obj& z) { if (del) h.reset(); else h->close(); z.n("o", h ? h->is_open() : false); }); h.reset(); }
void session::move() {
    obj o("move"); run(o, [&](obj& z) {
        base* n = nullptr; base* p = h.get();
        #define MV(C) if (!n) if (auto* q = dynamic_cast<C*>(p)) n = new C(std::move(*q));
        MV(fits::file) MV(fits::input_file) MV(fits::output_file) MV(fits::image) MV(fits::table) MV(fits::input_image) MV(fits::input_table) MV(fits::output_image) MV(fits::output_table)
        z.n("o", p->is_open()); h.reset(n);
    });
}
void session::query() { obj o("query"); run(o, [&](obj& z) { z.n("n", h->hdu_count()).n("at", h->current_hdu()).t("ty", h->hdu_type() == fits::null_hdu ? "null" : h->hdu_type() == fits::empty_hdu ? "empty" : h->hdu_type() == fits::image_hdu ? "image" : "table");
    if (h->hdu_type() != fits::null_hdu) z.n("ax", h->axis_count()).q("d", h->image_dims()); else z.n("ax", 0).raw("d", "[]"); }); }
void session::reach(uint_t k) { rowfmt = false; obj o("reach"); o.n("k", k); if (run(o, [&](obj& z) { h->reach_hdu(k); })) fresh = false; }
void session::remove_hdu() { rowfmt = false; obj o("rmhdu"); run(o, [&](obj& z) { out()->remove_hdu(); }); }
// images
template<class F> static void img_kind(char k, int D, F&& f) { if (D == 1) by_kind<1>(k, false, f); else if (D == 2) by_kind<2>(k, false, f); else f(tag<'d',3>{}); }
void session::wimg(int how) {
    if (how == 2) { obj o("wempty"); if (run(o, [&](obj& z) { oi()->write_empty(); })) fresh = false; return; }
    int D = r.in(1, 3); char k = D == 3 ? 'd' : rkind(false); std::vector<uint_t> d = shape(D); bool upd = how == 1;
    if (upd) { if (!io()) return; if (type() == 'i' && r.chance(4,5)) { d = idims(); D = d.size(); if (D == 3) k = 'd'; } }
    if (upd && r.chance(1,8)) d[0] += 1;
    img_kind(k, D, [&](auto t) {
        using G = decltype(t); typename G::H v; if (upd && type() == 'i' && k != ikind()) { fill(r, v, d, 1, false); for (auto& x : v) x = x != 0; } else fill(r, v, d, R, true); obj o(upd ? "uimg" : "wimg"); o.t("k", string(1, k)).raw("d", edims(v)).raw("v", evals(v)); bool view = r.chance(1,4) && !v.empty();
        if (run(o, [&](obj& z) { if (view) { auto w = all_view(v); if (upd) io()->update(w); else oi()->write(w); } else if (upd) io()->update(v); else oi()->write(v); })) fresh = false;
    });
}
void session::rimg(int how) {
    std::vector<uint_t> d = type() == 'i' ? idims() : std::vector<uint_t>{2}; int D = r.chance(1,10) ? r.in(1, 3) : std::min<int>(3, d.size()); char k = D == 3 ? 'd' : r.chance(1,2) ? 'd' : rkind(false);
    img_kind(k, D, [&](auto t) { using G = decltype(t); typename G::H v; obj o("rimg"); o.t("k", string(1, k)).n("D", D); run(o, [&](obj& z) { ii()->read(v); z.raw("d", edims(v)).raw("v", evals(v)); }); });
}
void session::pixel() {
    if (type() != 'i') return; std::vector<uint_t> d = idims(); vec1u p; for (auto n : d) p.push_back(r.chance(1,12) ? n + r.in(0, 1) : n ? r.in(0, n - 1) : 0);
    char k = "dlf"[r.in(0, 2)]; obj o("pixel"); o.q("p", p.data).t("k", string(1, k));
    run(o, [&](obj& z) { z.raw("v", k == 'd' ? evals(ii()->read_pixel(p)) : k == 'l' ? evals(ii()->read_pixel<int_t>(p)) : evals(ii()->read_pixel<float>(p))); });
}
// one axis of a subset: the range that is asked for and its limits
struct axis { int form; uint_t a, b; string lim; };
static axis rax(rng& r, uint_t n) { axis x; x.form = r.in(0, 4); uint_t m = n ? n - 1 : 0; x.a = r.in(0, m); x.b = r.in(x.a, m); if (r.chance(1,14)) x.b = n + r.in(0, 1); if (r.chance(1,20)) x.a = n + r.in(0, 2), x.b = x.a + r.in(0, 1);
    long lo = x.form == 0 || x.form == 1 ? 0 : x.a, hi = x.form == 0 || x.form == 2 ? (long)n - 1 : x.form == 4 ? x.a : x.b; x.lim = "[" + std::to_string(lo) + "," + std::to_string(hi) + "]"; return x; }
template<class F> static void with(const axis& x, F&& f) { switch (x.form) { case 0: f(_); break; case 1: f(_-x.b); break; case 2: f(x.a-_); break; case 3: f(x.a-_-x.b); break; default: f((uint_t)x.a); } }
void session::subset(int how) {
    if (type() != 'i') return; std::vector<uint_t> d = idims(); std::vector<axis> ax; std::vector<string> lim; for (auto n : d) { ax.push_back(rax(r, n)); lim.push_back(ax.back().lim); }
    obj o("subset"); o.t("k", "d").raw("r", vp::arr(lim));
    run(o, [&](obj& z) {
        if (d.size() == 1) { vec1d v; with(ax[0], [&](auto a) { ii()->read_subset(v, a); }); z.raw("d", edims(v)).raw("v", evals(v)); }
        else if (d.size() == 2) { vec2d v; with(ax[0], [&](auto a) { with(ax[1], [&](auto b) { ii()->read_subset(v, a, b); }); }); z.raw("d", edims(v)).raw("v", evals(v)); }
        else { vec3d v; with(ax[0], [&](auto a) { with(ax[1], [&](auto b) { with(ax[2], [&](auto c) { ii()->read_subset(v, a, b, c); }); }); }); z.raw("d", edims(v)).raw("v", evals(v)); }
    });
}
void session::image_op() {
    switch (r.in(0, 9)) {
    case 0: case 1: if (oi() && (type() == 'e' || r.chance(1,15))) wimg(r.chance(1,8) ? 2 : 0); break;
    case 2: case 3: if (io() && (type() == 'i' || r.chance(1,10))) wimg(1); break;
    case 4: case 5: if (ii() && type() != 't') rimg(0); break;
    case 6: if (ii()) pixel(); break;
    case 7: case 8: if (ii()) subset(0); break;
    default: if (type() == 'i' || (type() == 't')) key_op(); }
}
// keywords
void session::key_op() {
    if (fresh) return;
    string n = r.chance(1,8) ? "LONGKEYWORD" : string("K") + std::to_string(r.in(1, keyn)); bool dup = std::find(dupkeys.begin(), dupkeys.end(), n + std::to_string(cur())) != dupkeys.end();
    string m = r.chance(1,6) ? (n[0] == 'K' ? "k" + n.substr(1) : "longkeyword") : n;
    string s = rval<string>(r, 0, false); while (!s.empty() && s.back() == ' ') s.pop_back(); long l = r.in(-30000, 30000); double d = r.in(-4000, 4000)/4.0; bool b = r.chance(1,2);
    int op = r.in(0, 9); int t = r.in(0, 3);
    if (dup) return;
    if (op < 4 && out()) {
        bool add = r.chance(1,5); obj o(add ? "addkey" : "setkey"); o.n("n", m).t("t", t == 0 ? "s" : t == 2 ? "d" : "n"); if (t == 0) o.n("v", s); else o.raw("v", t == 2 ? ej(d) : t == 1 ? ej(l) : ej(b));
        if (add) dupkeys.push_back(n + std::to_string(cur()));
        bool com = r.chance(1,4);
        run(o, [&](obj& z) { string c = com ? "comment" : ""; if (add) { if (t == 0) out()->add_keyword(m, s, c); else if (t == 1) out()->add_keyword(m, (int_t)l, c); else if (t == 2) out()->add_keyword(m, d, c); else out()->add_keyword(m, b, c); }
            else { if (t == 0) { if (r.chance(1,2)) out()->write_keyword(m, s.c_str(), c); else out()->write_keyword(m, s, c); } else if (t == 1) { if (r.chance(1,2)) out()->write_keyword(m, (int_t)l, c); else out()->write_keyword(m, (short)l, c); } else if (t == 2) out()->write_keyword(m, d, c); else out()->write_keyword(m, b, c); } });
    } else if (op == 4 && out()) { obj o("delkey"); o.n("n", m); run(o, [&](obj& z) { out()->remove_keyword(m); }); }
    else if (op == 5) { obj o("haskey"); o.n("n", m); run(o, [&](obj& z) { z.n("g", h->has_keyword(m)); }); }
    else {
        obj o("getkey"); o.n("n", m).t("t", t == 0 ? "s" : t == 1 ? "n" : "d"); bool g = false; string x = "old"; int_t y = 7; double w = 7;
        run(o, [&](obj& z) { if (t == 0) { g = h->read_keyword(m, x); z.n("g", g).n("v", x); } else if (t == 1) { g = h->read_keyword(m, y); z.n("g", g).raw("v", ej(y)); } else { g = h->read_keyword(m, w); z.n("g", g).raw("v", ej(w)); } });
    }
}
// copying a header: cards of the structure of the file are left alone
void session::header() {
    if (fresh || !out()) return; string hd; std::vector<string> ks; int n = r.in(0, 4);
    for (int i = 0; i < n; ++i) { string k = "KH" + std::to_string(i) + std::to_string(r.in(0, 9)); if (std::find(dupkeys.begin(), dupkeys.end(), k + std::to_string(cur())) != dupkeys.end()) continue; dupkeys.push_back(k + std::to_string(cur())); long v = r.in(-999, 999); string c = k + string(8 - k.size(), ' ') + "= "; string vs = std::to_string(v); c += string(20 - vs.size(), ' ') + vs; if (r.chance(1,3)) c += " / about"; c += string(80 - c.size(), ' '); hd += c; obj z; z.n("n", k).raw("v", ej(v)); ks.push_back(z.done());
        if (r.chance(1,3)) { string q = r.pick(std::vector<string>{"SIMPLE  =                    T", "BITPIX  =                   16", "NAXIS   =                    4", "NAXIS1  =                   99", "XTENSION= 'IMAGE   '", "PCOUNT  =                    7", "GCOUNT  =                    7", "EXTEND  =                    F"}); hd += q + string(80 - q.size(), ' '); } }
    if (r.chance(1,2)) hd += "END" + string(77, ' ');
    obj o("wheader"); o.raw("ks", vp::arr(ks)); run(o, [&](obj& z) { out()->write_header(hd); });
}
// a file written by another program
void session::adopt(bool tables) {
    fitsfile* f = nullptr; int st = 0; fits_create_diskfile(&f, path.c_str(), &st); ascii = false;
    auto val = [&](char k) -> long { return k == 'o' ? r.in(0, 1) : k == 'b' ? r.in(0, R > 1 ? 200 : 1) : k == 'w' ? r.in(0, R > 100 ? 65535 : R) : k == 's' ? r.in(-R, R) : k == 'j' || k == 'l' ? r.in(-R, R)*(R > 100 ? 900 : 1) : k == 'c' ? r.in(-R, R) % 128 : r.in(-R, R); };
    int nh = r.in(1, 3);
    for (int n = 0; n < nh; ++n) {
        if (tables && (n > 0 || r.chance(1,2))) {
            ascii = r.chance(1,4); int nc = r.in(1, 4); long rows = r.chance(1,4) ? 1 : r.in(0, 3); std::vector<string> nm, fm, ks; std::vector<long> rep; std::vector<std::vector<long>> td; std::vector<const char*> a, b;
            for (int i = 0; i < nc; ++i) {
                char k = ascii ? "jsfda"[r.in(0, 4)] : "jwobcslfda"[r.in(0, 9)]; long p = ascii || r.chance(1,2) ? 1 : r.in(2, 4); std::vector<long> t; if (!ascii && k != 'a' && r.chance(1,3)) { t = {r.in(1, 3), r.in(1, 2)}; if (r.chance(1,3)) t.push_back(r.in(1, 2)); p = 1; for (auto x : t) p *= x; if (p == 1) t.clear(); }
                if (k == 'a') p = r.in(1, 8); string w = ascii ? (k == 'j' ? "I9" : k == 's' ? "I4" : k == 'f' ? "F12.2" : k == 'd' ? "F18.8" : "A" + std::to_string(p)) : std::to_string(p) + string(1, k == 'j' ? 'J' : k == 'w' ? 'U' : k == 'o' ? 'L' : k == 'b' ? 'B' : k == 'c' ? 'S' : k == 's' ? 'I' : k == 'l' ? 'K' : k == 'f' ? 'E' : k == 'd' ? 'D' : 'A');
                nm.push_back(string(1, "ABCDefgh"[i + 4*r.in(0, 1)]) + std::to_string(i)); fm.push_back(w); ks.push_back(string(1, k)); rep.push_back(p); td.push_back(t);
            }
            for (int i = 0; i < nc; ++i) { a.push_back(nm[i].c_str()); b.push_back(fm[i].c_str()); }
            fits_create_tbl(f, ascii ? ASCII_TBL : BINARY_TBL, 0, nc, (char**)a.data(), (char**)b.data(), nullptr, "other", &st);
            for (int i = 0; i < nc; ++i) {
                char k = ks[i][0]; long m = rows*(k == 'a' ? 1 : rep[i]); if (!td[i].empty()) fits_write_tdim(f, i + 1, td[i].size(), td[i].data(), &st);
                if (k == 'a') { std::vector<string> v; std::vector<char*> q; for (long j = 0; j < m; ++j) { string x = rval<string>(r, 0, false).substr(0, rep[i]); v.push_back(x.empty() ? "e" : x); } for (auto& x : v) q.push_back(&x[0]); if (m) fits_write_col(f, TSTRING, i + 1, 1, 1, m, q.data(), &st); }
                else if (k == 'o') { std::vector<char> v; for (long j = 0; j < m; ++j) v.push_back(val(k)); if (m) fits_write_col(f, TLOGICAL, i + 1, 1, 1, m, v.data(), &st); }
                else if (k == 'f' || k == 'd') { std::vector<double> v; for (long j = 0; j < m; ++j) v.push_back(k == 'd' && !ascii ? rfp(r, R, true) : r.in(-R, R)); if (m) fits_write_col(f, TDOUBLE, i + 1, 1, 1, m, v.data(), &st); }
                else { std::vector<long> v; for (long j = 0; j < m; ++j) v.push_back(ascii && k == 's' ? r.in(-99, 99) : val(k)); if (m) fits_write_col(f, TLONG, i + 1, 1, 1, m, v.data(), &st); if (!ascii && k != 'c' && k != 'w' && m && r.chance(1,3)) { char key[20]; snprintf(key, 20, "TNULL%d", i + 1); long z = v[r.in(0, m - 1)]; fits_update_key(f, TLONG, key, &z, nullptr, &st); } }
            }
            if (rows && nc == 0) fits_insert_rows(f, 0, rows, &st);
        } else {
            char k = "jwbcslfd"[r.in(0, 7)]; int na = n == 0 && tables ? 0 : r.in(1, 3); long ax[3]; long m = 1; for (int i = 0; i < na; ++i) m *= (ax[i] = r.in(1, 3));
            fits_create_img(f, k == 'j' ? LONG_IMG : k == 'w' ? USHORT_IMG : k == 'b' ? BYTE_IMG : k == 'c' ? SBYTE_IMG : k == 's' ? SHORT_IMG : k == 'l' ? LONGLONG_IMG : k == 'f' ? FLOAT_IMG : DOUBLE_IMG, na, ax, &st);
            if (na && (k == 'f' || k == 'd')) { std::vector<double> v; for (long j = 0; j < m; ++j) v.push_back(rfp(r, R, true)); fits_write_img(f, TDOUBLE, 1, m, v.data(), &st); }
            else if (na) { std::vector<long> v; for (long j = 0; j < m; ++j) v.push_back(val(k)); fits_write_img(f, TLONG, 1, m, v.data(), &st); if (k != 'c' && k != 'w' && r.chance(1,3)) { long z = v[r.in(0, m - 1)]; fits_update_key(f, TLONG, "BLANK", &z, nullptr, &st); } }
        }
    }
    fits_close_file(f, &st); if (st) { fprintf(stderr, "adopt: status %d\n", st); fits_clear_errmsg(); } dump("adopt");
}
static long nfile = 0;   // a new name each time: a handle lost when the program would have stopped keeps its file open
static void play(rng& r, bool tables) {
    session s{r, vp::opt.scratch + "/f" + std::to_string(vp::opt.shard) + "_" + std::to_string(nfile++) + ".fits"}; s.R = r.pick(std::vector<long>{1, 1, 100, 30000}); remove(s.path.c_str());
    obj o("begin"); vp::emit(o);
    bool other = r.chance(1,4); if (other) s.adopt(tables);
    if (other) s.open(tables ? r.pick(std::vector<string>{"it", "t", "f", "if"}) : r.pick(std::vector<string>{"ii", "io", "f", "if"}));
    else s.open(tables ? (r.chance(1,5) ? "of" : "ot") : (r.chance(1,3) ? "of" : "oi"));
    int n = tables ? r.in(4, 18) : r.in(6, 24);
    for (int i = 0; i < n && !s.dead; ++i) {
        if (s.fresh) { int k = r.in(0, 3); if (k == 0) s.reach(r.in(0, 2)); else if (k == 1) s.query(); else if (!tables || (s.oi() && r.chance(1,3))) s.wimg(0); else { if (s.ot() && r.chance(1,2)) s.format(); s.wcol(0); } continue; }
        int k = r.in(0, 19);
        if (k == 0) s.query();
        else if (k == 1) { s.reach(r.in(0, s.writes() ? 3 : s.nhdu() - 1 + r.chance(1,6))); }
        else if (k == 2 && s.out() && r.chance(1,2)) s.remove_hdu();
        else if (k == 3) s.move();
        else if (k == 4 || k == 5) { s.close(); if (s.dead) break; if (r.chance(1,3)) s.dump(); s.open(tables ? r.pick(std::vector<string>{"it", "t", "t", "f", "if"}) : r.pick(std::vector<string>{"ii", "io", "io", "f", "if"})); }
        else if (k == 6 && s.type() != 'e') s.key_op();
        else if (k == 7 && s.type() != 'e' && r.chance(1,3)) s.header();
        else if (tables) s.table_op(); else s.image_op();
    }
    if (s.h && !s.dead && !s.fresh) { s.close(); if (!s.dead) s.dump(); }
    // after an error the handle is dropped
    vp::guard([&] { s.h.reset(); }); remove(s.path.c_str());
}
// many keywords in one or two HDUs
static void play_keys(rng& r, long) {
    session s{r, vp::opt.scratch + "/k" + std::to_string(vp::opt.shard) + "_" + std::to_string(nfile++) + ".fits"}; s.R = 100; s.keyn = 2; remove(s.path.c_str());
    obj o("begin"); vp::emit(o); s.open("oi"); s.wimg(0); int n = r.in(6, 24);
    for (int i = 0; i < n && !s.dead; ++i) {
        if (r.chance(1,10)) { s.close(); if (!s.dead) s.open(r.pick(std::vector<string>{"ii", "io", "f", "if"})); }
        else if (r.chance(1,10)) s.reach(0); else if (s.type() == 'i') s.key_op();
    }
    if (s.h && !s.dead) { s.close(); if (!s.dead) s.dump(); }
    vp::guard([&] { s.h.reset(); }); remove(s.path.c_str());
}
// one-shot functions
static void free_fn(rng& r, long) {
    session s{r, vp::opt.scratch + "/g" + std::to_string(vp::opt.shard) + "_" + std::to_string(nfile++) + ".fits"}; s.R = 100; remove(s.path.c_str()); string p = s.path;
    obj b("begin"); vp::emit(b); int D = r.in(1, 2); char k = s.rkind(false); auto d = s.shape(D); d[0] = std::max<uint_t>(1, d[0]); d.back() = std::max<uint_t>(1, d.back());
    img_kind(k, D, [&](auto t) { using G = decltype(t); typename G::H v, w; fill(r, v, d, s.R, false);
        bool own = r.chance(1,2); int kv = r.in(-99, 99); string hd; if (own) { hd = "K1      = "; string x = std::to_string(kv); hd += string(20 - x.size(), ' ') + x; hd.resize(80, ' '); if (r.chance(1,2)) hd += "END" + string(77, ' '); }
        { obj o("fwrite"); o.t("k", string(1, k)).raw("d", edims(v)).raw("v", evals(v)).raw("ks", own ? "[{\"n\":" + vp::num(string("K1")) + ",\"v\":" + ej(double(kv)) + "}]" : "[]"); s.run(o, [&](obj&) { if (!own && r.chance(1,2)) fits::write(p, v); else fits::write(p, v, hd); }); }
        // what a header says: the number of axes and the keyword
        auto says = [&](obj& z, const fits::header& hh) { int na = -1; int key = 0; bool g = fits::getkey(hh, "NAXIS", na); bool has = fits::getkey(hh, "K1", key); z.n("na", g ? na : -1).raw("key", has ? "[" + ej(double(key)) + "]" : "[]"); };
        { string sf = p + ".sectfits"; { std::ofstream o(sf); o << "# sections\n"; for (int i = 0; i < 2; ++i) { string x = p; o << file::get_basename(x) << "\n"; } }
          for (int i = 0; i < 2; ++i) { int how = r.in(0, 5); int hdu = how >= 1 && how != 2 && how != 4 && r.chance(1,4), sect = r.in(0, 2); if (how < 4) sect = 0; obj o("fhead"); o.n("hdu", hdu).n("sect", sect); s.run(o, [&](obj& z) { says(z, how == 0 ? fits::read_header(p) : how == 1 ? fits::read_header_hdu(p, hdu) : how == 2 ? fits::read_header_sectfits(p, 1) : how == 3 ? fits::read_header_sectfits_hdu(p, 1, hdu) : how == 4 ? fits::read_header_sectfits(sf, sect) : fits::read_header_sectfits_hdu(sf, sect, hdu)); }); }
          remove(sf.c_str()); }
        { obj o("fread"); o.t("k", string(1, k)).n("D", D).n("hdu", 0); int how = r.in(0, 4); o.n("hd", how >= 3); s.run(o, [&](obj& z) { string hh; if (how == 0) fits::read_hdu(p, w, 0); else if (how == 1) fits::read(p, w); else if (how == 2) w = fits::read<G::D, typename G::T>(p); else if (how == 3) fits::read(p, w, hh); else fits::read_hdu(p, w, 0, hh); if (how >= 3) says(z, hh); z.raw("d", edims(w)).raw("v", evals(w)); }); }
        { obj o("fdims"); s.run(o, [&](obj& z) { z.n("ax", fits::file_axes(p)).q("d", fits::file_dimensions(p)); }); }
        if (r.chance(1,2)) { fill(r, v, d, s.R, false); obj o("fupdate"); o.t("k", string(1, k)).raw("d", edims(v)).raw("v", evals(v)).n("hdu", 0); s.run(o, [&](obj&) { fits::update_hdu(p, v, 0); }); }
        { obj o("fread"); o.t("k", string(1, k)).n("D", D).n("hdu", r.chance(1,4) ? 1 : 0).n("hd", 0); bool one = o.s.find("\"hdu\":1") != string::npos; s.run(o, [&](obj& z) { fits::read_hdu(p, w, one); z.raw("d", edims(w)).raw("v", evals(w)); }); }
    });
    s.dump(); remove(p.c_str());
}
// one-shot functions on tables
#ifdef VP_TABLES
static void free_tables(rng& r, long) {
    session s{r, vp::opt.scratch + "/h" + std::to_string(vp::opt.shard) + "_" + std::to_string(nfile++) + ".fits"}; s.R = 100; remove(s.path.c_str()); string p = s.path;
    obj b("begin"); vp::emit(b); vec1d A; vec2s B; string nx = r.pick(std::vector<string>{"B", "b", "C"}); bool mac = nx == "b"; auto fl = [&] { std::vector<uint_t> d1 = {(uint_t)r.in(1, 3)}, d2 = {(uint_t)r.in(1, 3), (uint_t)r.in(1, 2)}; fill(r, A, d1, 100, true); fill(r, B, d2, 100, false); };
    auto col = [&](const string& n, const string& k, const string& d, const string& v) { obj q; q.n("n", n).t("k", k).raw("d", d).raw("v", v); return q.done(); };
    auto cols = [&] { return vp::arr({col("A", "d", edims(A), evals(A)), col(mac ? "B" : nx, "a", edims(B), evals(B))}); };
    fl(); { obj o("twrite"); o.raw("cs", cols()); s.run(o, [&](obj&) { if (mac) fits::write_table(p, ftable(A, B)); else fits::write_table(p, "A", A, nx, B); }); }
    for (int i = r.in(1, 4); i > 0 && !s.dead; --i) switch (r.in(0, 3)) {
    case 0: { fl(); string old = nx; if (!mac && r.chance(1,3)) nx = r.pick(std::vector<string>{"B", "C", "D"}); obj o("tupd"); o.raw("cs", cols()); s.run(o, [&](obj&) { if (mac) fits::update_table(p, ftable(A, B)); else fits::update_table(p, "A", A, nx, B); }); break; }
    case 1: { obj o("tcols"); bool two = r.chance(1,2); s.run(o, [&](obj& z) { std::vector<string> w; auto v = two ? fits::read_table_columns(p, 1) : fits::read_table_columns(p); for (auto& c : v.data) { obj q; q.n("n", c.name).t("ty", c.type == fits::column_info::integer ? "i" : c.type == fits::column_info::float_double ? "d" : c.type == fits::column_info::string ? "a" : "?").q("d", c.dims).n("len", c.length); w.push_back(q.done()); } z.raw("all", vp::arr(w)); }); break; }
    default: { bool loose = r.chance(1,2); vec1d X = {7}; vec2s Y; string n2 = r.chance(1,3) ? "NONE" : nx; bool m = mac && n2 != "NONE"; obj o("tread"); o.n("loose", loose).raw("old", vp::arr({col("A", "d", edims(X), evals(X)), col(mac && n2 == nx ? "B" : n2, "a", edims(Y), evals(Y))}));
        s.run(o, [&](obj& z) { if (m) { vec1d A; vec2s B; A = X; if (loose) fits::read_table_loose(p, ftable(A, B)); else fits::read_table(p, ftable(A, B)); X = A; Y = B; } else if (loose) fits::read_table_loose(p, "A", X, n2, Y); else fits::read_table(p, "A", X, n2, Y); z.raw("new", vp::arr({col("A", "d", edims(X), evals(X)), col("", "a", edims(Y), evals(Y))})); }); } }
    s.dump(); remove(p.c_str());
}
#endif
void vp::setup() {
#ifdef VP_TABLES
    add("tables", 1500, 12000, [](rng& r, long) { play(r, true); }); add("functions", 300, 2000, free_tables);
#else
    add("images", 1500, 12000, [](rng& r, long) { play(r, false); }); add("functions", 300, 2000, free_fn); add("keywords", 500, 4000, play_keys);
#endif
}
