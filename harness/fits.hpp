// sessions on FITS files through the real classes; raw CFITSIO gives the independent dump
#include "str.hpp"
#include "vif/io/fits.hpp"
#include <memory>
using base = impl::fits_impl::file_base; using obase = impl::fits_impl::output_file_base;
template<char K> struct kind; 
template<> struct kind<'b'> { using t = bool; }; template<> struct kind<'c'> { using t = char; }; template<> struct kind<'s'> { using t = short; };
template<> struct kind<'l'> { using t = int_t; }; template<> struct kind<'u'> { using t = uint_t; }; template<> struct kind<'f'> { using t = float; };
template<> struct kind<'d'> { using t = double; }; template<> struct kind<'a'> { using t = string; };
template<class T, std::size_t D> struct holder { using t = vec<D,T>; }; template<class T> struct holder<T,0> { using t = T; };
template<char K, std::size_t D_> struct tag { using T = typename kind<K>::t; static const std::size_t D = D_; using H = typename holder<T,D_>::t; };
template<std::size_t D, class F> void by_kind(char k, bool str, F&& f) {
    switch (k) { case 'b': f(tag<'b',D>{}); break; case 'c': f(tag<'c',D>{}); break; case 's': f(tag<'s',D>{}); break; case 'l': f(tag<'l',D>{}); break; case 'u': f(tag<'u',D>{}); break; case 'f': f(tag<'f',D>{}); break; default: f(tag<'d',D>{}); }
}
// values
template<class T> T rval(rng& r, long R, bool sp) { return (T)r.in(-R, R); }
template<> inline bool rval<bool>(rng& r, long, bool) { return r.chance(1,2); }
template<> inline char rval<char>(rng& r, long R, bool) { R = std::min(R, 127l); return (char)r.in(-R, R); }
template<> inline uint_t rval<uint_t>(rng& r, long R, bool) { return r.in(0, R); }
inline double rfp(rng& r, long R, bool sp) { if (sp && r.chance(1,12)) return r.chance(1,2) ? std::numeric_limits<double>::quiet_NaN() : r.chance(1,2) ? dinf : -dinf; return R > 1 && r.chance(1,3) ? r.in(-4*R, 4*R)/4.0 : r.in(-R, R); }
template<> inline float rval<float>(rng& r, long R, bool sp) { return rfp(r, R, sp); }
template<> inline double rval<double>(rng& r, long R, bool sp) { return rfp(r, R, sp); }
template<> inline string rval<string>(rng& r, long, bool) { string s = rs(r, "abZ' /1", 0, r.chance(1,4) ? 12 : 4); if (!s.empty() && s[0] == ' ') s[0] = 'x'; return s; }
template<class T> string ej(const T& x) { return vp::num((double)x, 4); }
inline string ej(const string& x) { return vp::num(x); }
inline string ej(bool x) { return x ? "4" : "0"; }
template<class T> string edims(const T&) { return "[]"; }
template<std::size_t D, class T> string edims(const vec<D,T>& v) { return vp::seq(v.dims); }
template<class T> string evals(const T& x) { return "[" + ej(x) + "]"; }
template<std::size_t D, class T> string evals(const vec<D,T>& v) { std::vector<string> w; for (uint_t i = 0; i < v.size(); ++i) w.push_back(ej((typename vec<D,T>::rtype)v.safe[i])); return vp::arr(w); }
template<class T> void fill(rng& r, T& x, const std::vector<uint_t>&, long R, bool sp) { x = rval<T>(r, R, sp); }
template<std::size_t D, class T> void fill(rng& r, vec<D,T>& v, const std::vector<uint_t>& d, long R, bool sp) { for (std::size_t i = 0; i < D; ++i) v.dims[i] = d[i]; v.resize(); for (uint_t i = 0; i < v.size(); ++i) v.safe[i] = rval<T>(r, R, sp); }
struct colinfo { string name; char k; std::vector<uint_t> e; string z = "[]"; };
// a type of the library that can hold a kind only found in the files of other programs: j 32 bit integers, w unsigned 16 bit integers, o logical values
inline char host(rng& r, char k) { return k == 'j' ? "ludf"[r.in(0, 3)] : k == 'w' ? "lsudf"[r.in(0, 4)] : k == 'o' ? 'b' : k; }
struct session {
    rng& r; string path; std::unique_ptr<base> h; string cls; bool dead = false; long R; int keyn = 4; bool fresh = false, rowfmt = false, ascii = false;
    std::vector<string> dupkeys;
    fits::input_image* ii() { return dynamic_cast<fits::input_image*>(h.get()); }
    fits::output_image* oi() { return dynamic_cast<fits::output_image*>(h.get()); }
    fits::image* io() { return dynamic_cast<fits::image*>(h.get()); }
    fits::input_table* it() { return dynamic_cast<fits::input_table*>(h.get()); }
    fits::output_table* ot() { return dynamic_cast<fits::output_table*>(h.get()); }
    fits::table* ta() { return dynamic_cast<fits::table*>(h.get()); }
    obase* out() { if (auto* p = oi()) return p; return ot(); }
    bool writes() { return cls == "oi" || cls == "io" || cls == "ot" || cls == "t" || cls == "of" || cls == "f"; }
    // run one operation; `st`: the CFITSIO status of the handle afterwards
    template<class F> bool run(obj& o, F f) {
        obj res; int ok = vp::guard([&] { f(res); }); o.n("ok", ok); if (!res.s.empty() && ok == 1) o.s += "," + res.s;
        o.n("st", h ? (h->cfitsio_status() != 0) : 0); o.n("cur", h && h->is_open() ? (long)cur() : -1);
        fits_clear_errmsg();
        vp::emit(o); if (ok != 1 || (h && h->cfitsio_status() != 0)) dead = true; return ok == 1;
    }
    uint_t cur() { int n = 1; fits_get_hdu_num(h->cfitsio_ptr(), &n); return n - 1; }
    int nhdu() { int n = 0, st = 0; if (fresh) return 0; fits_get_num_hdus(h->cfitsio_ptr(), &n, &st); return n; }
    // 'e'mpty, 'i'mage, 't'able (raw CFITSIO)
    char type() { if (fresh) return 'e'; int st = 0, t = 0, na = 0; fits_get_hdu_type(h->cfitsio_ptr(), &t, &st); if (t != IMAGE_HDU) return 't'; fits_get_img_dim(h->cfitsio_ptr(), &na, &st); return na ? 'i' : 'e'; }
    bool text() { int st = 0, t = 0; if (fresh) return false; fits_get_hdu_type(h->cfitsio_ptr(), &t, &st); return t == ASCII_TBL; }
    std::vector<uint_t> idims() { int st = 0, na = 0; long ax[9]; fits_get_img_dim(h->cfitsio_ptr(), &na, &st); fits_get_img_size(h->cfitsio_ptr(), 9, ax, &st); std::vector<uint_t> d; for (int i = 0; i < na; ++i) d.push_back(ax[na-1-i]); return d; }
    char ikind() { int st = 0, eq = 0; fits_get_img_equivtype(h->cfitsio_ptr(), &eq, &st); return eq == BYTE_IMG ? 'b' : eq == SBYTE_IMG ? 'c' : eq == SHORT_IMG ? 's' : eq == LONG_IMG ? 'j' : eq == USHORT_IMG ? 'w' : eq == LONGLONG_IMG ? 'l' : eq == FLOAT_IMG ? 'f' : 'd'; }
    std::vector<colinfo> cols() { std::vector<colinfo> c; if (type() != 't') return c; int n = 0, st = 0; fits_get_num_cols(h->cfitsio_ptr(), &n, &st); for (int i = 1; i <= n; ++i) { colinfo q = rawcol(h->cfitsio_ptr(), i); c.push_back(q); } return c; }
    long rows() { long n = 0; int st = 0; if (type() == 't') fits_get_num_rows(h->cfitsio_ptr(), &n, &st); return n; }
    static colinfo rawcol(fitsfile* f, int i) {
        colinfo q; int st = 0; char nm[80] = {0}; char key[20]; snprintf(key, 20, "TTYPE%d", i); fits_read_key(f, TSTRING, key, nm, nullptr, &st); q.name = nm;
        int t; long rep, w; st = 0; fits_get_eqcoltype(f, i, &t, &rep, &w, &st); q.k = t == TSTRING ? 'a' : t == TBYTE ? 'b' : t == TSBYTE ? 'c' : t == TSHORT ? 's' : t == TLONG ? 'j' : t == TUSHORT ? 'w' : t == TLOGICAL ? 'o' : t == TLONGLONG ? 'l' : t == TFLOAT ? 'f' : t == TDOUBLE ? 'd' : '?';
        int na; long ax[16]; st = 0; fits_read_tdim(f, i, 16, &na, ax, &st);
        char td[80]; snprintf(key, 20, "TDIM%d", i); st = 0; bool has = fits_read_key(f, TSTRING, key, td, nullptr, &st) == 0; fits_clear_errmsg();
        if (!has) na = q.k == 'a' ? 1 : (ax[0] == 1 ? 0 : 1);
        for (int j = na - 1; j >= (q.k == 'a' ? 1 : 0); --j) q.e.push_back(ax[j]);
        long nl; snprintf(key, 20, "TNULL%d", i); st = 0; if (fits_read_key(f, TLONG, key, &nl, nullptr, &st) == 0) q.z = "[" + vp::num((double)nl, 4) + "]"; fits_clear_errmsg();
        return q;
    }
    // the file as raw CFITSIO sees it
    void dump(const char* op = "dump"); void adopt(bool tables);
    void open(const string& c); void close(); void move();
    void query(); void reach(uint_t k); void remove_hdu();
    void image_op(); void table_op(); void key_op();
    void wcol(int how); void rcol(int how); void elems(bool upd); void alloc(); void info(); void format(); void rmcol(); void multi(int how);
    void wimg(int how); void rimg(int how); void pixel(); void subset(int how); void header();
    string name() { return string(1, "ABCD"[r.in(0, 3)]) + (r.chance(1,6) ? "_x" : ""); }
    static string up(string s) { for (auto& c : s) c = toupper(c); return s; }
    std::vector<uint_t> shape(std::size_t D) { std::vector<uint_t> d; for (std::size_t i = 0; i < D; ++i) d.push_back(r.chance(1,14) ? 0 : r.in(1, 3)); return d; }
    char rkind(bool str) { return (str ? "bcslufdad" : "bcslufd")[r.in(0, str ? 8 : 6)]; }
};
