// matrices, linear systems, least squares, Fourier transforms
#include "find.hpp"
#include "vif/reflex/reflex.hpp"
#include "vif/utility/time.hpp"
#include "vif/math/reduce.hpp"
#include "vif/math/complex.hpp"
#include "vif/math/matrix.hpp"
#include "vif/math/linfit.hpp"
#include "vif/math/mpfit.hpp"
#ifndef NO_LAPACK
#include "vif/math/fourier.hpp"
#include "vif/math/optimize.hpp"
#endif
using namespace vif::matrix; using std::string;
static string fxp(double x, double s) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); double v = std::round(x*s); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::to_string((long)v); }
template<class V> static string fxv(const V& v, double s) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += fxp(v.safe[i], s); } return r + "]"; }
static string whole(double x, double s = 1) { if (std::isnan(x) || std::isinf(x)) return vp::num(x); x *= s; double v = std::round(x); return std::fabs(v) > 1.9e9 ? std::to_string(vp::V_BIG) : std::fabs(x - v) > 1e-6 ? std::to_string(vp::V_FRAC) : std::to_string((long)v); }
template<class M> static string rows(const M& m, double s) { string r = "["; for (uint_t i = 0; i < m.dims[0]; ++i) { if (i) r += ","; r += "["; for (uint_t j = 0; j < m.dims[1]; ++j) { if (j) r += ","; r += fxp(m(i,j), s); } r += "]"; } return r + "]"; }
template<class M> static string ir(const M& m, double s = 1) { string r = "["; for (uint_t i = 0; i < m.dims[0]; ++i) { if (i) r += ","; r += "["; for (uint_t j = 0; j < m.dims[1]; ++j) { if (j) r += ","; r += whole(m(i,j), s); } r += "]"; } return r + "]"; }
template<class V> static string iv(const V& v) { string r = "["; for (uint_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += whole(v.safe[i]); } return r + "]"; }
static std::array<std::size_t,2> dd(std::size_t a, std::size_t b) { return {{a, b}}; }
static mat2d rm(rng& r, std::size_t n, std::size_t m, int k) { return mat2d(rv<2,double>(r, dd(n, m), k)); }
static vec1d r1(rng& r, std::size_t n, int k) { return rv<1,double>(r, {{n}}, k); }

template<class A, class B> static void prod(rng& r, const A& a, const B& b) { obj o("mul"); o.raw("a", ir(a)).raw("b", ir(b)); rec(o, [&](obj& q) { q.raw("r", ir(a*b)); }); }
static void algebra(rng& r) {
    std::size_t n = r.in(1, 4), m = r.in(1, 4), k = r.in(1, 4); if (r.chance(1,3)) m = n;
    mat2d a = rm(r, n, m, 9), b = rm(r, r.chance(1,8) ? r.in(1, 4) : m, k, 9); const mat2d& ca = a; vec2d va = a.base; const vec2d& cva = va; vec2d vb = b.base;
    switch (r.in(0, 3)) { case 0: prod(r, a, b); break; case 1: prod(r, as_matrix(va), b); break; case 2: prod(r, as_matrix(cva), as_matrix(vb)); break; default: { mat<int> ai(n, m); for (uint_t i = 0; i < a.size(); ++i) ai.base.safe[i] = a.base.safe[i]; prod(r, ai, b); } }
    if (b.dims[0] == m && b.dims[1] == m) { obj o("mul"); o.raw("a", ir(a)).raw("b", ir(b)); rec(o, [&](obj& q) { mat2d c = a; c *= b; q.raw("r", ir(c)); }); }
    if (n == m) { obj o("mul"); o.raw("a", ir(a)).raw("b", ir(a)); rec(o, [&](obj& q) { mat2d c = a; c *= c; q.raw("r", ir(c)); }); }
    vec1d v = r1(r, r.chance(1,8) ? r.in(1, 4) : m, 9), w = r1(r, r.chance(1,8) ? r.in(1, 4) : n, 9);
    { obj o("mulv"); o.raw("a", ir(a)).raw("v", iv(v)); rec(o, [&](obj& q) { q.raw("r", iv(r.chance(1,2) ? a*v : as_matrix(va)*v)); }); }
    { obj o("vmul"); o.raw("a", ir(a)).raw("v", iv(w)); rec(o, [&](obj& q) { q.raw("r", iv(r.chance(1,2) ? w*a : w*as_matrix(cva))); }); }
    { obj o("trans"); o.raw("a", ir(a)); rec(o, [&](obj& q) { q.raw("r", ir(transpose(ca))); }); }
    { mat2d c = r.chance(1,8) ? rm(r, r.in(1, 4), m, 9) : rm(r, n, m, 9); bool s = r.chance(1,2); obj o("add"); o.raw("a", ir(a)).raw("b", ir(c)).n("s", s ? -1 : 1); bool e = r.chance(1,2);
      rec(o, [&](obj& q) { if (e) { mat2d x = a; if (s) x -= c; else x += c; q.raw("r", ir(x)); } else q.raw("r", s ? ir(a - c) : ir(a + c)); }); }
    { long kk = r.in(-3, 3), c = r.in(-3, 3); int qq = r.pick<int>({1, 2, 4}); obj o("lin"); o.raw("a", ir(a)).n("k", kk).n("c", c).n("q", qq); int way = r.in(0, 3);
      rec(o, [&](obj& q) { mat2d x; if (way == 0) x = (double(kk)*a + double(c))/double(qq); else if (way == 1) { x = a*double(kk); x += double(c); x /= double(qq); } else if (way == 2) { x = a; x *= double(kk); x = (double(c) - (-x))/double(qq); } else { x = as_matrix(va)*double(kk); x -= -double(c); x = x*(1.0/qq); } q.raw("r", ir(x, 4)); }); }
    { obj o("diag"); o.raw("a", ir(a)); rec(o, [&](obj& q) { q.raw("r", r.chance(1,2) ? iv(vec1d(diagonal(a))) : iv(vec1d(diagonal(mat2d(a))))); }); }
    if (n == m) { long z = r.in(-9, 9); obj o("setdiag"); o.raw("a", ir(a)).n("k", z); rec(o, [&](obj& q) { mat2d x = a; diagonal(x) = z; q.raw("r", ir(x)); }); }
    { obj o("asdiag"); o.raw("v", iv(v)); rec(o, [&](obj& q) { q.raw("r", ir(as_diagonal(v))); }); }
    { obj o("ident"); o.n("n", n); rec(o, [&](obj& q) { q.raw("r", ir(make_identity(n))); }); }
    { obj o("symz"); o.raw("a", ir(a)); rec(o, [&](obj& q) { mat2d x = a; inplace_symmetrize(x); q.raw("r", ir(x)); }); }
    { vec1d p = r1(r, 2, 9), s = r1(r, 2, 3), t = r1(r, 2, 9); int z = r.in(0, 3); bool one = r.chance(1,3); if (one) s[1] = s[0]; obj o("affine"); o.raw("v", iv(p)).raw("s", iv(s)).raw("t", iv(t)).n("q", z);
      rec(o, [&](obj& q) { vec1d h = {p[0], p[1], 1.0}; mat2d S = one ? make_scale(s[0]) : make_scale(s[0], s[1]); mat2d M = make_translation(t[0], t[1])*make_rotation(z*dpi/2)*S; q.raw("r", iv(vec1d(M*h))); }); }
}
static mat2d system_(rng& r, std::size_t n, bool sym) {
    mat2d a = rm(r, n, n, 3); if (sym) for (uint_t i = 0; i < n; ++i) for (uint_t j = i+1; j < n; ++j) a(i,j) = a(j,i);
    if (sym && r.chance(1,2)) { mat2d l = rm(r, n, n, n > 3 ? 1 : 2); for (uint_t i = 0; i < n; ++i) { l(i,i) = r.in(1, 2); for (uint_t j = i+1; j < n; ++j) l(i,j) = 0; } a = l*transpose(l); }
    if (r.chance(1,10)) { uint_t k = r.in(0, n-1); for (uint_t i = 0; i < n; ++i) { a(i,k) = 0; if (sym) a(k,i) = 0; } }
    if (r.chance(1,8)) for (uint_t i = 0; i < n; ++i) for (uint_t j = 0; j < n; ++j) if (i != j && (!sym || i > j) && r.chance(1,2)) { a(i,j) = 0; if (sym) a(j,i) = 0; }
    return a;
}
static void systems(rng& r) {
    std::size_t n = r.pick<int>({1, 2, 2, 3, 3, 3, 4, 4}); bool sym = r.chance(1,2); mat2d a = system_(r, n, sym); if (r.chance(1,25)) { a = rm(r, n, n + 1, 3); sym = false; }
    vec1d v = r1(r, r.chance(1,20) ? n + 1 : n, 5); vec2d va = a.base;
    { obj o("det"); o.raw("a", ir(a)); rec(o, [&](obj& q) { q.raw("r", fxp(r.chance(1,2) ? determinant(a) : determinant(as_matrix(va)), 1000)); }); }
    std::vector<string> fs = {"inv", "inpl", "lu", "lunp"}; if (sym) { fs.push_back("sym"); fs.push_back("insym"); fs.push_back("chol"); }
    for (auto& f : fs) {
        { obj o("inv"); o.raw("a", ir(a)).t("f", f); rec(o, [&](obj& q) { mat2d x = a; bool good = true;
            if (f == "inv") { if (r.chance(1,2)) good = invert(a, x); else good = invert(x, x); } else if (f == "inpl") good = inplace_invert(x);
            else if (f == "sym") { good = invert_symmetric(a, x); if (good) inplace_symmetrize(x); } else if (f == "insym") { good = inplace_invert_symmetric(x); if (good) inplace_symmetrize(x); }
            else if (f == "chol") { decompose_cholesky c; good = c.decompose(a); if (good) x = c.invert(); }
            else { decompose_lu d; d.no_pivot = f == "lunp"; if (r.chance(1,2)) d.decompose(system_(r, r.in(1, 4), false)); good = d.decompose(a); if (good) x = d.invert(); }
            q.n("good", good).raw("r", rows(x, 1000)); }); }
        { obj o("solve"); o.raw("a", ir(a)).raw("v", iv(v)).t("f", f); rec(o, [&](obj& q) { mat2d x = a; vec1d s = v; bool good = true;
            if (f == "inv") good = solve(a, v, s); else if (f == "inpl") good = inplace_solve(x, s);
            else if (f == "sym") good = solve_symmetric(a, v, s); else if (f == "insym") good = inplace_solve_symmetric(x, s);
            else if (f == "chol") { decompose_cholesky c; good = c.decompose(a); if (v.size() != a.dims[0]) good = true; if (good) { if (r.chance(1,2)) c.solve_inplace(s); else s = c.solve(v); } }
            else { decompose_lu d; d.no_pivot = f == "lunp"; good = d.decompose(a); if (v.size() != a.dims[0]) good = true; if (good) s = d.solve(v); }
            q.n("good", good).raw("r", fxv(s, 1000)); }); }
    }
    if (sym && v.size() == n) { obj o("chol"); o.raw("a", ir(a)).raw("v", iv(v)); rec(o, [&](obj& q) { decompose_cholesky c; if (r.chance(1,3)) c.decompose(system_(r, r.in(1, 4), true)); bool g = c.decompose(a); q.n("good", g); if (g) { q.raw("l", rows(c.l, 1000)).raw("li", rows(c.lower_inverse(), 1000)).raw("dt", fxp(c.lower_determinant()*c.lower_determinant(), 1000)).raw("ldt", fxp(std::exp(2*c.log_lower_determinant()), 1000)).raw("fw", fxv(c.substitute_forward(v), 1000)).raw("bw", fxv(c.substitute_backward(v), 1000)); } }); }
#ifndef NO_LAPACK
    if (a.dims[0] == a.dims[1]) { obj o("svd"); o.raw("a", ir(a)); rec(o, [&](obj& q) { decompose_svd d; bool g = d.decompose(a); q.n("good", g).raw("u", rows(d.u, 300)).raw("vt", rows(d.vt, 300)).raw("s", fxv(d.s, 300)); }); }
    if (sym) { obj o("eigen"); o.raw("a", ir(a)); rec(o, [&](obj& q) { mat2d e; vec1d s; bool g; if (r.chance(1,2)) g = eigen_symmetric(a, s, e); else { e = a; g = inplace_eigen_symmetric(e, s); } q.n("good", g).raw("q", rows(e, 1000)).raw("s", fxv(s, 1000)); }); }
#endif
}
struct problem { vec2d x; vec1d y, e; };
static problem prob(rng& r, bool pos) {
    problem p; std::size_t np = r.in(1, 3), nm = r.in(1, 6); p.x = rv<2,double>(r, dd(np, nm), 2); p.y = r1(r, nm, 4); p.e = vec1d(nm); bool same = r.chance(1,3); for (auto& t : p.e.data) t = same ? 1 : r.in(1, 2);
    if (pos) { for (auto& t : p.x.data) t = std::fabs(t); if (r.chance(3,4)) for (auto& t : p.y.data) t = std::fabs(t); }
    if (r.chance(1,15)) { uint_t k = r.in(0, np-1); for (uint_t m = 0; m < nm; ++m) p.x(k,m) = 0; }
    return p;
}
static obj& com(obj& o, const problem& p) { o.raw("x", ir(p.x)).raw("y", iv(p.y)); vec1d w = p.e; for (auto& t : w.data) t = 4.0/(t*t); return o.raw("w", iv(w)); }
static void out(obj& q, const linfit_result& f, bool chi = true) { q.n("good", f.success).raw("p", fxv(f.params, 100)).raw("err", fxv(f.errors, 100)).raw("cov", rows(f.cov, 100)).raw("chi", chi ? fxp(f.chi2, 16) : "-1"); }
static void fits_(rng& r) {
    problem p = prob(r, false); uint_t np = p.x.dims[0], nm = p.x.dims[1]; std::vector<vec1d> x; for (uint_t i = 0; i < np; ++i) x.push_back(vec1d(p.x(i,_)));
    { obj o("fit"); com(o, p); rec(o, [&](obj& q) { linfit_result f; bool one = true; for (auto t : p.e) one = one && t == 1;
        if (one && r.chance(1,2)) f = np == 1 ? linfit(p.y, 1.0, x[0]) : np == 2 ? linfit(p.y, 1.0, x[0], x[1]) : linfit(p.y, 1.0, x[0], x[1], x[2]);
        else f = np == 1 ? linfit(p.y, p.e, x[0]) : np == 2 ? linfit(p.y, p.e, x[0], x[1]) : linfit(p.y, p.e, x[0], x[1], x[2]); out(q, f); }); }
    { obj o("fit"); com(o, p); rec(o, [&](obj& q) { out(q, linfit_pack(p.y, p.e, p.x)); }); }
    if (nm % 2 == 0) { obj o("fit"); com(o, p); rec(o, [&](obj& q) { vec3d x3(np, 2, nm/2); x3.data = p.x.data; vec2d y2(2, nm/2), e2(2, nm/2); y2.data = p.y.data; e2.data = p.e.data; out(q, linfit_pack(y2, e2, x3)); }); }
    { problem c = p; for (uint_t m = 0; m < nm; ++m) c.x(0,m) = 2; obj o("fit"); com(o, c); rec(o, [&](obj& q) { out(q, np == 1 ? linfit(c.y, c.e, 2.0) : np == 2 ? linfit(c.y, c.e, 2.0, x[1]) : linfit(c.y, c.e, 2.0, x[1], x[2])); }); }
    // the same models for several data, with some models replaced in between
    { problem c = p; std::vector<std::pair<problem,linfit_result>> h; std::vector<bool> chi; int ok = vp::guard([&] {
        auto b = r.chance(1,2) ? linfit_pack_batch(c.e, c.x) : np == 1 ? linfit_batch(c.e, x[0]) : np == 2 ? linfit_batch(c.e, x[0], x[1]) : linfit_batch(c.e, x[0], x[1], x[2]);
        uint_t n = r.in(1, 4); for (uint_t k = 0; k < n; ++k) {
            if (k && r.chance(1,2)) { uint_t i = r.in(0, np-1); vec1d z = r1(r, nm, 2); if (r.chance(1,8)) for (auto& t : z.data) t = 0; c.x(i,_) = z; if (r.chance(1,2)) b.update_model(i, z); else { uint_t i2 = r.in(0, np-1); vec1d z2 = r1(r, nm, 2); c.x(i2,_) = z2; b.update_models(i, z, i2, z2); } }
            c.y = r1(r, nm, 4); bool nc = r.chance(1,3); if (nc) b.fit_nochi2(c.y); else b.fit(c.y); if (nc && r.chance(1,2)) { b.update_chi2(c.y); nc = false; }
            h.push_back(std::make_pair(c, b.fr)); chi.push_back(!nc); } });
      for (uint_t i = 0; i < h.size(); ++i) { obj o("fit"); com(o, h[i].first); o.n("ok", 1); out(o, h[i].second, chi[i]); vp::emit(o); } if (ok != 1) { obj o("fit"); com(o, c); o.n("ok", ok).n("good", 0); vp::emit(o); } }
    if (r.chance(1,4)) { obj o("baddim"); int k = r.in(0, 4); o.n("k", k); rec(o, [&](obj& q) { vec1d l = r1(r, nm + 1, 3), s = r1(r, nm - 1, 3); vec1d bad = r.chance(1,2) ? l : s;
        if (k == 0) linfit(p.y, p.e, x[0], bad); else if (k == 1) linfit(bad, p.e, x[0]); else if (k == 2) { auto b = linfit_batch(p.e, x[0]); b.update_model(0, bad); } else if (k == 3) { auto b = linfit_batch(p.e, x[0]); b.update_model(1, x[0]); } else linfit_pack_batch(bad, p.x); q.n("x", 0); }); }
    { problem c = prob(r, true); np = c.x.dims[0]; x.clear(); for (uint_t i = 0; i < np; ++i) x.push_back(vec1d(c.x(i,_))); obj o("fitnn"); com(o, c); rec(o, [&](obj& q) { linfit_nn_result f = r.chance(1,2) ? linfit_nn_pack(c.y, c.e, c.x) : np == 1 ? linfit_nn(c.y, c.e, x[0]) : np == 2 ? linfit_nn(c.y, c.e, x[0], x[1]) : linfit_nn(c.y, c.e, x[0], x[1], x[2]); q.n("good", f.success).raw("p", fxv(f.params, 100)).raw("chi", fxp(f.chi2, 16)); }); }
}
static void mp(rng& r) {
    problem p = prob(r, false); uint_t np = p.x.dims[0], nm = p.x.dims[1]; while (nm < np) { p = prob(r, false); np = p.x.dims[0]; nm = p.x.dims[1]; }
    mpfit_options o(np); vec1d s(np); vec1i lo(np), hi(np), fz(np), rl(np); bool lim = r.chance(1,2), any = false; for (uint_t i = 0; i < np; ++i) {
        s[i] = r.in(-3, 3); lo[i] = -1000; hi[i] = 1000; fz[i] = r.chance(1,6); if (lim && r.chance(1,2)) lo[i] = s[i] - r.in(0, 3); if (lim && r.chance(1,2)) hi[i] = s[i] + r.in(0, 3);
        if (fz[i] == 0 && lo[i] < hi[i]) any = true; o.frozen[i] = fz[i]; if (lo[i] > -1000) o.lower_limit[i] = lo[i]; if (hi[i] < 1000) o.upper_limit[i] = hi[i]; if (r.chance(1,8)) o.max_step[i] = 0.5; o.deriv[i] = r.pick<int>({0, 0, 1, -1, 2}); if (r.chance(1,8)) o.deriv_step[i] = 0.01; if (r.chance(1,8)) o.deriv_rstep[i] = 0.01; if (o.max_step[i] == 0.5 && r.chance(3,4)) o.deriv_step[i] = 0.01; rl[i] = o.deriv_rstep[i] != 0 || o.deriv_step[i] == 0; }
    if (!any) return; o.nocovar = r.chance(1,4); bool plain = r.chance(1,6); if (plain) { o = mpfit_options(np); for (uint_t i = 0; i < np; ++i) { lo[i] = -1000; hi[i] = 1000; fz[i] = 0; rl[i] = 1; } }
    obj e("mpfit"); com(e, p); e.raw("start", iv(s)).q("lo", lo).q("hi", hi).q("frozen", fz).q("rel", rl).n("nocov", o.nocovar);
    rec(e, [&](obj& q) { vec1d x = indgen<double>(nm); auto model = [&](const vec1d& t, const vec1d& a) { vec1d m(nm); for (uint_t i = 0; i < np; ++i) for (uint_t k = 0; k < nm; ++k) m.safe[k] += a.safe[i]*p.x(i,k); return m; };
        mpfit_result f = plain ? mpfitfun(p.y, p.e, x, model, s) : r.chance(1,2) ? mpfitfun(p.y, p.e, x, model, s, o) : mpfit([&](const vec1d& a) { return (p.y - model(x, a))/p.e; }, s, o);
        q.n("good", f.success).n("why", f.reason).raw("p", fxv(f.params, 1000)).raw("err", fxv(f.errors, 100)); });
}
#ifndef NO_LAPACK
static void other(rng& r) {
    { std::size_t n = r.in(1, 3); vec1d c = r1(r, n, 5), s = r1(r, n, 5), a(n); for (auto& t : a.data) t = r.in(1, 3); long k = r.in(-5, 5); obj o("bfgs"); o.raw("c", iv(c)).n("k", k); rec(o, [&](obj& q) { minimize_params p; auto f = minimize_bfgs(p, s, [&](const vec1d& x, minimize_function_output w) { vec1d v(n + 1); v[0] = k; for (uint_t i = 0; i < n; ++i) { v[0] += a[i]*sqr(x[i] - c[i]); v[i+1] = 2*a[i]*(x[i] - c[i]); } return v; }); q.n("good", f.success).raw("r", fxv(f.params, 1000)).raw("val", fxp(f.value, 1000)); }); }
    { std::array<std::size_t,2> d = dd(r.pick<int>({1, 2, 4}), r.pick<int>({1, 2, 4})); vec2cd v(d); string s = "["; for (uint_t i = 0; i < v.size(); ++i) { long a = r.in(-9, 9), b = r.in(-9, 9); v.safe[i] = std::complex<double>(a, b); s += (i ? ",[" : "[") + std::to_string(a) + "," + std::to_string(b) + "]"; } int dir = r.chance(1,2) ? -1 : 1;
      obj o("fft"); o.q("d", d).raw("v", s + "]").n("dir", dir); rec(o, [&](obj& q) { vec2cd f; if (r.chance(1,2)) f = dir == -1 ? fft_c2c(v) : ifft_c2c(v); else { f.resize(d); for (int k = r.in(1, 2); k > 0; --k) { if (dir == -1) fft_c2c(v, f); else ifft_c2c(v, f); } } string t = "["; for (uint_t i = 0; i < f.size(); ++i) t += (i ? ",[" : "[") + whole(f.safe[i].real()) + "," + whole(f.safe[i].imag()) + "]"; q.raw("r", t + "]"); }); }
    { std::array<std::size_t,2> d = dd(r.in(1, 7), r.in(1, 7)); vec2d v = rv<2,double>(r, d, 9); obj o("rfft"); o.q("d", d).raw("v", iv(v)); rec(o, [&](obj& q) { vec2d f; if (r.chance(1,2)) f = ifft(fft(v)); else { f.resize(d); vec2cd c(d); fft(v, c); if (r.chance(1,2)) { fft(v, c); ifft(c, f); f[_] = 0; } ifft(c, f); } q.raw("r", iv(f)); }); }
}
#endif
void vp::setup() {
    vp::add("algebra", 120, 6000, [](rng& r, long) { algebra(r); });
    vp::add("systems", 150, 8000, [](rng& r, long) { systems(r); });
    vp::add("fits", 120, 6000, [](rng& r, long) { fits_(r); });
    vp::add("mpfit", 200, 10000, [](rng& r, long) { mp(r); });
#ifndef NO_LAPACK
    vp::add("other", 100, 5000, [](rng& r, long) { other(r); });
#endif
}
