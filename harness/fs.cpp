// File operations and paths. All of it happens below /tmp/vpfs.<pid of the check>.<shard>, as an unprivileged user.
#include "str.hpp"
#include "vif/io/filesystem.hpp"
#include <ftw.h>
#include <memory>
#include <fstream>
typedef std::vector<string> path;
static string root; static bool priv = true; static long ncase = 0;
static int rm1(const char* p, const struct stat* s, int, struct FTW*) { ::chmod(p, 0755); return ::remove(p); }
static int fix1(const char* p, const struct stat* s, int, struct FTW*) { return ::chmod(p, 0755), 0; }
static void wipe(const string& d) { if (d.compare(0, 10, "/tmp/vpfs.") != 0) return; nftw(d.c_str(), fix1, 20, FTW_PHYS); nftw(d.c_str(), rm1, 20, FTW_DEPTH | FTW_PHYS); }
static void start() {
    if (root.empty()) {
        if (setgid(65534) == 0 && setuid(65534) == 0) {} 
        priv = geteuid() == 0;
        root = "/tmp/vpfs." + std::to_string(getppid()) + "." + std::to_string(vp::opt.shard) + (vp::opt.only >= 0 ? "x" + std::to_string(vp::opt.only) : "");
        wipe(root); ::mkdir(root.c_str(), 0755);
    }
}
struct sess {
    rng& r; string base; bool rel; std::vector<path> known; file::explorer ex[2]; string exd[2];
    std::vector<string> names{"a", "b", "ab", "c.txt", "d.c", ".h", "e f"};
    explicit sess(rng& r_) : r(r_) {
        start(); base = root + "/" + std::to_string(ncase++); ::mkdir(base.c_str(), 0755); if (::chdir(base.c_str())) _exit(9);
        rel = r.chance(1,3); vp::emit(obj("begin"));
    }
    ~sess() { if (::chdir("/")) _exit(9); wipe(base); }
    path rp(long lo = 1) {
        if (!known.empty() && r.chance(2,3)) { path p = r.pick(known); if (r.chance(1,4)) p.push_back(r.pick(names)); return p; }
        path p; long n = r.in(lo, 3); for (long i = 0; i < n; ++i) p.push_back(r.pick(names)); return p;
    }
    string txt(const path& p, bool odd = false) {
        string s = rel ? "" : base; for (auto& x : p) { if (!s.empty()) s += odd && r.chance(1,4) ? "//" : "/"; s += x; }
        if (s.empty()) s = ".";
        if (odd && r.chance(1,4)) s += "/";
        return s;
    }
    static string jp(const path& p) { return sq(p); }
    bool isdir(const path& p) { struct stat s; string q = base; for (auto& x : p) q += "/" + x; return ::stat(q.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
    void dump() {
        obj o("dump"); std::vector<string> hs; walk(base, path(), hs); o.raw("h", vp::arr(hs)); vp::emit(o);
    }
    void walk(const string& d, path p, std::vector<string>& hs) {
        struct stat s; if (::lstat(d.c_str(), &s)) return; obj o; o.raw("p", jp(p)).n("d", S_ISDIR(s.st_mode));
        if (S_ISDIR(s.st_mode)) { o.raw("v", "[]"); hs.push_back(o.done()); if (DIR* q = opendir(d.c_str())) { while (dirent* e = readdir(q)) { string n = e->d_name; if (n == "." || n == "..") continue; path c = p; c.push_back(n); walk(d + "/" + n, c, hs); } closedir(q); } }
        else { bool un = !(s.st_mode & 0400); if (un) ::chmod(d.c_str(), 0644); string c; if (FILE* f = fopen(d.c_str(), "rb")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) c.append(b, k); fclose(f); } if (un) ::chmod(d.c_str(), 0); o.n("v", c); hs.push_back(o.done()); }
    }
    void put() {
        path p = rp(); string d = base; for (size_t i = 0; i + 1 < p.size(); ++i) d += "/" + p[i];
        struct stat s; if (::stat(d.c_str(), &s) || !S_ISDIR(s.st_mode) || isdir(p)) return;
        string c = r.chance(1,6) ? "" : rs(r, string("ab\n\0\xff ", 6), 1, 9); if (r.chance(1,60)) c = string(9000, 'z') + c;
        FILE* f = fopen((d + "/" + p.back()).c_str(), "wb"); if (!f) return; fwrite(c.data(), 1, c.size(), f); fclose(f); known.push_back(p);
        vp::emit(obj("put").raw("p", jp(p)).n("v", c));
    }
    void chmod() { if (priv || known.empty()) return; path p = r.pick(known); struct stat s; string q = base; for (auto& x : p) q += "/" + x; if (::lstat(q.c_str(), &s)) return; bool a = r.chance(1,2);
        if (::chmod(q.c_str(), S_ISDIR(s.st_mode) ? (a ? 0755 : 0555) : (a ? 0644 : 0)) == 0) vp::emit(obj("chmod").raw("p", jp(p)).n("a", a)); }
    void next(int x) { obj o("enext"); o.n("x", x); rec(o, [&](obj& z) { file::explorer::file_data f; f.name = "?"; f.is_dir = x % 2; f.size = 77; f.is_hidden = true; bool b = ex[x].find_next(f); z.n("r", b); if (b) z.n("n", f.name).n("z", f.size).n("h", f.is_hidden).n("d", f.is_dir).n("fp", f.full_path == exd[x] + "/" + f.name || f.full_path == exd[x] + f.name); }); }
    void open(int x, path p, string pat) { obj o("eopen"); o.n("x", x).raw("p", jp(p)).n("pat", pat); exd[x] = txt(p); rec(o, [&](obj& z) { z.n("r", ex[x].open(exd[x], pat)); }); }
    void remove(path p) { obj o("remove"); o.raw("p", jp(p)); string a = txt(p); rec(o, [&](obj& z) { z.n("r", file::remove(a)); }); dump(); }
    // entries come and go while a directory is explored
    void churn() {
        for (long i = r.in(2, 8); i > 0; --i) put();
        path p; if (r.chance(1,3)) { p = rp(); p.resize(1); } int x = r.in(0, 1); open(x, p, r.chance(1,2) ? "" : r.pick(std::vector<string>{"*", "a*", "*b"}));
        for (long i = r.in(0, 2); i > 0; --i) next(x);
        for (long i = r.in(1, 5); i > 0; --i) { if (r.chance(2,3) && !known.empty()) remove(r.pick(known)); else put(); }
        for (long i = r.in(1, 14); i > 0; --i) next(x);
    }
    void step() {
        long k = r.in(0, 14); path p = rp(), q = rp();
        if (k == 0 || k == 13) put();
        else if (k == 1) { obj o("mkdir"); o.raw("p", jp(p)); string a = txt(p, true); bool v = r.chance(1,4); rec(o, [&](obj& z) { bool b = v ? file::mkdir(vec1s{a})[0] : file::mkdir(a); z.n("r", b); }); known.push_back(p); dump(); }
        else if (k == 2 || k == 14) { if (isdir(p)) return; bool full = r.chance(1,12); if (full && !known.empty()) p = r.pick(known); if (isdir(p)) return; if (r.chance(1,10)) q = p; obj o("copy"); o.raw("p", jp(p)).raw("q", jp(q)).n("full", full); string a = txt(p), b = full ? "/dev/full" : txt(q); rec(o, [&](obj& z) { z.n("r", file::copy(a, b)); }); known.push_back(q); dump(); }
        else if (k == 3) { obj o("remove"); o.raw("p", jp(p)); string a = txt(p); rec(o, [&](obj& z) { z.n("r", file::remove(a)); }); dump(); }
        else if (k == 4) { obj o("move"); o.raw("p", jp(p)).raw("q", jp(q)); string a = txt(p), b = txt(q); rec(o, [&](obj& z) { z.n("r", file::move(a, b)); }); known.push_back(q); dump(); }
        else if (k == 5) { obj o("exists"); o.raw("p", jp(p)); string a = txt(p); bool v = r.chance(1,4); rec(o, [&](obj& z) { z.n("r", v ? file::exists(vec1s{a, a})[1] : file::exists(a)); }); }
        else if (k == 6) { if (isdir(p)) return; obj o("tostr"); o.raw("p", jp(p)); string a = txt(p); rec(o, [&](obj& z) { z.n("v", file::to_string(a)); }); }
        else if (k == 7 || k == 8) { if (r.chance(1,4)) p.clear(); string pat = r.pick(std::vector<string>{"", "*", "a*", "*.txt", "*b", "*.*", "a", ".*", "*a*", "e f"}); bool d = r.chance(1,2); obj o("list"); o.raw("p", jp(p)).n("pat", pat).n("d", d); string a = txt(p, true);
            rec(o, [&](obj& z) { vec1s l = d ? file::list_directories(a, pat) : file::list_files(a, pat); z.raw("v", sv(l)); }); }
        else if (k == 9) { obj o("older"); o.raw("p", jp(p)).raw("q", jp(q)).n("timed", 0); string a = txt(p), b = txt(q); rec(o, [&](obj& z) { z.n("r", file::is_older(a, b)); }); }
        else if (k == 10) chmod();
        else { int x = r.in(0, 1); int w = r.in(0, 5);
            if (w == 0) { if (r.chance(1,4)) p.clear(); string pat = r.pick(std::vector<string>{"", "", "*", "a*", "*b"}); obj o("eopen"); o.n("x", x).raw("p", jp(p)).n("pat", pat); exd[x] = txt(p); rec(o, [&](obj& z) { z.n("r", ex[x].open(exd[x], pat)); }); }
            else if (w == 1) { obj o("eclose"); o.n("x", x); rec(o, [&](obj& z) { ex[x].close(); z.n("r", 1); }); }
            else { for (int i = w; i > 0; --i) next(x); } }
    }
};
void vp::setup() {
    vp::add("tree", 700, 12000, [](rng& r, long) { sess s(r); long n = r.in(6, 40); for (long i = 0; i < n; ++i) s.step(); s.dump(); });
    vp::add("churn", 250, 4000, [](rng& r, long) { sess s(r); for (long i = r.in(0, 6); i > 0; --i) s.step(); s.churn(); for (long i = r.in(0, 4); i > 0; --i) s.step(); s.dump(); });
    vp::add("age", 8, 24, [](rng& r, long) {
        sess s(r); for (int i = 0; i < 4; ++i) s.put();
        for (int k = 0; k < 2; ++k) { usleep(1100000); vp::emit(obj("wait")); for (int i = 0; i < 2; ++i) s.put();
            for (auto& p : s.known) for (auto& q : s.known) { if (r.chance(1,2)) continue; obj o("older"); o.raw("p", s.jp(p)).raw("q", s.jp(q)).n("timed", 1); string a = s.txt(p), b = s.txt(q); bool v = r.chance(1,4); rec(o, [&](obj& z) { z.n("r", v ? file::is_older(vec1s{a}, b)[0] : file::is_older(a, b)); }); } }
    });
    vp::add("path", 1500, 20000, [](rng& r, long) {
        string x = rs(r, r.chance(1,4) ? "/ab. " : "//ab.", 0, r.chance(1,6) ? 14 : 6); obj o("path"); o.n("s", x); bool v = r.chance(1,3);
        rec(o, [&](obj& z) {
            if (v) { vec1s w = {x, "q/z.t"}; auto sp = file::split_extension(w); z.n("dz", file::directorize(w)[0]).n("ab", file::is_absolute_path(w)[0]).n("bn", file::get_basename(w)[0]).n("dn", file::get_directory(w)[0]).n("xt", file::get_extension(w)[0]).n("nx", file::remove_extension(w)[0]).raw("sx", sq({sp[0].first, sp[0].second})); }
            else { auto sp = file::split_extension(x); z.n("dz", file::directorize(x)).n("ab", file::is_absolute_path(x)).n("bn", file::get_basename(x)).n("dn", file::get_directory(x)).n("xt", file::get_extension(x)).n("nx", file::remove_extension(x)).raw("sx", sq({sp.first, sp.second})); }
        });
    });
}
