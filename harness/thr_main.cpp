#include "thr.hpp"
#ifdef VP_SCHED
namespace sched { world* W = nullptr; }
namespace plog { std::vector<std::string> ev; }
void explore(rng& r, const std::string& name, const std::string& head, std::function<void()> prog, int bound, long maxdfs, long nrandom) {
    std::unordered_set<std::string> seen;
    long n = 0;
    auto one = [&](sched::explorer& ex) {
        plog::reset();
        std::string why;
        bool ok = sched::run(ex, prog, why);
        ++n;
        std::string t = plog::all();
        if (!ok) t = "[]";
        if (seen.insert(t + why).second) {
            obj o(name.c_str()); o.raw("h", head).n("fin", ok ? 1 : 0).t("why", why).raw("ev", t);
            vp::emit(o);
        }
        return ok;
    };
    bool complete = false;
    if (maxdfs > 0) {
        sched::dfs d(bound, 400);
        for (long i = 0; i < maxdfs; ++i) {
            d.restart();
            if (!one(d)) break;
            if (!d.next()) { complete = true; break; }
        }
    }
    for (long i = 0; i < nrandom; ++i) {
        uint64_t s = r.next();
        if (i % 2) { sched::random_walk e(s, (int)((s >> 20) % 16)); if (!one(e)) break; }
        else { sched::priorities e(s, 3 + (int)((s >> 20) % 40)); if (!one(e)) break; }
    }
    obj o("info"); o.t("what", name).n("schedules", n).n("exhausted", complete ? 1 : 0).n("distinct", (long)seen.size());
    vp::emit(o);
}
#else
namespace plog { std::atomic<long> ticket{0}; std::atomic<int> nslot{0}; int gen = 0; std::vector<entry> slot[256]; }
void explore(rng& r, const std::string& name, const std::string& head, std::function<void()> prog, int bound, long maxdfs, long nrandom) {
    whoami();
    plog::reset();
    prog();
    obj o(name.c_str()); o.raw("h", head).n("fin", 1).t("why", "").raw("ev", plog::all());
    vp::emit(o);
}
#endif
