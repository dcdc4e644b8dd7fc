// Concurrent programs over the library's queue, worker, worker pool and parallel loop.
// -DVP_SCHED: the library's headers run on the controlled scheduler (sched.hpp);
// otherwise on real threads (built with ThreadSanitizer).
#include "vp.hpp"
#include "vif/core/vec.hpp"
#include "vif/core/print.hpp"
#include "vif/utility/generic.hpp"
#include "vif/utility/string.hpp"
#include "vif/utility/time.hpp"
#include <memory>
#include <vector>
#include <set>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
namespace plog {
    // total order of the observed events
    typedef std::pair<long, std::string> entry;
#ifdef VP_SCHED
    extern std::vector<std::string> ev;
    inline void reset() { ev.clear(); }
    inline void put(const std::string& s) { ev.push_back(s); }
    inline std::string all() { return vp::arr(ev); }
    inline std::size_t count() { return ev.size(); }
#else
    // per-thread buffers; the ticket counter is relaxed, so that recording orders nothing by itself
    extern std::atomic<long> ticket;
    extern std::atomic<int> nslot;
    extern int gen;
    extern std::vector<entry> slot[256];
    inline std::vector<entry>& mine() {
        static thread_local int g = -1, s = 0;
        if (g != gen) { g = gen; s = nslot.fetch_add(1, std::memory_order_relaxed); }
        return slot[s];
    }
    inline void reset() { for (int i = 0; i < 256; ++i) slot[i].clear(); ++gen; nslot.store(0, std::memory_order_relaxed); }
    inline void put(const std::string& s) { long t = ticket.fetch_add(1, std::memory_order_relaxed); mine().push_back(entry(t, s)); }
    inline std::string all() {
        std::vector<entry> e;
        for (int i = 0; i < 256; ++i) for (auto& x : slot[i]) e.push_back(x);
        std::sort(e.begin(), e.end());
        std::vector<std::string> s; for (auto& x : e) s.push_back(x.second);
        return vp::arr(s);
    }
#endif
    inline void log(int k) { put("[" + std::to_string(k) + "]"); }
    inline void log(int k, long a) { put("[" + std::to_string(k) + "," + std::to_string(a) + "]"); }
    inline void log(int k, long a, long b) { put("[" + std::to_string(k) + "," + std::to_string(a) + "," + std::to_string(b) + "]"); }
}
#ifdef VP_SCHED
typedef long live_t;
#include "sched.hpp"
#define atomic vp_atomic
#define atomic_bool vp_atomic_bool
#define atomic_flag vp_atomic_flag
#define thread vp_thread
#define mutex vp_mutex
#define condition_variable vp_condition_variable
#define this_thread vp_this_thread
inline void inside() { sched::point(); }
inline int whoami() { return sched::W->cur; }
#else
typedef std::atomic<long> live_t;
inline void inside() { if (plog::ticket.load(std::memory_order_relaxed) % 3 == 0) std::this_thread::yield(); }
inline int whoami() { static std::atomic<int> n{0}; static thread_local int me = n.fetch_add(1, std::memory_order_relaxed); return me; }
#endif
#include "vif/utility/thread.hpp"

using vp::obj; using vp::rng;

// explore a program: `prog` performs one execution and logs; `head` describes the program
void explore(rng& r, const std::string& name, const std::string& head, std::function<void()> prog, int bound, long maxdfs, long nrandom);
