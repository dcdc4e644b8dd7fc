// Controlled scheduler.  The library's thread headers are compiled with std::atomic, std::thread,
// std::mutex, std::condition_variable and std::this_thread replaced by the classes below, which
// run every "thread" as a coroutine and hand the choice of who runs next to an explorer at every
// synchronisation operation.  Programs without data races (checked separately with
// ThreadSanitizer on real threads) have no other interleavings.
#ifndef SCHED_HPP
#define SCHED_HPP
#include "vp.hpp"
#include <ucontext.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <chrono>
#include <tuple>
#include <utility>
#include <algorithm>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define VP_FIBER 1
#endif

namespace sched {
    struct fiber {
        ucontext_t ctx;
        std::vector<char> stack;
        std::function<void()> body;
        std::function<bool()> blocked;   // not runnable while it returns true
        bool done = false;
        void* fake = nullptr;
        int burst = 0;
    };
    struct hang {};
    // decides which of the runnable threads continues
    struct explorer {
        virtual ~explorer() {}
        // `cur` is the position of the running thread in `ready`, or -1; `yields`: it gives way
        virtual int choose(const std::vector<int>& ready, int cur, bool yields) = 0;
    };
    struct world {
        std::vector<std::unique_ptr<fiber>> f;
        int cur = 0;
        long steps = 0, max_steps = 200000;
        explorer* ex = nullptr;
        bool dead = false;       // a deadlock or endless execution was found
        std::string why;
        const void* main_bottom = nullptr; size_t main_size = 0;
        ucontext_t out; void* out_fake = nullptr;
    };
    extern world* W;

    inline void finish_switch(fiber& me) {
#ifdef VP_FIBER
        const void* b; size_t s;
        __sanitizer_finish_switch_fiber(me.fake, &b, &s);
#endif
    }
    inline void leave() { // back to the caller of run(), for good
#ifdef VP_FIBER
        void* tmp;
        __sanitizer_start_switch_fiber(&tmp, W->main_bottom, W->main_size);
#endif
        swapcontext(&W->f[W->cur]->ctx, &W->out);
    }
    inline void go(int k) {
        int old = W->cur;
        if (k == old) return;
        W->cur = k;
#ifdef VP_FIBER
        __sanitizer_start_switch_fiber(W->f[old]->done ? nullptr : &W->f[old]->fake, W->f[k]->stack.data(), W->f[k]->stack.size());
#endif
        swapcontext(&W->f[old]->ctx, &W->f[k]->ctx);
        finish_switch(*W->f[old]);
    }
    inline void pick(bool yields) {
        if (++W->steps > W->max_steps) { W->dead = true; W->why = "endless"; leave(); }
        std::vector<int> ready; int cur = -1;
        for (int i = 0; i < (int)W->f.size(); ++i) {
            auto& f = *W->f[i];
            if (f.done || (f.blocked && f.blocked())) continue;
            if (i == W->cur) cur = ready.size();
            ready.push_back(i);
        }
        if (ready.empty()) { W->dead = true; W->why = "deadlock"; leave(); }
        int c = ready.size() == 1 ? 0 : W->ex->choose(ready, cur, yields);
        go(ready[c]);
    }
    // a scheduling point of the running thread
    inline void point(bool yields = false) { if (W) pick(yields); }
    inline void block(std::function<bool()> b) {
        if (!W) return;
        if (!b()) return;
        auto& f = *W->f[W->cur];
        f.blocked = b;
        pick(true);
        f.blocked = nullptr;
    }
    inline void entry() {
        finish_switch(*W->f[W->cur]);
        auto& f = *W->f[W->cur];
        f.body();
        f.body = nullptr;
        f.done = true;
        if (W->cur == 0) leave(); else pick(true);
        abort();
    }
    inline int spawn(std::function<void()> body) {
        std::unique_ptr<fiber> f(new fiber);
        f->stack.resize(256*1024);
        f->body = std::move(body);
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack.data();
        f->ctx.uc_stack.ss_size = f->stack.size();
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void(*)())&entry, 0);
        W->f.push_back(std::move(f));
        return W->f.size()-1;
    }
    // run one program under an explorer; returns false (and why) if it never ends
    inline bool run(explorer& ex, std::function<void()> prog, std::string& why, long max_steps = 200000) {
        world w; w.ex = &ex; w.max_steps = max_steps;
        W = &w;
        spawn(std::move(prog));
        W->cur = 0;
#ifdef VP_FIBER
        __sanitizer_start_switch_fiber(&w.out_fake, w.f[0]->stack.data(), w.f[0]->stack.size());
#endif
        swapcontext(&w.out, &w.f[0]->ctx);
#ifdef VP_FIBER
        const void* b; size_t s;
        __sanitizer_finish_switch_fiber(w.out_fake, &b, &s);
#endif
        W = nullptr;
        bool unfinished = false;
        for (size_t i = 1; i < w.f.size(); ++i) if (!w.f[i]->done) unfinished = true;
        if (w.dead) { why = w.why; }
        else if (unfinished) { why = "threads left running"; }
#ifdef VP_FIBER
        for (auto& f : w.f) __asan_unpoison_memory_region(f->stack.data(), f->stack.size());
#endif
        return !w.dead && !unfinished;
    }

    // ---- explorers -----------------------------------------------------------------------
    // random walk: keeps the running thread with probability keep/16
    struct random_walk : explorer {
        vp::rng r; int keep;
        random_walk(uint64_t s, int k) : r(s), keep(k) {}
        int choose(const std::vector<int>& ready, int cur, bool yields) override {
            if (cur >= 0 && !yields && r.in(0, 15) < keep) return cur;
            return r.in(0, ready.size()-1);
        }
    };
    // random priorities with a few change points (PCT), made fair by demoting long bursts
    struct priorities : explorer {
        vp::rng r; std::vector<long> prio; int burst = 0; long low = 0; int change;
        priorities(uint64_t s, int c) : r(s), change(c) {}
        int choose(const std::vector<int>& ready, int cur, bool yields) override {
            for (int t : ready) while ((int)prio.size() <= t) prio.push_back(r.in(1, 1000000));
            if (cur >= 0) {
                if (yields || ++burst > 40 || r.in(0, change) == 0) { prio[ready[cur]] = --low; burst = 0; }
            } else burst = 0;
            int b = 0;
            for (size_t i = 1; i < ready.size(); ++i) if (prio[ready[i]] > prio[ready[b]]) b = i;
            return b;
        }
    };
    // all schedules with at most `bound` preemptions (depth-first)
    struct dfs : explorer {
        struct choice { int n, cur, pick; bool yields; };
        std::vector<choice> path; size_t at = 0; int bound; int used = 0, burst = 0; size_t depth;
        dfs(int b, size_t d) : bound(b), depth(d) {}
        void restart() { at = 0; used = 0; burst = 0; }
        static int order(const choice& c, int k) { // k-th alternative: first the default
            int def = (c.cur >= 0 && !c.yields) ? c.cur : (c.cur >= 0 ? (c.cur+1) % c.n : 0);
            return (def + k) % c.n;
        }
        int choose(const std::vector<int>& ready, int cur, bool yields) override {
            int n = ready.size();
            if (cur >= 0 && ++burst > 60) { burst = 0; return (cur+1) % n; }  // fairness against endless polling
            if (cur < 0) burst = 0;
            if (at >= depth) { return (cur >= 0 && !yields) ? cur : (cur+1) % n; }
            if (at == path.size()) path.push_back({n, cur, 0, yields});
            choice& c = path[at++];
            if (c.n != n) { c.n = n; c.cur = cur; c.pick = 0; c.yields = yields; path.resize(at); }
            int k = order(c, c.pick);
            if (cur >= 0 && !yields && k != cur) ++used;
            if (k != cur) burst = 0;
            return k;
        }
        // next path; false when the space is exhausted
        bool next() {
            while (!path.empty()) {
                auto& c = path.back();
                // preemptions used before this point
                int u = 0;
                for (size_t i = 0; i+1 < path.size(); ++i) { auto& d = path[i]; if (d.cur >= 0 && !d.yields && order(d, d.pick) != d.cur) ++u; }
                bool free_ = c.cur < 0 || c.yields;
                if (c.pick+1 < c.n && (free_ || u+1 <= bound)) { ++c.pick; return true; }
                path.pop_back();
            }
            return false;
        }
    };
}

// ---- replacements for the standard classes -----------------------------------------------
namespace std {
    template<class T> struct vp_atomic {
        T v;
        vp_atomic() noexcept : v() {}
        constexpr vp_atomic(T x) noexcept : v(x) {}
        vp_atomic(const vp_atomic&) = delete;
        vp_atomic& operator = (const vp_atomic&) = delete;
        bool is_lock_free() const { return true; }
        T load(memory_order = memory_order_seq_cst) const { sched::point(); return v; }
        void store(T x, memory_order = memory_order_seq_cst) { sched::point(); v = x; }
        operator T () const { return load(); }
        T operator = (T x) { store(x); return x; }
        T exchange(T x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = x; return o; }
        bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
            sched::point(); if (v == e) { v = x; return true; } e = v; return false;
        }
        bool compare_exchange_weak(T& e, T x, memory_order a = memory_order_seq_cst, memory_order = memory_order_seq_cst) { return compare_exchange_strong(e, x, a); }
        template<class U> T fetch_add(U x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = v + x; return o; }
        template<class U> T fetch_sub(U x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = v - x; return o; }
        T fetch_or(T x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = v | x; return o; }
        T fetch_and(T x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = v & x; return o; }
        T operator ++ () { return fetch_add(1) + 1; }
        T operator ++ (int) { return fetch_add(1); }
        T operator -- () { return fetch_sub(1) - 1; }
        T operator -- (int) { return fetch_sub(1); }
        template<class U> T operator += (U x) { return fetch_add(x) + x; }
        template<class U> T operator -= (U x) { return fetch_sub(x) - x; }
    };
    using vp_atomic_bool = vp_atomic<bool>;
    struct vp_atomic_flag {
        bool v = false;
        vp_atomic_flag() = default;
        vp_atomic_flag(int) {}
        bool test_and_set(memory_order = memory_order_seq_cst) { sched::point(); bool o = v; v = true; return o; }
        void clear(memory_order = memory_order_seq_cst) { sched::point(); v = false; }
    };
    struct vp_mutex {
        bool held = false;
        vp_mutex() = default; vp_mutex(const vp_mutex&) = delete;
        void lock() { sched::point(); sched::block([this] { return held; }); held = true; }
        bool try_lock() { sched::point(); if (held) return false; held = true; return true; }
        void unlock() { held = false; sched::point(); }
    };
    struct vp_condition_variable {
        long epoch = 0, woken = 0;
        void notify_one() { sched::point(); ++epoch; }
        void notify_all() { sched::point(); ++epoch; }
        template<class L> void wait(L& l) { long e = epoch; l.mutex()->held = false; sched::block([this,e] { return epoch == e; }); l.mutex()->lock(); }
        template<class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
        template<class L, class D, class P> bool wait_for(L& l, const D&, P p) { if (p()) return true; l.unlock(); sched::point(true); l.lock(); return p(); }
        template<class L, class D> cv_status wait_for(L& l, const D&) { l.unlock(); sched::point(true); l.lock(); return cv_status::no_timeout; }
    };
    struct vp_thread {
        int id_ = -1;
        using id = int;
        vp_thread() noexcept {}
        template<class F, class ... A, class = typename enable_if<!is_same<typename decay<F>::type, vp_thread>::value>::type>
        explicit vp_thread(F&& f, A&& ... a) {
            auto b = std::make_shared<decltype(std::bind(std::forward<F>(f), std::forward<A>(a)...))>(std::bind(std::forward<F>(f), std::forward<A>(a)...));
            id_ = sched::spawn([b] { (*b)(); });
            sched::point();
        }
        vp_thread(const vp_thread&) = delete;
        vp_thread(vp_thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
        vp_thread& operator = (vp_thread&& o) noexcept { if (joinable()) std::terminate(); id_ = o.id_; o.id_ = -1; return *this; }
        ~vp_thread() { if (joinable()) std::terminate(); }
        bool joinable() const { return id_ >= 0; }
        id get_id() const { return id_; }
        void join() { sched::point(); int k = id_; sched::block([k] { return !sched::W->f[k]->done; }); id_ = -1; }
        void detach() { id_ = -1; }
        void swap(vp_thread& o) { std::swap(id_, o.id_); }
        static unsigned hardware_concurrency() { return 4; }
    };
    namespace vp_this_thread {
        template<class D> void sleep_for(const D&) { sched::point(true); }
        template<class D> void sleep_until(const D&) { sched::point(true); }
        inline void yield() { sched::point(true); }
        inline int get_id() { return sched::W ? sched::W->cur : -1; }
    }
}
#endif
