// Deterministic scheduler: runs several "threads" as fibers and explores their interleavings.
// The library headers are compiled with std:: replaced by vstd::, in which every synchronisation
// primitive is a scheduling point of this scheduler and carries vector clocks for data-race detection.
#ifndef VERIF_VSCHED_HPP
#define VERIF_VSCHED_HPP
#include <bits/stdc++.h>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>

extern "C" void vs_switch(void **from_sp, void *to_sp);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vs_switch,.-vs_switch
)");

namespace vs {
constexpr int MAXT = 8;
using Clock = std::array<uint32_t, MAXT>;
inline void join(Clock &a, Clock const &b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    std::function<void()> fn;
    bool done = true;
    void const *waiting = nullptr;   // condition variable / mutex / atomic it is blocked on
    bool is_cv = false;              // waiting on a condition variable (may wake up spuriously)
    bool shared = false;
    uint64_t seq = 0;
    Clock vc{}, acqp{}, relf{};      // acqp: what relaxed loads have seen (for an acquire fence), relf: at the last release fence
    char eh[2 * sizeof(void *)] = {};
};

struct Choice { int n, pick; };

struct Sched {
    static constexpr size_t STACK = 128 * 1024;
    Fiber f[MAXT];
    int nthreads = 0, cur = -1;
    void *main_sp = nullptr;
    char main_eh[2 * sizeof(void *)] = {};
    std::vector<Choice> path;
    size_t pos = 0;
    bool random = false, pct = false;
    int prio[MAXT] = {}, low = 0;
    uint64_t change[4] = {};
    std::mt19937_64 rng{1};
    int preemptions = 0, preempt_bound = 2, spurious = 0, spurious_bound = 1, weak = 0, weak_bound = 1;
    uint64_t steps = 0, max_steps = 20000;
    bool overrun = false, abandon = false, no_preempt = false;
    uint64_t wait_seq = 0;
    std::function<void(std::string const &)> on_event; // race etc.
    uint64_t switches = 0;

    int choose(int n) {
        if (n <= 1) return 0;
        if (random) return int(rng() % uint64_t(n));
        if (pos < path.size()) {
            if (path[pos].n != n) { std::fprintf(stderr, "harness error: replay diverged (%d vs %d)\n", path[pos].n, n); std::_Exit(4); }
            return path[pos++].pick;
        }
        path.push_back({n, 0});
        ++pos;
        return 0;
    }
    bool advance() { // next schedule in depth-first order
        while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
        if (path.empty()) return false;
        ++path.back().pick;
        return true;
    }
    static void save_eh(char *d) { std::memcpy(d, (void *) abi::__cxa_get_globals(), 2 * sizeof(void *)); }
    static void load_eh(char const *d) { std::memcpy((void *) abi::__cxa_get_globals(), d, 2 * sizeof(void *)); }

    void to_fiber_from_main(int t) { save_eh(main_eh); load_eh(f[t].eh); cur = t; ++switches; vs_switch(&main_sp, f[t].sp); }
    void fiber_to(int t) { // from the current fiber to another one (or to main if t < 0)
        int me = cur;
        if (t == me) return;
        save_eh(f[me].eh);
        ++switches;
        if (t < 0) { load_eh(main_eh); cur = -1; vs_switch(&f[me].sp, main_sp); }
        else { load_eh(f[t].eh); cur = t; vs_switch(&f[me].sp, f[t].sp); }
    }
    static void entry();
    void spawn(int t, std::function<void()> fn) {
        Fiber &x = f[t];
        if (!x.stack) x.stack = (char *) ::mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        x.fn = std::move(fn);
        x.done = false; x.waiting = nullptr; x.is_cv = false;
        x.vc = x.acqp = x.relf = {};
        x.vc[t] = 1;
        std::memset(x.eh, 0, sizeof x.eh);
        auto *top = reinterpret_cast<uint64_t *>(x.stack + STACK);
        *--top = 0;                                   // alignment / fake return address
        *--top = reinterpret_cast<uint64_t>(&entry);  // ret target
        for (int i = 0; i < 6; ++i) *--top = 0;
        x.sp = top;
    }
    bool runnable(int t) const { return !f[t].done && !f[t].waiting; }

    // pick the next thread to run; me is the current one (may be blocked or done)
    int pick(bool voluntary) {
        int opts[3 * MAXT], n = 0;
        bool me_ok = cur >= 0 && runnable(cur);
        if (random) {
            for (int t = 0; t < nthreads; ++t) if (runnable(t)) opts[n++] = t;
            if (spurious < spurious_bound && rng() % 16 == 0)
                for (int t = 0; t < nthreads; ++t) if (!f[t].done && f[t].waiting && f[t].is_cv) opts[n++] = MAXT + t;
            if (n == 0) return -1;
            if (pct) { // priority based, with a few priority changes
                for (auto ch : change) if (ch == steps && cur >= 0) prio[cur] = --low;
                if (voluntary && cur >= 0) prio[cur] = --low;
                int b = opts[0];
                for (int i = 1; i < n; ++i) if (prio[opts[i] % MAXT] > prio[b % MAXT]) b = opts[i];
                return take(b);
            }
            int o = me_ok && rng() % 3 ? cur : opts[rng() % uint64_t(n)];
            return take(o);
        }
        if (me_ok && !voluntary) opts[n++] = cur;
        if (!me_ok || voluntary || preemptions < preempt_bound)
            for (int t = 0; t < nthreads; ++t) if (t != cur && runnable(t)) opts[n++] = t;
        if (me_ok && voluntary && n == 0) opts[n++] = cur;
        if (n == 0) return -1;
        if (spurious < spurious_bound && preemptions < preempt_bound)
            for (int t = 0; t < nthreads; ++t) if (!f[t].done && f[t].waiting && f[t].is_cv) opts[n++] = MAXT + t;
        int o = opts[choose(n)];
        if (me_ok && !voluntary && o != cur) ++preemptions;
        return take(o);
    }
    int take(int o) {
        if (o >= MAXT) { o -= MAXT; ++spurious; ++preemptions; f[o].waiting = nullptr; f[o].is_cv = false; }
        return o;
    }
    // ---- called from fibers
    void point(bool voluntary = false) { // a visible operation follows
        if (cur < 0) return;
        if (++steps > max_steps) { overrun = true; fiber_to(-1); std::abort(); }
        fiber_to(pick(voluntary));
    }
    void block(void const *on, bool cv) {
        if (cur < 0) { std::fprintf(stderr, "harness error: main blocked\n"); std::_Exit(4); }
        f[cur].waiting = on;
        f[cur].is_cv = cv;
        f[cur].seq = ++wait_seq;
        fiber_to(pick(false));
    }
    Clock &vc() { static Clock main_vc{}; return cur < 0 ? main_vc : f[cur].vc; }
    Clock &acqp() { static Clock m{}; return cur < 0 ? m = {} : f[cur].acqp; }
    Clock &relf() { static Clock m{}; return cur < 0 ? m = {} : f[cur].relf; }
    void tick() { if (cur >= 0) ++f[cur].vc[cur]; }
    void wake_all(void const *on) { for (int t = 0; t < nthreads; ++t) if (!f[t].done && f[t].waiting == on) { f[t].waiting = nullptr; f[t].is_cv = false; } }
    void wake_one(void const *on) {
        int w[MAXT], n = 0;
        for (int t = 0; t < nthreads; ++t) if (!f[t].done && f[t].waiting == on) w[n++] = t;
        if (n == 0) return;
        std::sort(w, w + n, [&](int a, int b) { return f[a].seq < f[b].seq; });
        int k = random || preemptions < preempt_bound ? choose(n) : 0;
        if (k) ++preemptions;
        int t = w[k];
        f[t].waiting = nullptr; f[t].is_cv = false;
    }
    // ---- called from main: run until nothing can move. true: all threads finished
    bool run() {
        int t = pick(true);
        if (t >= 0) to_fiber_from_main(t);
        for (int i = 0; i < nthreads; ++i) if (!f[i].done) return false;
        return true;
    }
    void event(std::string const &e) { if (on_event) on_event(e); }
    void begin_run() {
        pos = 0; preemptions = spurious = weak = 0; steps = 0; overrun = false; wait_seq = 0; cur = -1;
        vc() = {};
        for (auto &x : f) { x.done = true; x.waiting = nullptr; }
        if (random) {
            pct = rng() % 2;
            low = 0;
            for (auto &p : prio) p = int(rng() % 1000 + 1);
            size_t k = 0, d = rng() % 4;
            for (auto &ch : change) ch = k++ < d ? 1 + rng() % 40 : 0;
        }
    }
};
inline Sched S;
inline void Sched::entry() {
    int me = S.cur;
    S.f[me].fn();
    S.f[me].done = true;
    S.f[me].fn = nullptr;
    int t = S.pick(false);
    S.fiber_to(t);
    std::abort();
}

// data-race detection state of one object
struct Shadow {
    Clock r{}, w{};
    constexpr Shadow() = default;
    constexpr Shadow(Shadow const &) {}
    constexpr Shadow &operator=(Shadow const &) { return *this; }
    void read(char const *what) {
        if (S.cur < 0) return;
        for (int i = 0; i < MAXT; ++i) if (i != S.cur && w[i] > S.vc()[i]) { S.event(std::string("race ") + what); return; }
        r[S.cur] = S.vc()[S.cur];
    }
    void write(char const *what) {
        if (S.cur < 0) return;
        for (int i = 0; i < MAXT; ++i) if (i != S.cur && (w[i] > S.vc()[i] || r[i] > S.vc()[i])) { S.event(std::string("race ") + what); return; }
        w[S.cur] = S.vc()[S.cur];
    }
};
} // namespace vs

namespace vstd {
using namespace std;

struct mutex {
    bool locked = false;
    vs::Clock c{};
    int owner = -1;
    constexpr mutex() noexcept = default;
    mutex(mutex const &) = delete;
    mutex &operator=(mutex const &) = delete;
    void lock() {
        vs::S.point();
        while (locked) {
            if (vs::S.cur < 0) { vs::S.event("deadlock"); return; }
            vs::S.block(this, false);
        }
        locked = true; owner = vs::S.cur;
        vs::join(vs::S.vc(), c);
    }
    bool try_lock() {
        vs::S.point();
        if (locked) return false;
        locked = true; owner = vs::S.cur;
        vs::join(vs::S.vc(), c);
        return true;
    }
    void unlock() {
        if (!locked || (owner != vs::S.cur && vs::S.cur >= 0)) vs::S.event("bad-unlock");
        release();
    }
    void release() {
        locked = false; owner = -1;
        vs::join(c, vs::S.vc());
        vs::S.tick();
        vs::S.wake_all(this);
    }
    void *native_handle() { return nullptr; }
};
struct timed_mutex : mutex {
    template<class D> bool try_lock_for(D const &) { return try_lock(); }
    template<class D> bool try_lock_until(D const &) { return try_lock(); }
};
struct recursive_mutex {
    mutex m;
    int depth = 0;
    constexpr recursive_mutex() noexcept = default;
    void lock() { if (m.locked && m.owner == vs::S.cur) { ++depth; return; } m.lock(); depth = 1; }
    bool try_lock() { if (m.locked && m.owner == vs::S.cur) { ++depth; return true; } if (!m.try_lock()) return false; depth = 1; return true; }
    void unlock() { if (--depth == 0) m.unlock(); }
};
using recursive_timed_mutex = recursive_mutex;
struct shared_mutex {
    int readers = 0;
    bool writer = false;
    int owner = -1;
    vs::Clock cw{}, cr{};
    constexpr shared_mutex() noexcept = default;
    shared_mutex(shared_mutex const &) = delete;
    shared_mutex &operator=(shared_mutex const &) = delete;
    void lock() {
        vs::S.point();
        while (writer || readers) { if (vs::S.cur < 0) { vs::S.event("deadlock"); return; } vs::S.block(this, false); }
        writer = true; owner = vs::S.cur;
        vs::join(vs::S.vc(), cw); vs::join(vs::S.vc(), cr);
    }
    bool try_lock() {
        vs::S.point();
        if (writer || readers) return false;
        writer = true; owner = vs::S.cur;
        vs::join(vs::S.vc(), cw); vs::join(vs::S.vc(), cr);
        return true;
    }
    void unlock() {
        if (!writer || (owner != vs::S.cur && vs::S.cur >= 0)) vs::S.event("bad-unlock");
        writer = false;
        vs::join(cw, vs::S.vc()); vs::S.tick(); vs::S.wake_all(this);
    }
    void lock_shared() {
        vs::S.point();
        while (writer) { if (vs::S.cur < 0) { vs::S.event("deadlock"); return; } vs::S.block(this, false); }
        ++readers;
        vs::join(vs::S.vc(), cw);
    }
    bool try_lock_shared() {
        vs::S.point();
        if (writer) return false;
        ++readers;
        vs::join(vs::S.vc(), cw);
        return true;
    }
    void unlock_shared() {
        if (readers <= 0) vs::S.event("bad-unlock"); else --readers;
        vs::join(cr, vs::S.vc()); vs::S.tick(); vs::S.wake_all(this);
    }
};
struct shared_timed_mutex : shared_mutex {
    template<class D> bool try_lock_for(D const &) { return try_lock(); }
    template<class D> bool try_lock_until(D const &) { return try_lock(); }
    template<class D> bool try_lock_shared_for(D const &) { return try_lock_shared(); }
    template<class D> bool try_lock_shared_until(D const &) { return try_lock_shared(); }
};

struct condition_variable_any {
    char dummy = 0;
    constexpr condition_variable_any() noexcept = default;
    condition_variable_any(condition_variable_any const &) = delete;
    condition_variable_any &operator=(condition_variable_any const &) = delete;
    void notify_one() noexcept { vs::S.point(); vs::S.wake_one(this); }
    void notify_all() noexcept { vs::S.point(); vs::S.wake_all(this); }
    void wait_on(mutex &m) { // atomically release and sleep, then take the mutex again
        if (!m.locked || m.owner != vs::S.cur) vs::S.event("wait-without-lock");
        m.release();
        vs::S.block(this, true);
        while (m.locked) vs::S.block(&m, false);
        m.locked = true; m.owner = vs::S.cur;
        vs::join(vs::S.vc(), m.c);
    }
    template<class L> void wait(L &l) {
        vs::S.point();
        if constexpr (std::is_same_v<L, std::unique_lock<mutex>>) wait_on(*l.mutex());
        else { // releasing may switch threads, so the notification could be lost: register first
            l.unlock();
            vs::S.block(this, true);
            l.lock();
        }
    }
    template<class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
    template<class L, class D> cv_status wait_for(L &l, D const &) { vs::S.point(); l.unlock(); vs::S.point(true); l.lock(); return cv_status::timeout; }
    template<class L, class D, class P> bool wait_for(L &l, D const &d, P p) { while (!p()) if (wait_for(l, d) == cv_status::timeout) return p(); return true; }
    template<class L, class D> cv_status wait_until(L &l, D const &d) { return wait_for(l, d); }
    template<class L, class D, class P> bool wait_until(L &l, D const &d, P p) { return wait_for(l, d, p); }
};
struct condition_variable : condition_variable_any {};

template<class T> struct atomic {
    T v{};
    vs::Clock c{};
    constexpr atomic() noexcept = default;
    constexpr atomic(T x) noexcept : v(x) {}
    atomic(atomic const &) = delete;
    atomic &operator=(atomic const &) = delete;
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const noexcept { return true; }
    static bool acq(memory_order m) { return m != memory_order_relaxed && m != memory_order_release; }
    static bool rel(memory_order m) { return m == memory_order_release || m == memory_order_acq_rel || m == memory_order_seq_cst; }
    void do_store(memory_order m) { if (rel(m)) { c = vs::S.vc(); vs::S.tick(); } else c = vs::S.relf(); }
    void seen() const { vs::join(vs::S.acqp(), c); }
    void do_rmw(memory_order m) { seen(); if (acq(m)) vs::join(vs::S.vc(), c); if (rel(m)) { vs::join(c, vs::S.vc()); vs::S.tick(); } else vs::join(c, vs::S.relf()); }
    T load(memory_order m = memory_order_seq_cst) const noexcept { vs::S.point(); seen(); if (acq(m)) vs::join(vs::S.vc(), c); return v; }
    operator T() const noexcept { return load(); }
    void store(T x, memory_order m = memory_order_seq_cst) noexcept { vs::S.point(); v = x; do_store(m); }
    T operator=(T x) noexcept { store(x); return x; }
    T exchange(T x, memory_order m = memory_order_seq_cst) noexcept { vs::S.point(); T o = v; v = x; do_rmw(m); return o; }
    bool compare_exchange_strong(T &e, T d, memory_order s, memory_order f) noexcept {
        vs::S.point();
        if (v == e) { v = d; do_rmw(s); return true; }
        e = v; seen(); if (acq(f)) vs::join(vs::S.vc(), c);
        return false;
    }
    bool compare_exchange_weak(T &e, T d, memory_order s, memory_order f) noexcept {
        vs::S.point();
        if (v == e && vs::S.weak < vs::S.weak_bound && vs::S.preemptions < vs::S.preempt_bound && vs::S.choose(2) == 1) { ++vs::S.weak; ++vs::S.preemptions; seen(); if (acq(f)) vs::join(vs::S.vc(), c); return false; }
        if (v == e) { v = d; do_rmw(s); return true; }
        e = v; seen(); if (acq(f)) vs::join(vs::S.vc(), c);
        return false;
    }
    static memory_order fo(memory_order m) { return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m; }
    bool compare_exchange_strong(T &e, T d, memory_order m = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, m, fo(m)); }
    bool compare_exchange_weak(T &e, T d, memory_order m = memory_order_seq_cst) noexcept { return compare_exchange_weak(e, d, m, fo(m)); }
    template<class F> T rmw(F f, memory_order m) { vs::S.point(); T o = v; v = f(o); do_rmw(m); return o; }
    template<class U> T fetch_add(U x, memory_order m = memory_order_seq_cst) noexcept { return rmw([&](T o) { return T(o + x); }, m); }
    template<class U> T fetch_sub(U x, memory_order m = memory_order_seq_cst) noexcept { return rmw([&](T o) { return T(o - x); }, m); }
    template<class U> T fetch_or(U x, memory_order m = memory_order_seq_cst) noexcept { return rmw([&](T o) { return T(o | x); }, m); }
    template<class U> T fetch_and(U x, memory_order m = memory_order_seq_cst) noexcept { return rmw([&](T o) { return T(o & x); }, m); }
    template<class U> T fetch_xor(U x, memory_order m = memory_order_seq_cst) noexcept { return rmw([&](T o) { return T(o ^ x); }, m); }
    T operator++() noexcept { return T(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return T(fetch_sub(1) - 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<class U> T operator+=(U x) noexcept { return T(fetch_add(x) + x); }
    template<class U> T operator-=(U x) noexcept { return T(fetch_sub(x) - x); }
    void wait(T old, memory_order m = memory_order_seq_cst) const noexcept { while (load(m) == old) vs::S.block(this, false); }
    void notify_one() noexcept { vs::S.point(); vs::S.wake_one(this); }
    void notify_all() noexcept { vs::S.point(); vs::S.wake_all(this); }
};
using atomic_bool = atomic<bool>;
using atomic_size_t = atomic<size_t>;
using atomic_int = atomic<int>;

struct atomic_flag {
    atomic<bool> a;
    constexpr atomic_flag() noexcept = default;
    constexpr atomic_flag(bool b) noexcept : a(b) {}
    constexpr atomic_flag(int b) noexcept : a(b != 0) {}
    atomic_flag(atomic_flag const &) = delete;
    atomic_flag &operator=(atomic_flag const &) = delete;
    bool test(memory_order m = memory_order_seq_cst) const noexcept { return a.load(m); }
    bool test_and_set(memory_order m = memory_order_seq_cst) noexcept { return a.exchange(true, m); }
    void clear(memory_order m = memory_order_seq_cst) noexcept { a.store(false, m); }
    void wait(bool old, memory_order m = memory_order_seq_cst) const noexcept { a.wait(old, m); }
    void notify_one() noexcept { a.notify_one(); }
    void notify_all() noexcept { a.notify_all(); }
};
inline void atomic_thread_fence(memory_order m) noexcept {
    vs::S.point();
    if (atomic<int>::acq(m)) vs::join(vs::S.vc(), vs::S.acqp());
    if (atomic<int>::rel(m)) { vs::S.relf() = vs::S.vc(); vs::S.tick(); }
}
// the free functions
#define VS_FREE(name, memb) \
template<class T, class... X> auto atomic_##name(atomic<T> *a, X... x) noexcept { return a->memb(x...); } \
template<class T, class... X> auto atomic_##name##_explicit(atomic<T> *a, X... x) noexcept { return a->memb(x...); }
VS_FREE(store, store) VS_FREE(exchange, exchange) VS_FREE(fetch_add, fetch_add) VS_FREE(fetch_sub, fetch_sub)
VS_FREE(fetch_or, fetch_or) VS_FREE(fetch_and, fetch_and) VS_FREE(fetch_xor, fetch_xor)
#undef VS_FREE
template<class T> T atomic_load(atomic<T> const *a) noexcept { return a->load(); }
template<class T> T atomic_load_explicit(atomic<T> const *a, memory_order m) noexcept { return a->load(m); }
template<class T, class... M> bool atomic_compare_exchange_strong(atomic<T> *a, T *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_strong(*e, d); }
template<class T, class... M> bool atomic_compare_exchange_weak(atomic<T> *a, T *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_weak(*e, d); }
template<class T> bool atomic_compare_exchange_strong_explicit(atomic<T> *a, T *e, std::type_identity_t<T> d, memory_order s, memory_order f) noexcept { return a->compare_exchange_strong(*e, d, s, f); }
template<class T> bool atomic_compare_exchange_weak_explicit(atomic<T> *a, T *e, std::type_identity_t<T> d, memory_order s, memory_order f) noexcept { return a->compare_exchange_weak(*e, d, s, f); }
template<class T> void atomic_wait(atomic<T> const *a, std::type_identity_t<T> o) noexcept { a->wait(o); }
template<class T> void atomic_notify_one(atomic<T> *a) noexcept { a->notify_one(); }
template<class T> void atomic_notify_all(atomic<T> *a) noexcept { a->notify_all(); }
inline bool atomic_flag_test(atomic_flag const *a) noexcept { return a->test(); }
inline bool atomic_flag_test_explicit(atomic_flag const *a, memory_order m) noexcept { return a->test(m); }
inline bool atomic_flag_test_and_set(atomic_flag *a) noexcept { return a->test_and_set(); }
inline bool atomic_flag_test_and_set_explicit(atomic_flag *a, memory_order m) noexcept { return a->test_and_set(m); }
inline void atomic_flag_clear(atomic_flag *a) noexcept { a->clear(); }
inline void atomic_flag_clear_explicit(atomic_flag *a, memory_order m) noexcept { a->clear(m); }
// a reference to a plain object: the clock lives beside it
template<class T> struct atomic_ref {
    T *p;
    static std::map<void const *, vs::Clock> &clocks() { static std::map<void const *, vs::Clock> m; return m; }
    static constexpr size_t required_alignment = alignof(T);
    static constexpr bool is_always_lock_free = true;
    explicit atomic_ref(T &x) : p(&x) {}
    T load(memory_order m = memory_order_seq_cst) const noexcept { vs::S.point(); auto &c = clocks()[p]; vs::join(vs::S.acqp(), c); if (atomic<T>::acq(m)) vs::join(vs::S.vc(), c); return *p; }
    operator T() const noexcept { return load(); }
    void store(T x, memory_order m = memory_order_seq_cst) const noexcept { vs::S.point(); *p = x; if (atomic<T>::rel(m)) { clocks()[p] = vs::S.vc(); vs::S.tick(); } else clocks()[p] = vs::S.relf(); }
    void done_rmw(memory_order m) const { auto &c = clocks()[p]; vs::join(vs::S.acqp(), c); if (atomic<T>::acq(m)) vs::join(vs::S.vc(), c); if (atomic<T>::rel(m)) { vs::join(c, vs::S.vc()); vs::S.tick(); } else vs::join(c, vs::S.relf()); }
    template<class F> T rmw(F f, memory_order m) const { vs::S.point(); T o = *p; *p = f(o); done_rmw(m); return o; }
    T exchange(T x, memory_order m = memory_order_seq_cst) const noexcept { return rmw([&](T) { return x; }, m); }
    bool compare_exchange_strong(T &e, T d, memory_order m = memory_order_seq_cst) const noexcept { vs::S.point(); if (*p == e) { *p = d; done_rmw(m); return true; } auto &c = clocks()[p]; vs::join(vs::S.acqp(), c); if (atomic<T>::acq(m)) vs::join(vs::S.vc(), c); e = *p; return false; }
    bool compare_exchange_strong(T &e, T d, memory_order m, memory_order) const noexcept { return compare_exchange_strong(e, d, m); }
    bool compare_exchange_weak(T &e, T d, memory_order m = memory_order_seq_cst) const noexcept { return compare_exchange_strong(e, d, m); }
    bool compare_exchange_weak(T &e, T d, memory_order m, memory_order) const noexcept { return compare_exchange_strong(e, d, m); }
    T fetch_add(T x, memory_order m = memory_order_seq_cst) const noexcept { return rmw([&](T o) { return T(o + x); }, m); }
    T fetch_sub(T x, memory_order m = memory_order_seq_cst) const noexcept { return rmw([&](T o) { return T(o - x); }, m); }
};

template<ptrdiff_t Max = 1 << 20> struct counting_semaphore {
    ptrdiff_t n;
    vs::Clock c{};
    constexpr explicit counting_semaphore(ptrdiff_t x) : n(x) {}
    void acquire() { vs::S.point(); while (n == 0) vs::S.block(this, false); --n; vs::join(vs::S.vc(), c); }
    bool try_acquire() noexcept { vs::S.point(); if (n == 0) return false; --n; vs::join(vs::S.vc(), c); return true; }
    void release(ptrdiff_t k = 1) { vs::S.point(); n += k; vs::join(c, vs::S.vc()); vs::S.tick(); vs::S.wake_all(this); }
};
using binary_semaphore = counting_semaphore<1>;

namespace this_thread {
    using namespace std::this_thread;
    inline void yield() noexcept { vs::S.point(true); }
    template<class D> void sleep_for(D const &) { vs::S.point(true); }
}

// containers used for shared state, watched for unsynchronised accesses
template<class T, class A = std::allocator<T>> struct deque : std::deque<T, A> {
    using B = std::deque<T, A>;
    mutable vs::Shadow sh;
    using B::B;
    deque() = default;
    void rd() const { sh.read("container"); }
    void wr() { sh.write("container"); }
    bool empty() const noexcept { rd(); return B::empty(); }
    size_t size() const noexcept { rd(); return B::size(); }
    T &front() { rd(); return B::front(); }
    T const &front() const { rd(); return B::front(); }
    T &back() { rd(); return B::back(); }
    T const &back() const { rd(); return B::back(); }
    auto begin() { rd(); return B::begin(); }
    auto end() { rd(); return B::end(); }
    auto begin() const { rd(); return B::begin(); }
    auto end() const { rd(); return B::end(); }
    T &operator[](size_t i) { rd(); return B::operator[](i); }
    template<class... X> decltype(auto) emplace_back(X &&...x) { wr(); return B::emplace_back(std::forward<X>(x)...); }
    template<class... X> decltype(auto) emplace_front(X &&...x) { wr(); return B::emplace_front(std::forward<X>(x)...); }
    void push_back(T const &x) { wr(); B::push_back(x); }
    void push_back(T &&x) { wr(); B::push_back(std::move(x)); }
    void push_front(T const &x) { wr(); B::push_front(x); }
    void push_front(T &&x) { wr(); B::push_front(std::move(x)); }
    void pop_front() { wr(); B::pop_front(); }
    void pop_back() { wr(); B::pop_back(); }
    void clear() { wr(); B::clear(); }
    template<class... X> decltype(auto) erase(X &&...x) { wr(); return B::erase(std::forward<X>(x)...); }
};
template<class T> struct optional : std::optional<T> {
    using B = std::optional<T>;
    mutable vs::Shadow sh;
    constexpr optional() noexcept = default;
    constexpr optional(std::nullopt_t) noexcept {}
    optional(optional const &) = default;
    optional(optional &&) = default;
    optional(B const &b) : B(b) {}
    optional(B &&b) : B(std::move(b)) {}
    template<class... X> explicit optional(std::in_place_t t, X &&...x) : B(t, std::forward<X>(x)...) {}
    template<class U = T> requires (!std::is_base_of_v<B, std::remove_cvref_t<U>> && std::is_constructible_v<T, U> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>)
    optional(U &&u) : B(std::in_place, std::forward<U>(u)) {}
    void rd() const { sh.read("value slot"); }
    void wr() { sh.write("value slot"); }
    optional &operator=(std::nullopt_t) { wr(); B::reset(); return *this; }
    optional &operator=(optional const &o) { o.rd(); wr(); B::operator=(static_cast<B const &>(o)); return *this; }
    optional &operator=(optional &&o) noexcept(std::is_nothrow_move_assignable_v<B>) { o.rd(); wr(); B::operator=(static_cast<B &&>(o)); return *this; }
    template<class U = T> requires (!std::is_base_of_v<B, std::remove_cvref_t<U>> && std::is_constructible_v<T, U>)
    optional &operator=(U &&u) { wr(); B::operator=(std::forward<U>(u)); return *this; }
    bool has_value() const noexcept { rd(); return B::has_value(); }
    explicit operator bool() const noexcept { rd(); return B::has_value(); }
    T &operator*() & { rd(); return B::operator*(); }
    T const &operator*() const & { rd(); return B::operator*(); }
    T &&operator*() && { rd(); return std::move(B::operator*()); }
    T *operator->() { rd(); return B::operator->(); }
    T const *operator->() const { rd(); return B::operator->(); }
    T &value() & { rd(); return B::value(); }
    T const &value() const & { rd(); return B::value(); }
    T &&value() && { rd(); return std::move(B::value()); }
    template<class... X> T &emplace(X &&...x) { wr(); return B::emplace(std::forward<X>(x)...); }
    void reset() noexcept { wr(); B::reset(); }
    void swap(optional &o) { wr(); o.wr(); B::swap(o); }
};
} // namespace vstd

namespace std { template<class T> void swap(vstd::optional<T> &a, vstd::optional<T> &b) { a.swap(b); } }
#endif
