// mutex / shared_mutex and their guards under the deterministic scheduler
#include "explore.hpp"
#ifndef SHARED
#define SHARED 0
#endif
#define std vstd
#if SHARED
#include <dice/template-library/shared_mutex.hpp>
#else
#include <dice/template-library/mutex.hpp>
#endif
#undef std
namespace dtl = dice::template_library;
using vs::S;

struct Val {
    int v = 0;
    std::string text;
    mutable vs::Shadow sh;
    Val() = default;
    Val(int x, char const *) : v(x), text(std::to_string(x)) {}
    explicit Val(int x) : v(x), text(std::to_string(x)) {}
    Val(Val const &o) : v(o.v), text(o.text) {}
    Val(Val &&o) noexcept : v(o.v), text(std::move(o.text)) { o.v = -1; }
    void set(int x) { sh.write("protected value"); v = x; text = std::to_string(x); }
    int get() const { sh.read("protected value"); return text == std::to_string(v) || (v == 0 && text.empty()) ? v : 999; }
};
// a user-supplied mutex type
struct MyMutex : vstd::mutex { using Base = vstd::mutex; };
struct MyShared : vstd::shared_mutex {};

template<class Mtx> struct Run {
#if SHARED
    using M = dtl::shared_mutex<Val, Mtx>;
    using XG = dtl::shared_mutex_guard<Val, Mtx>;
    using SG = dtl::shared_mutex_guard<Val const, Mtx>;
#else
    using M = dtl::mutex<Val, Mtx>;
    using XG = dtl::mutex_guard<Val, Mtx>;
    struct SG { SG(SG &&) noexcept; };
#endif
    static constexpr int XS = 3; // slots 0..2 exclusive, 3..5 shared
    alignas(M) unsigned char mem[2][sizeof(M)];
    M *m[2];
    std::optional<XG> x[vs::MAXT][XS];
#if SHARED
    std::optional<SG> s[vs::MAXT][XS];
#endif
    bool held[vs::MAXT][6]{}; // destroyed or moved-from guards must not be dereferenced

    template<class G> void check_ptr(G &g, int mi) {
        if (g.operator->() != &*g) ex::bad("guard * and -> disagree");
        (void) mi;
    }
    void exec(std::string const &op, int t) {
        auto a = ex::split(op, ',');
        auto n = [&](size_t k) { return k < a.size() ? std::stoi(a[k]) : 0; };
        int g = n(1);
        auto rec = [&](char const *name, int s0, int mi = 0, int s2 = 0, int v = 0) { ex::inv(name, std::to_string(s0 + 10 * mi + 100 * s2 + 1000 * v)); };
        char k = a[0][0];
        auto &xs = x[t];
        if (std::strchr("MNSWR", k) && !engaged(t, g)) { ex::bad("no guard although the lock was free"); return; }
        if (std::strchr("NS", k) && !engaged(t, n(2))) { ex::bad("no guard although the lock was free"); return; }
        switch (k) {
            case 'L': rec("lock", g, n(2)); if (g < XS) xs[g].emplace(m[n(2)]->lock()); held[t][g] = true; ex::ret("ok"); break;
            case 'T': { rec("try_lock", g, n(2)); auto o = m[n(2)]->try_lock(); bool ok = o.has_value(); if (ok) { xs[g].emplace(std::move(*o)); held[t][g] = true; } o.reset(); ex::ret(ok ? "T" : "F"); break; }
#if SHARED
            case 'l': rec("lock_shared", g, n(2)); s[t][g - XS].emplace(std::as_const(*m[n(2)]).lock_shared()); held[t][g] = true; ex::ret("ok"); break;
            case 't': { rec("try_lock_shared", g, n(2)); auto o = std::as_const(*m[n(2)]).try_lock_shared(); bool ok = o.has_value(); if (ok) { s[t][g - XS].emplace(std::move(*o)); held[t][g] = true; } o.reset(); ex::ret(ok ? "T" : "F"); break; }
#endif
            case 'D': rec("destroy", g); destroy(t, g); ex::ret("ok"); break;
            case 'M': { int h = n(2); rec("move", g, 0, h);
                if (g < XS) xs[h].emplace(std::move(*xs[g]));
#if SHARED
                else s[t][h - XS].emplace(std::move(*s[t][g - XS]));
#endif
                std::swap(held[t][g], held[t][h]); held[t][g] = false; ex::ret("ok"); break; }
            case 'N': { int h = n(2); rec("assign", g, 0, h);
                if (g < XS) { XG &r = (*xs[h] = std::move(*xs[g])); if (&r != &*xs[h]) ex::bad("assignment returns another object"); }
#if SHARED
                else { SG &r = (*s[t][h - XS] = std::move(*s[t][g - XS])); if (&r != &*s[t][h - XS]) ex::bad("assignment returns another object"); }
#endif
                held[t][h] = held[t][g]; held[t][g] = false; ex::ret("ok"); break; }
            case 'S': { int h = n(2); rec("swap", g, 0, h);
                using std::swap;
                if (g < XS) swap(*xs[g], *xs[h]);
#if SHARED
                else swap(*s[t][g - XS], *s[t][h - XS]);
#endif
                std::swap(held[t][g], held[t][h]); ex::ret("ok"); break; }
            case 'W': rec("write", g, 0, 0, n(2)); (*xs[g])->set(n(2)); if (xs[g]->operator->() != &**xs[g]) ex::bad("guard * and -> disagree"); ex::ret("ok"); break;
            case 'R': { rec("read", g); int v = 0, w = 0; // which mutex's value is it?
                Val const *p = nullptr;
                if (g < XS) { p = &**xs[g]; if (xs[g]->operator->() != p) ex::bad("guard * and -> disagree"); }
#if SHARED
                else { p = &**s[t][g - XS]; if (s[t][g - XS]->operator->() != p) ex::bad("guard * and -> disagree"); }
#endif
                v = p->get();
                for (int i = 0; i < 2; ++i) if ((unsigned char const *) p >= mem[i] && (unsigned char const *) p < mem[i] + sizeof(M)) w = i + 1;
                ex::ret("val", std::to_string(v * 10 + w)); break; }
            default: std::fprintf(stderr, "harness error: op %s\n", op.c_str()); std::_Exit(4);
        }
    }
    void destroy(int t, int g) {
        if (S.cur < 0) vs::join(S.vc(), S.f[t].vc); // main acts for the finished thread
        if (g < XS) x[t][g].reset();
#if SHARED
        else s[t][g - XS].reset();
#endif
        held[t][g] = false;
    }
    bool engaged(int t, int g) {
        if (g < XS) return x[t][g].has_value();
#if SHARED
        return s[t][g - XS].has_value();
#else
        return false;
#endif
    }
    void operator()(ex::Scenario const &sc) {
        for (int t = 0; t < vs::MAXT; ++t) for (int g = 0; g < 6; ++g) { // abandoned guards of a previous run
            if (g < XS) std::memset((void *) &x[t][g], 0, sizeof x[t][g]);
#if SHARED
            else std::memset((void *) &s[t][g - XS], 0, sizeof s[t][g - XS]);
#endif
            held[t][g] = false;
        }
        char how = sc.head[0];
        for (int i = 0; i < 2; ++i) {
            int v = how == '0' ? 0 : 40 + i;
            Val init(v);
            if (how == '0') m[i] = new (mem[i]) M();
            else if (how == '1') m[i] = new (mem[i]) M(std::as_const(init));
            else if (how == '2') m[i] = new (mem[i]) M(std::move(init));
            else m[i] = new (mem[i]) M(std::in_place, v, "x");
        }
        S.nthreads = int(sc.threads.size());
        for (int t = 0; t < S.nthreads; ++t)
            S.spawn(t, [this, t, &ops = sc.threads[size_t(t)]] { for (auto const &o : ops) if (!o.empty()) exec(o, t); });
        bool all = S.run();
        if (S.overrun) return;
        ex::quiesce();
        for (int round = 0; round < 6 && !all; ++round) { // finished threads let go of their guards
            bool any = false;
            for (int t = 0; t < S.nthreads; ++t) if (S.f[t].done) for (int g = 0; g < 6; ++g) if (engaged(t, g)) {
                ex::H.push_back({'i', t, "destroy", std::to_string(g)});
                destroy(t, g);
                ex::H.push_back({'r', t, "ok", "0"});
                any = true;
                break;
            }
            if (!any) break;
            all = S.run();
            if (S.overrun) return;
            ex::quiesce();
        }
        for (int i = 0; i < 2; ++i) { // what is still locked?
            ex::inv("try_lock", std::to_string(10 * i));
            { auto o = m[i]->try_lock(); ex::ret(o ? "T" : "F"); if (o) { ex::inv("destroy", "0"); o.reset(); ex::ret("ok"); } }
#if SHARED
            ex::inv("try_lock_shared", std::to_string(3 + 10 * i));
            { auto o = m[i]->try_lock_shared(); ex::ret(o ? "T" : "F"); if (o) { ex::inv("destroy", "3"); o.reset(); ex::ret("ok"); } }
#endif
        }
        if (!all) return;
        for (int t = 0; t < S.nthreads; ++t) for (int g = 0; g < 6; ++g) if (engaged(t, g)) {
            ex::H.push_back({'i', t, "destroy", std::to_string(g)});
            destroy(t, g);
            ex::H.push_back({'r', t, "ok", "0"});
        }
        for (int i = 0; i < 2; ++i) {
            ex::inv("try_lock", std::to_string(10 * i));
            { auto o = m[i]->try_lock(); ex::ret(o ? "T" : "F"); }
            if (ex::H.back().a == "T") { ex::inv("destroy", "0"); ex::ret("ok"); }
            m[i]->~M();
        }
    }
};

int main(int argc, char **argv) {
#if SHARED
    static Run<vstd::shared_mutex> a;
    static Run<MyShared> b;
#else
    static Run<vstd::mutex> a;
    static Run<MyMutex> b;
#endif
    return ex::main_loop(argc, argv, [&](ex::Scenario const &sc) { if (sc.head.back() == 'U') b(sc); else a(sc); });
}
