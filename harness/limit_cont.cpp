// Replays histories of specs/LimitCont.tla on limit_allocator over an upstream without a default constructor.
#include <dice/template-library/limit_allocator.hpp>
#include "mbt.hpp"
#include <map>
#include <set>
#include <optional>
#include <utility>
#include <vector>
namespace dtl = dice::template_library;
static std::map<void *, std::pair<int, size_t>> live;
static std::string trouble;
static int last = 0;
template<class T, bool CA, bool MA, bool SW, int SO> struct Up {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<CA>;
    using propagate_on_container_move_assignment = std::bool_constant<MA>;
    using propagate_on_container_swap = std::bool_constant<SW>;
    using is_always_equal = std::false_type;
    template<class U> struct rebind { using other = Up<U, CA, MA, SW, SO>; };
    int id;
    Up(int a, int b) noexcept : id(a * 10 + b - 10) {}
    template<class U> Up(Up<U, CA, MA, SW, SO> const &o) noexcept : id(o.id) {}
    T *allocate(size_t n) {
        void *p = std::malloc(n * sizeof(T) + 1);
        live[p] = {id, n * sizeof(T)};
        last = id;
        return static_cast<T *>(p);
    }
    void deallocate(T *p, size_t n) {
        auto it = live.find(p);
        if (it == live.end() || it->second != std::pair{id, n * sizeof(T)}) { trouble += " deallocated elsewhere"; return; }
        live.erase(it);
        std::free(p);
    }
    Up select_on_container_copy_construction() const { Up r = *this; if (SO) r.id = SO; return r; }
    friend bool operator==(Up const &a, Up const &b) noexcept { return a.id == b.id; }
};
template<class T> using P = Up<T, true, true, true, 0>;
template<class T> using Q = Up<T, false, false, true, 2>;
template<class T> using R = Up<T, false, true, false, 1>;
template<class T> using S = Up<T, true, false, false, 0>;
#ifndef SYNC
#define SYNC sync
#endif
template<class T> using L = dtl::limit_allocator<T, KIND, dtl::limit_allocator_syncness::SYNC>;
using X = L<int>;
using Tr = std::allocator_traits<X>;
static constexpr size_t limit = 4096;

int main(int argc, char **argv) {
    std::optional<X> h[3];
    auto probe = [](X &x) -> int { // the upstream really used
        int *p = x.allocate(1);
        int i = last;
        x.deallocate(p, 1);
        return i == x.upstream_allocator().id ? i : 90 + i;
    };
    auto one_budget = [&]() -> std::string { // what the first takes, the second does not have
        int *p = h[1]->allocate(limit / sizeof(int)), *q = nullptr;
        bool fails = false;
        try { q = h[2]->allocate(1); } catch (std::bad_alloc const &) { fails = true; }
        if (q) h[2]->deallocate(q, 1);
        h[1]->deallocate(p, limit / sizeof(int));
        return fails ? " one budget" : " two budgets";
    };
    mbt::Harness H;
    H.reset = [&] { h[1].emplace(limit, std::in_place, 1, 1); h[2].emplace(*h[1]); trouble.clear(); };
    H.finish = [&] { h[1].reset(); h[2].reset(); std::string r = trouble; if (!live.empty()) r += " leaked blocks"; live.clear(); return r; };
    auto container = [&](std::string const &op, int k, X &src, auto make, auto check) -> std::string {
        auto v = make(src, 3), w = make(*h[k], 2);
        if (op == "copy") { auto x = v; h[k].emplace(x.get_allocator()); if (!check(x, 3) || !check(v, 3)) return "container contents"; }
        else if (op == "move") { auto x = std::move(v); h[k].emplace(x.get_allocator()); v.clear(); if (!check(x, 3)) return "container contents"; }
        else if (op == "asg") { w = std::as_const(v); h[k].emplace(w.get_allocator()); if (!check(w, 3) || !check(v, 3)) return "container contents"; }
        else if (op == "masg") { w = std::move(v); h[k].emplace(w.get_allocator()); if (!check(w, 3)) return "container contents"; }
        else if (op == "swap") { w.swap(v); h[k].emplace(w.get_allocator()); if (!check(w, 3) || !check(v, 2)) return "container contents"; }
        else throw mbt::HarnessError("op " + op);
        return "";
    };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto op = c.op();
        if (op == "eq") {
            X const &a = *h[1], &b = *h[2];
            bool e = a == b;
            if ((b == a) != e || (a != b) == e || !(a == a)) return "comparisons disagree";
            return e ? "T" : "F";
        }
        if (op == "traits") {
            auto f = []<class Z>(std::type_identity<Z>) { return mbt::cat(bool(Z::propagate_on_container_copy_assignment::value) ? "T" : "F", bool(Z::propagate_on_container_move_assignment::value) ? "T" : "F", bool(Z::propagate_on_container_swap::value) ? "T" : "F", bool(Z::is_always_equal::value) ? "T" : "F"); };
            auto r = f(std::type_identity<Tr>{});
            return r == f(std::type_identity<std::allocator_traits<L<long>>>{}) ? r : "traits depend on the value type";
        }
        std::string note;
        int k = op == "swap" ? 0 : int(c.i(1));
        if (op == "swap") swap(*h[1], *h[2]);
        else if (op == "lval" || op == "rval" || op == "inplace") {
            int id = int(c.i(2));
            KIND<int> u(1, id);
            if (op == "lval") h[k].emplace(limit, std::as_const(u));
            else if (op == "rval") h[k].emplace(limit, std::move(u));
            else h[k].emplace(limit, std::in_place, 1, id);
        } else {
            X &o = *h[c.i(2)];
            X const &src = o;
            if (op == "copy") h[k].emplace(src);
            else if (op == "move") h[k].emplace(std::move(o));
            else if (op == "asg") *h[k] = src;
            else if (op == "masg") *h[k] = std::move(o);
            else if (op == "rebind") { Tr::rebind_alloc<long> l(src); h[k].emplace(l); }
            else if (op == "rebindmove") { Tr::rebind_alloc<long> l(src); L<char> m(std::move(l)); h[k].emplace(std::move(m)); }
            else if (op == "soccc") h[k].emplace(Tr::select_on_container_copy_construction(src));
            else if (op[0] == 'v')
                note = container(op.substr(1), k, o, [](X const &a, int n) { return std::vector<int, X>(size_t(n), 7, a); },
                                 [](auto const &x, size_t n) { return x.size() == n && x[n - 1] == 7; });
            else
                note = container(op.substr(1), k, o, [](X const &a, int n) { std::set<int, std::less<>, X> m(a); for (int i = 0; i < n; ++i) m.insert(i); return m; },
                                 [](auto const &x, size_t n) { return x.size() == n && x.contains(int(n) - 1); });
        }
        return note + mbt::cat(probe(*h[1])) + mbt::cat(probe(*h[2])) + one_budget() + (live.empty() ? "" : " blocks left") + trouble;
    };
    return mbt::run(argc, argv, H);
}
