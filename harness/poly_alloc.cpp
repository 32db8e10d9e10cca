// OFFSET=0: polymorphic_allocator<T, ALTS...>; 1: offset_ptr_stl_allocator<T, ALTS>; 2: polymorphic_allocator over offset-pointer allocators
#include <boost/interprocess/offset_ptr.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include "mbt.hpp"
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <utility>
#include <vector>
namespace dtl = dice::template_library;

struct Rec { char kind; int id; size_t n, sz; };
static std::map<void *, Rec> live;
static std::string trouble, last;
static bool fail_next = false;
template<class T, char Kind, bool CA, bool MA, bool SW, bool AE, int SO> struct Up {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<CA>;
    using propagate_on_container_move_assignment = std::bool_constant<MA>;
    using propagate_on_container_swap = std::bool_constant<SW>;
    using is_always_equal = std::bool_constant<AE>;
    template<class U> struct rebind { using other = Up<U, Kind, CA, MA, SW, AE, SO>; };
    int id = 1;
    Up() noexcept = default;
    Up(int a, int b) noexcept : id(a * 10 + b - 10) {}
    Up(Up const &) noexcept = default;
    Up &operator=(Up const &) noexcept = default;
    template<class U> Up(Up<U, Kind, CA, MA, SW, AE, SO> const &o) noexcept : id(o.id) {}
    T *allocate(size_t n) {
        last = mbt::cat(Kind, id, ".allocate(", n, ")");
        if (fail_next) { fail_next = false; throw std::bad_alloc{}; }
        void *p = std::malloc(n * sizeof(T) + 1);
        live[p] = Rec{Kind, id, n, sizeof(T)};
        return static_cast<T *>(p);
    }
    void deallocate(T *p, size_t n) {
        auto it = live.find(p);
        bool same = it != live.end() && it->second.n == n && it->second.sz == sizeof(T) && it->second.kind == Kind && (AE || it->second.id == id);
        last = mbt::cat(Kind, id, ".deallocate(", same ? "same" : "other", ",", n, ")");
        if (!same) { trouble += " bad " + last; return; }
        live.erase(it);
        std::free(p);
    }
    Up select_on_container_copy_construction() const { Up r = *this; if (SO) r.id = SO; return r; }
    friend bool operator==(Up const &a, Up const &b) noexcept { return AE || a.id == b.id; }
};
template<class T> struct tag {};
#if OFFSET == 2
template<class T> using PU = Up<T, 'P', true, true, true, false, 0>;
template<class T> using QU = Up<T, 'Q', false, false, true, false, 2>;
template<class T> using RU = Up<T, 'R', false, true, false, true, 1>;
template<class T> using SU = Up<T, 'S', true, false, true, true, 0>;
template<class T> using P = dtl::offset_ptr_stl_allocator<T, PU>;
template<class T> using Q = dtl::offset_ptr_stl_allocator<T, QU>;
template<class T> using R = dtl::offset_ptr_stl_allocator<T, RU>;
template<class T> using S = dtl::offset_ptr_stl_allocator<T, SU>;
template<class A> A mk(int id) { typename A::upstream_allocator_type u; u.id = id; return A(u); }
#else
template<class T> using P = Up<T, 'P', true, true, true, false, 0>;
template<class T> using Q = Up<T, 'Q', false, false, true, false, 2>;
template<class T> using R = Up<T, 'R', false, true, false, true, 1>;
template<class T> using S = Up<T, 'S', true, false, true, true, 0>;
template<class A> A mk(int id) { A a; a.id = id; return a; }
#endif
#if OFFSET == 1
template<class T> using PA = dtl::offset_ptr_stl_allocator<T, ALTS>;
#else
template<class T> using PA = dtl::polymorphic_allocator<T, ALTS>;
#endif
template<class T, template<class> class... Al> struct Alts {
    static constexpr size_t n = sizeof...(Al);
    template<size_t i> using at = std::tuple_element_t<i, std::tuple<Al<T>...>>;
    template<class F> static void pick(int k, F f) { // k is 1-based
        [&]<size_t... i>(std::index_sequence<i...>) { ((int(i) + 1 == k ? f.template operator()<at<i>, i>() : void()), ...); }(std::make_index_sequence<n>{});
    }
#if OFFSET != 1
    // how many alternatives holds_allocator (both forms) reports
    static int held(PA<T> const &a) {
        int c = 0;
        bool same = true;
        ((c += a.template holds_allocator<Al<T>>(), same &= a.template holds_allocator<Al<T>>() == a.template holds_allocator<Al>()), ...);
        return same ? c : 99;
    }
#endif
};
using E = int;
using All = Alts<E, ALTS>;
using X = PA<E>;
using Tr = std::allocator_traits<X>;
using Ptr = Tr::pointer;
template<class A> constexpr char kind_of() { if constexpr (requires { typename A::upstream_allocator_type; }) return kind_of<typename A::upstream_allocator_type>(); else return []<class T, char Kd, bool a, bool b, bool c, bool d, int e>(Up<T, Kd, a, b, c, d, e> *) { return Kd; }(static_cast<A *>(nullptr)); }

int main(int argc, char **argv) {
    std::optional<X> h[3];
    struct Blk { Ptr p; size_t n; };
    std::optional<Blk> blk[6];
    auto show = [&](X &x) -> std::string { // probes with a small allocation
        Ptr p = Tr::allocate(x, 1);
        std::string l = last, id = l.substr(0, 2);
        if (l != id + ".allocate(1)") return "probe: " + l;
        if (!live.count(std::to_address(p))) return "probe: pointer changed";
        *p = 77;
        Tr::deallocate(x, p, 1);
        if (last != id + ".deallocate(same,1)") return "probe: " + last;
        char k = 0;
#if OFFSET == 1
        k = id[0];
        if (x.upstream_allocator().id != id[1] - '0' || std::as_const(x).upstream_allocator().id != id[1] - '0') return "upstream_allocator()";
#else
        if (int c = All::held(x); c != 1) return mbt::cat("holds_allocator reports ", c);
        for (int i = 1; i <= int(All::n); ++i) All::pick(i, [&]<class A, size_t>() { if (x.template holds_allocator<A>()) k = kind_of<A>(); });
#endif
        if (k != id[0]) return "holds_allocator disagrees with allocate";
        return id;
    };
    mbt::Harness H;
    H.reset = [&] { for (auto &b : blk) b.reset(); h[1].emplace(); h[2].emplace(); trouble.clear(); fail_next = false; };
    H.finish = [&] {
        h[1].reset(); h[2].reset();
        for (auto &b : blk) if (b) { live.erase(std::to_address(b->p)); std::free(std::to_address(b->p)); b.reset(); }
        std::string r = trouble;
        if (!live.empty()) r += " leaked blocks";
        live.clear();
        last = {}; trouble = {};
        return r;
    };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto op = c.op();
        std::string note;
        if (op == "eq") {
            X const &a = *h[1], &b = *h[2];
            bool e = a == b;
            if ((b == a) != e || (a != b) == e || !(a == a)) return "comparisons disagree";
            return e ? "T" : "F";
        }
        if (op == "traits") {
            using L = PA<long>;
            using TL = std::allocator_traits<L>;
            static_assert(std::is_same_v<Tr::rebind_alloc<long>, L> && std::is_same_v<Tr::value_type, E>);
            auto f = []<class Z>(tag<Z>) { return mbt::cat(bool(Z::propagate_on_container_copy_assignment::value), bool(Z::propagate_on_container_move_assignment::value), bool(Z::propagate_on_container_swap::value), bool(Z::is_always_equal::value)); };
            auto r = f(tag<Tr>{});
            return r == f(tag<TL>{}) ? r : "traits depend on the value type";
        }
        if (op == "swap") swap(*h[1], *h[2]);
        else if (op == "alloc" || op == "alloc!") {
            X &a = *h[c.i(2)];
            size_t n = size_t(c.i(3));
            fail_next = op == "alloc!";
            try {
                Ptr p = Tr::allocate(a, n);
                note = last + " ";
                auto it = live.find(std::to_address(p));
                if (it == live.end()) return "pointer changed";
                blk[c.i(1)] = Blk{p, n};
                for (size_t i = 0; i < n; ++i) std::to_address(p)[i] = int(i);
            } catch (std::bad_alloc const &) { note = "bad_alloc "; }
            fail_next = false;
        } else if (op == "free") {
            auto &b = blk[c.i(1)];
            Tr::deallocate(*h[c.i(2)], b->p, b->n);
            note = last + " ";
            b.reset();
        } else {
            int k = int(c.i(1));
            if (op == "def") h[k].emplace();
            else if (op == "type" || op == "index" || op == "lval" || op == "rval" || op == "asgval") {
                int id = int(c.i(3));
                All::pick(int(c.i(2)), [&]<class A, size_t ix>() {
                    A a = mk<A>(id);
#if OFFSET == 1
                    (void) ix;
                    if (op == "type") h[k].emplace(std::in_place, std::as_const(a));
                    else if (op == "index") h[k].emplace(std::in_place, 1, id);
                    else if (op == "lval") { A const &l = a; h[k].emplace(l); }
                    else if (op == "rval") h[k].emplace(std::move(a));
                    else *h[k] = X(a);
#else
                    if (op == "type") h[k].emplace(std::in_place_type<A>, std::as_const(a));
#if OFFSET == 2
                    else if (op == "index") h[k].emplace(std::in_place_index<ix>, std::in_place, 1, id);
#else
                    else if (op == "index") h[k].emplace(std::in_place_index<ix>, 1, id);
#endif
                    else if (op == "lval") { A const &l = a; h[k].emplace(l); }
                    else if (op == "rval") h[k].emplace(std::move(a));
                    else { X t = a; *h[k] = std::move(t); }
#endif
                });
            } else {
                X &o = *h[c.i(2)];
                X const &src = o;
                if (op == "copy") h[k].emplace(src);
                else if (op == "move") h[k].emplace(std::move(o));
                else if (op == "asg") { if (&(*h[k] = src) != &*h[k]) return "= returns another object"; }
                else if (op == "masg") { if (&(*h[k] = std::move(o)) != &*h[k]) return "= returns another object"; }
                else if (op == "rebind") { Tr::rebind_alloc<long> l(src); h[k].emplace(l); }
                else if (op == "rebindmove") { Tr::rebind_alloc<long> l(src); PA<char> m(std::move(l)); h[k].emplace(std::move(m)); }
                else if (op == "soccc") h[k].emplace(Tr::select_on_container_copy_construction(src));
                else {
                    std::vector<E, X> v(3, 7, src), w(2, 8, *h[k]);
                    if (op == "vcopy") { auto x = v; h[k].emplace(x.get_allocator()); }
                    else if (op == "vasg") { w = v; h[k].emplace(w.get_allocator()); if (w.size() != 3 || w[2] != 7) return "container contents"; }
                    else if (op == "vmasg") { w = std::move(v); h[k].emplace(w.get_allocator()); if (w.size() != 3 || w[2] != 7) return "container contents"; }
                    else if (op == "vswap") { w.swap(v); h[k].emplace(w.get_allocator()); if (w.size() != 3 || v[1] != 8) return "container contents"; }
                    else throw mbt::HarnessError("op " + op);
                }
            }
        }
        std::string r = note + show(*h[1]) + "|" + show(*h[2]) + trouble;
        size_t n = 0;
        for (auto &b : blk) n += b.has_value();
        if (live.size() != n) r += mbt::cat(" ", live.size(), " blocks live");
        return r;
    };
    return mbt::run(argc, argv, H);
}
