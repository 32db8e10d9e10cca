// Replays histories of specs/Long.tla. WHAT 1: standard_layout_tuple, 2: integral_template_tuple, 3: integral_template_variant;
// FIRST, LAST: the range of the integral ones; NN elements or alternatives.
#include "mbt.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;
constexpr int NN = FIRST < LAST ? LAST - FIRST : FIRST - LAST;
static std::string show(std::vector<int> const &v) {
    long h = 0;
    for (int x : v) h = (h * 31 + x) % 65521;
    return cat(v.size(), "#", h);
}
template<class O> static std::string ord(O o) { return o == 0 ? "=" : o < 0 ? "<" : ">"; }
// the positions of the specification that exist
constexpr bool place(int k) {
    for (int p : {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, NN / 2, NN - 1, NN}) if (p == k) return k >= 1 && k <= NN;
    return false;
}
template<int K = 1> static void at(int k, auto f) { // f<position>() for a position of the specification
    if constexpr (K > NN) throw mbt::HarnessError("position");
    else {
        if constexpr (place(K)) if (K == k) return f.template operator()<K>();
        at<K + 1>(k, f);
    }
}
template<decltype(FIRST) ix> struct El { int v = 0; El() = default; El(int x) : v(x) {} auto operator<=>(El const &) const = default; };
constexpr auto ix(int k) { return decltype(FIRST)(FIRST < LAST ? FIRST + (k - 1) : FIRST - (k - 1)); } // index of position k
#if WHAT == 1
// many types of the same size and alignment
template<int K> struct Sl { int v = 0; Sl() = default; Sl(int x) : v(x) {} auto operator<=>(Sl const &) const = default; };
template<class> struct tup;
template<int... K> struct tup<std::integer_sequence<int, K...>> { using type = dtl::standard_layout_tuple<Sl<K % 3>...>; };
using Tup = tup<std::make_integer_sequence<int, NN>>::type;
#define GET(t, K) t.template get<size_t(K - 1)>()
#elif WHAT == 2
using Tup = dtl::integral_template_tuple<FIRST, LAST, El>;
#define GET(t, K) t.template get<ix(K)>()
#endif
#if WHAT != 3
static Tup make(int j, int v) {
    return [&]<int... K>(std::integer_sequence<int, K...>) { return Tup((K + 1 == j ? v : 7 * (K + 1) % 10)...); }(std::make_integer_sequence<int, NN>{});
}
template<class U> static void each(U &&t, auto f) {
#if WHAT == 1
    dtl::tuple_for_each(std::forward<U>(t), f);
#else
    std::forward<U>(t).visit(f);
#endif
}
template<class U> static std::vector<int> values(U &&t) {
    std::vector<int> v;
    each(std::forward<U>(t), [&](auto &&e) { v.push_back(e.v); });
    return v;
}
static std::string exec(Cmd const &c) {
    auto const &op = c.op();
    Tup t = make(int(c.i(1)), int(c.i(2)));
    std::string r = "?";
    if (op == "get") at(int(c.i(3)), [&]<int K>() { r = cat(c.s(4) == "lvalue" ? GET(t, K).v : c.s(4) == "const" ? GET(std::as_const(t), K).v : GET(std::move(t), K).v); });
    else if (op == "set") { at(int(c.i(3)), [&]<int K>() { GET(t, K).v = int(c.i(4)); }); r = show(values(t)); }
    else if (op == "each") r = show(values(t));
    else if (op == "eachconst") r = show(values(std::as_const(t)));
    else if (op == "eachrvalue") r = show(values(std::move(t)));
#if WHAT == 1
    else if (op == "fold") r = show(dtl::tuple_fold(t, std::vector<int>{}, [](std::vector<int> a, auto const &e) { a.push_back(e.v); return a; }));
#else
    else if (op == "fold") { // the documented way to accumulate: what the last call returned
        r = show(t.visit([v = std::vector<int>{}](auto const &e) mutable { v.push_back(e.v); return v; }));
    }
#endif
    else if (op == "pointers") { // the elements lie one after the other
        std::vector<int> v;
        void const *last = nullptr;
        each(t, [&](auto const &e) { if (last && &e <= last) v.clear(); last = &e; v.push_back(e.v); });
        r = show(v);
    }
    else if (op == "copy") { Tup u(t); r = u == t ? show(values(u)) : "differs"; }
    else if (op == "move") { Tup u(std::move(t)); r = show(values(u)); }
    else if (op == "assign") { Tup u = make(0, 0); u = t; r = show(values(u)); }
    else if (op == "massign") { Tup u = make(0, 0); u = std::move(t); r = show(values(u)); }
    else if (op == "cmp") {
        Tup u = make(int(c.i(3)), int(c.i(4)));
        r = ord(t <=> u);
        if ((t == u) != (r == "=") || (t < u) != (r == "<")) r = "operators disagree";
    }
    else if (op == "sub") {
        int from = int(c.i(3)), to = int(c.i(4));
        bool k = c.s(5) == "const";
        auto part = [&](auto &whole, auto &&p) {
            std::vector<int> v;
            bool same = true;
            each(p, [&](auto &e) { v.push_back(e.v); same = same && reinterpret_cast<char const *>(&e) >= reinterpret_cast<char const *>(&whole) && reinterpret_cast<char const *>(&e) < reinterpret_cast<char const *>(&whole + 1); });
            r = same ? show(v) : "other elements";
        };
#if WHAT == 1
        if (from == 1) at(to, [&]<int K>() { part(t, t.template subtuple<0, K>()); });
        else at(from, [&]<int K>() { if (k) part(t, std::as_const(t).template subtuple<K - 1, NN - K + 1>()); else part(t, t.template subtuple<K - 1, NN - K + 1>()); });
#else
        if (from == 1) at(to, [&]<int K>() { part(t, t.template subtuple<ix(1), ix(K + 1)>()); });
        else at(from, [&]<int K>() { if (k) part(t, std::as_const(t).template subtuple<ix(K), LAST>()); else part(t, t.template subtuple<ix(K), LAST>()); });
#endif
    }
    else throw mbt::HarnessError("op " + op);
    return r;
}
#else
using Var = dtl::integral_template_variant<FIRST, LAST, El>;
static std::string look(Var const &v) {
    int i = int(v.index()), k = FIRST < LAST ? i - FIRST + 1 : FIRST - i + 1;
    std::string seen = v.visit([]<auto x>(El<x> const &e) { return cat(FIRST < LAST ? x - FIRST + 1 : FIRST - x + 1, ":", e.v); });
    return seen == cat(k, ":", v.visit([](auto const &e) { return e.v; })) ? seen : cat("index ", i, " but ", seen);
}
static Var make(int k, int v) {
    Var x;
    at(k, [&]<int K>() { x.template emplace<ix(K)>(v); });
    return x;
}
static std::string exec(Cmd const &c) {
    auto const &op = c.op();
    int k = int(c.i(1)), v = int(c.i(2));
    Var a = make(k, v);
    std::string r = "?";
    if (op == "emplace") return look(a);
    if (op == "value") { at(k, [&]<int K>() { El<ix(K)> e(v); r = look(Var(e)); }); return r; }
    if (op == "inplace") { at(k, [&]<int K>() { r = look(Var(std::in_place_type<El<ix(K)>>, v)); }); return r; }
    if (op == "copy") return look(Var(a));
    if (op == "move") return look(Var(std::move(a)));
    if (op == "assign") { Var b; b = a; return look(b); }
    if (op == "massign") { Var b = make(NN, 1); b = std::move(a); return look(b); }
    if (op == "holds") {
        at(int(c.i(3)), [&]<int J>() { r = cat(a.template holds_alternative<ix(J)>()); if (r != cat(a.template holds_alternative<El<ix(J)>>())) r += " by index only"; });
        return r;
    }
    if (op == "get") {
        at(int(c.i(3)), [&]<int J>() { try { r = cat(a.template get<ix(J)>().v); } catch (std::bad_variant_access const &) { r = "bad_variant_access"; } });
        return r;
    }
    if (op == "cmp") {
        Var b = make(int(c.i(3)), int(c.i(4)));
        r = ord(a <=> b);
        if ((a == b) != (r == "=") || (a < b) != (r == "<")) r = "operators disagree";
        return r;
    }
    throw mbt::HarnessError("op " + op);
}
#endif
int main(int argc, char **argv) {
    mbt::Harness H;
    H.reset = [] {};
    H.exec = exec;
    return mbt::run(argc, argv, H);
}
