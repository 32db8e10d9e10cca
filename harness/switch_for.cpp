// Replays histories of specs/SwitchFor.tla on switch_cases, switch_bool, for_types, for_values, for_range for type TT.
#include "mbt.hpp"
#include <dice/template-library/for.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <limits>
#include "points.hpp"
using mbt::Cmd;
namespace dtl = dice::template_library;
constexpr T lasts[] = {P(M, 4), P(M, 0), T(Min + 1), Min};

struct Obj { // a result whose identity and moves can be seen
    std::string what; bool copied = false;
    Obj() = default;
    explicit Obj(std::string w) : what(std::move(w)) {}
    Obj(Obj &&o) noexcept : what(std::move(o.what)), copied(o.copied) {}
    Obj(Obj const &o) : what(o.what), copied(true) {}
    Obj &operator=(Obj const &) = default;
};
static int calls;
static Obj cells[2];
// handlers, instantiated for the constants of exactly one type
struct CaseRef {
    template<class V, V v> Obj &operator()(std::integral_constant<V, v>) const { static_assert(std::is_same_v<V, T>); ++calls; cells[0] = Obj{"case " + show(v)}; return cells[0]; }
};
struct DefRef { Obj &operator()() const { ++calls; cells[1] = Obj{"default"}; return cells[1]; } };
struct CaseVal {
    template<class V, V v> Obj operator()(std::integral_constant<V, v>) { static_assert(std::is_same_v<V, T>); ++calls; return Obj{"case " + show(v)}; }
};
struct DefVal { Obj operator()() { ++calls; return Obj{"default"}; } };
struct CaseVoid {
    std::string &out;
    template<class V, V v> void operator()(std::integral_constant<V, v>) { static_assert(std::is_same_v<V, T>); ++calls; out = "case " + show(v); }
};
struct DefVoid { std::string &out; void operator()() { ++calls; out = "default"; } };
struct CaseMove { // callable as an rvalue only
    std::unique_ptr<int> p = std::make_unique<int>(1);
    template<class V, V v> std::unique_ptr<std::string> operator()(std::integral_constant<V, v>) && { ++calls; return *p == 1 ? std::make_unique<std::string>("case " + show(v)) : nullptr; }
};
struct DefMove {
    std::unique_ptr<int> p = std::make_unique<int>(2);
    std::unique_ptr<std::string> operator()() && { ++calls; return *p == 2 ? std::make_unique<std::string>("default") : nullptr; }
};
static std::string once(std::string s) { return calls == 1 ? s : s + " calls=" + std::to_string(calls); }
template<size_t I> static std::string sw(T c, std::string const &how) {
    constexpr T f = ranges[I].first, l = ranges[I].last;
    calls = 0;
    if (how == "ref") {
        static_assert(std::is_same_v<decltype(dtl::switch_cases<f, l>(c, CaseRef{}, DefRef{})), Obj &>);
        CaseRef const h; DefRef const d;
        Obj &o = dtl::switch_cases<f, l>(c, h, d);
        if (&o != &cells[0] && &o != &cells[1]) return "another object";
        return once(o.what);
    }
    if (how == "val") {
        CaseVal h; DefVal d;
        Obj o = dtl::switch_cases<f, l>(c, h, d);
        return once(o.what) + (o.copied ? " copied" : "");
    }
    if (how == "void") {
        std::string out;
        dtl::switch_cases<f, l>(c, CaseVoid{out}, DefVoid{out});
        return once(out);
    }
    return once(*dtl::switch_cases<f, l>(c, CaseMove{}, DefMove{}));
}
template<T lo, T hi> struct CaseIn { // instantiated only for the values of the range
    template<class V, V v> Obj operator()(std::integral_constant<V, v>) { static_assert(std::is_same_v<V, T> && v >= lo && v < hi); ++calls; return Obj{"case " + show(v)}; }
};
template<size_t I> static std::string swnd(T c) {
    constexpr T f = ranges[I].first, l = ranges[I].last;
    calls = 0;
    if constexpr (f != l) {
        CaseIn<std::min(f, l), std::max(f, l)> h;
        Obj a = dtl::switch_cases<f, l>(c, h), d = dtl::switch_cases<f, l>(c, std::move(h), [] { return Obj{"default"}; });
        calls /= 2;
        return once(a.what) + (d.what == a.what ? "" : " or " + d.what);
    }
    else return "no case";
}
template<size_t I> static std::string last(T c, bool nd) {
    constexpr T l = lasts[I];
    calls = 0;
    if constexpr (static_cast<__int128>(l) > 16 || static_cast<__int128>(l) < -16) { return "not instantiated"; }
    else {
        if (nd) { if constexpr (l != T{}) return once(dtl::switch_cases<l>(c, CaseIn<std::min(T{}, l), std::max(T{}, l)>{}).what); else return "no case"; }
        return once(dtl::switch_cases<l>(c, CaseVal{}, DefVal{}).what);
    }
}
template<size_t I> static std::string rng(std::string const &how) {
    static constexpr T f = ranges[I].first, l = ranges[I].last, lo = f < l ? f : l, hi = f < l ? l : f;
    std::string out;
    auto body = [&out](auto v) {
        static_assert(std::is_same_v<typename decltype(v)::value_type, T> && v() != l && v() <= hi && v() >= lo);
        static_assert(std::is_same_v<decltype(v), std::integral_constant<T, decltype(v)::value>>);
        out += (out.empty() ? "" : " ") + show(v);
    };
    if (how == "lvalue") dtl::for_range<f, l>(body);
    else if (how == "const") { auto const &cb = body; dtl::for_range<f, l>(cb); }
    else dtl::for_range<f, l>(std::move(body));
    return out;
}
struct Tag {};
template<int K> constexpr auto val = [] { if constexpr (K == 1) return 7; else if constexpr (K == 2) return 'c'; else return true; }();
template<int K> struct ty_ { using type = int; };
template<> struct ty_<2> { using type = int const &; };
template<> struct ty_<3> { using type = Tag; };
template<class X> static std::string tyname() {
    if constexpr (std::is_same_v<X, int>) return "int"; else if constexpr (std::is_same_v<X, int const &>) return "int const &"; else if constexpr (std::is_same_v<X, Tag>) return "Tag"; else return "?";
}
template<class X, X v> static std::string valname(std::integral_constant<X, v>) {
    if constexpr (std::is_same_v<X, int>) return "int " + std::to_string(v); else if constexpr (std::is_same_v<X, char>) return std::string("char ") + v; else if constexpr (std::is_same_v<X, bool>) return std::string("bool ") + (v ? "T" : "F"); else return "?";
}
template<int... K> static std::string values() {
    std::string out;
    dtl::for_values<val<K>...>([&](auto v) { out += (out.empty() ? "" : ",") + valname(v); });
    return out;
}
template<int... K> static std::string types() {
    std::string out;
    dtl::for_types<typename ty_<K>::type...>([&]<class X>() { out += (out.empty() ? "" : ",") + tyname<X>(); });
    return out;
}
template<int... K> static void lists(std::string const &code, bool v, std::string &r) {
    std::string mine = sizeof...(K) ? "" : "-";
    ((mine += std::to_string(K)), ...);
    if (mine == code) r = v ? values<K...>() : types<K...>();
    if constexpr (sizeof...(K) < 3) { lists<K..., 1>(code, v, r); lists<K..., 2>(code, v, r); lists<K..., 3>(code, v, r); }
}
struct Count { // counts its calls inside of itself
    std::string *out; int n = 0;
    explicit Count(std::string &o) : out(&o) {}
    Count(Count const &o) : out(o.out), n(o.n) { *out += " copied"; }
    void hit() { *out += (out->empty() ? "" : " ") + std::to_string(++n); }
    void operator()(auto) { hit(); }
    template<class X> void operator()() { hit(); }
};
struct CountM { // can neither be copied nor moved
    Count c;
    explicit CountM(std::string &o) : c(o) {}
    CountM(CountM &&) = delete;
    void operator()(auto) { c.hit(); }
    template<class X> void operator()() { c.hit(); }
};
template<class F> static void loop(std::string const &w, F &&f) {
    if (w == "range") dtl::for_range<T{1}, T{4}>(std::forward<F>(f));
    else if (w == "values") dtl::for_values<1, 'b', true>(std::forward<F>(f));
    else dtl::for_types<int, int, Tag>(std::forward<F>(f));
}
struct Quiet {
    void operator()(auto) & { throw 1; }
    void operator()(auto) && noexcept {}
    template<class X> void operator()() { throw 1; }
};
constexpr int wlo = sizeof(T) == 1 ? (std::is_signed_v<T> ? -128 : 0) : std::is_signed_v<T> ? -150 : 0, whi = sizeof(T) == 1 ? wlo + 255 : wlo + 300;
template<bool up> static std::string wide(T c) {
    calls = 0;
    constexpr T f = static_cast<T>(up ? wlo : whi), l = static_cast<T>(up ? whi : wlo);
    std::string r = dtl::switch_cases<f, l>(c, [](auto v) { ++calls; static_assert(v() >= static_cast<T>(wlo) && v() < static_cast<T>(whi)); return std::to_string(v()); }, [] { ++calls; return std::string("default"); });
    return once(r);
}
template<bool up> static std::string widefor() {
    std::string out;
    dtl::for_range<static_cast<T>(up ? wlo : whi), static_cast<T>(up ? whi : wlo)>([&](auto v) { out += (out.empty() ? "" : " ") + std::to_string(v()); });
    return out;
}
#if 1 // usable in constant expressions, and with what the documentation shows
static_assert(dtl::switch_cases<T{2}, T{5}>(T{3}, [](auto i) { return int(i()) * 2; }, [] { return -1; }) == 6);
static_assert(dtl::switch_cases<T{2}, T{5}>(T{5}, [](auto i) { return int(i()) * 2; }, [] { return -1; }) == -1);
static_assert(dtl::switch_bool(true, [](auto x) { return x() ? 1 : 2; }) == 1);
static_assert([] { int n = 0; dtl::for_range<T{1}, T{4}>([&n](auto i) { n = n * 10 + static_cast<int>(i()); }); return n; }() == 123);
#endif
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "switch") { T x = num(c.s(2)); return pick(size_t(c.i(1)) - 1, [&](auto I) { return sw<I()>(x, c.s(3)); }); }
        if (op == "switchnd") { T x = num(c.s(2)); return pick(size_t(c.i(1)) - 1, [&](auto I) { return swnd<I()>(x); }); }
        if (op == "switchlast" || op == "switchlastnd") {
            T x = num(c.s(2)); bool nd = op == "switchlastnd";
            switch (c.i(1)) { case 1: return last<0>(x, nd); case 2: return last<1>(x, nd); case 3: return last<2>(x, nd); default: return last<3>(x, nd); }
        }
        if (op == "bool") {
            bool x = c.s(1) == "T";
            calls = 0;
            auto name = []<bool v>(std::bool_constant<v>) { return v ? "T" : "F"; };
            if (c.s(2) == "ref") {
                auto f = [&](auto b) -> Obj & { ++calls; cells[b()] = Obj{name(b)}; return cells[b()]; };
                auto &o = dtl::switch_bool(x, f);
                return &o == &cells[x] ? once(o.what) : "another object";
            }
            if (c.s(2) == "void") { std::string out; dtl::switch_bool(x, [&](auto b) { ++calls; out = name(b); }); return once(out); }
            if (c.s(2) == "move") {
                struct F { std::unique_ptr<int> p; std::unique_ptr<std::string> operator()(std::true_type) && { ++calls; return std::make_unique<std::string>("T"); } std::unique_ptr<std::string> operator()(std::false_type) && { ++calls; return std::make_unique<std::string>("F"); } };
                return once(*dtl::switch_bool(x, F{}));
            }
            return once(dtl::switch_bool(x, [&](auto b) { ++calls; return Obj{name(b)}; }).what);
        }
        if (op == "range") return pick(size_t(c.i(1)) - 1, [&](auto I) { return rng<I()>(c.s(2)); });
        if (op == "values" || op == "types") { std::string r; lists<>(c.s(1), op == "values", r); return r; }
        if (op == "wide") return c.s(1) == "up" ? wide<true>(static_cast<T>(c.i(2))) : wide<false>(static_cast<T>(c.i(2)));
        if (op == "widefor") return c.s(1) == "up" ? widefor<true>() : widefor<false>();
        if (op == "throw") {
            std::string out;
            int n = int(c.i(2)), k = 0;
            auto hit = [&] { out += k++ ? " x" : "x"; if (k == n) throw 1; };
            try {
                if (c.s(1) == "range") dtl::for_range<T{1}, T{4}>([&](auto) { hit(); });
                else if (c.s(1) == "values") dtl::for_values<1, 'b', true>([&](auto) { hit(); });
                else dtl::for_types<int, int, Tag>([&]<class X>() { hit(); });
            } catch (int) { out += " thrown"; }
            return out;
        }
        if (op == "state") {
            std::string out;
            auto const &w = c.s(1);
            if (c.s(2) == "rvalue") loop(w, Count{out});
            else if (c.s(2) == "moveonly") loop(w, CountM{out});
            else {
                Count f{out};
                for (int k = 0; k < c.i(3); ++k) {
                    if (w == "cases") dtl::switch_cases<T{1}, T{4}>(T(k + 1), f, [&] { out += " default"; });
                    else if (w == "bool") dtl::switch_bool(k % 2 == 0, f);
                    else loop(w, f);
                }
            }
            return out;
        }
        if (op == "throwlv") { try { loop(c.s(1), Quiet{}); return "not thrown"; } catch (int) { return "thrown"; } }
        throw mbt::HarnessError{"op " + op};
    };
    return mbt::run(argc, argv, h);
}
