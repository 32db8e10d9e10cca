// Replays histories of specs/TypeList.tla on type_list: every list is instantiated and registered under its code.
#include "mbt.hpp"
#include <complex>
#include <dice/template-library/type_list.hpp>
using mbt::Cmd;
using mbt::cat;
namespace tl = dice::template_library::type_list;
using tl::type_list;
#ifndef LEN
#define LEN 3
#endif
#ifndef CONCATS
#define CONCATS 2
#endif
#ifndef UNIVERSE
#define UNIVERSE 1
#endif
struct Incomplete;
struct Abstract { virtual void f() = 0; };
struct Unmovable { Unmovable(Unmovable &&) = delete; };
#if UNIVERSE == 1
using T1 = int; using T2 = int const; using T3 = Incomplete; using T4 = int &;
#elif UNIVERSE == 2
using T1 = void; using T2 = Unmovable; using T3 = Abstract; using T4 = Abstract const;
#else
using T1 = type_list<int>; using T2 = type_list<>; using T3 = int[]; using T4 = int();
#endif
template<int K> using Ty = std::conditional_t<K == 1, std::type_identity<T1>, std::conditional_t<K == 2, std::type_identity<T2>, std::type_identity<T3>>>::type;
template<class T> constexpr int index_of = std::is_same_v<T, T1> ? 1 : std::is_same_v<T, T2> ? 2 : std::is_same_v<T, T3> ? 3 : 0;
template<class...> struct Box {};
template<class> struct Wrap {};

template<class T> struct name { static std::string get() { return index_of<T> ? std::to_string(index_of<T>) : "?"; } };
template<class T> std::string name_of() { return name<T>::get(); }
template<class... Ts> requires (index_of<type_list<Ts...>> == 0) struct name<type_list<Ts...>> { static std::string get() { return "[" + (std::string() + ... + name_of<Ts>()) + "]"; } };
template<class... Ts> struct name<Box<Ts...>> { static std::string get() { return "Box[" + (std::string() + ... + name_of<Ts>()) + "]"; } };
template<class T> struct name<Wrap<T>> { static std::string get() { return "W" + name_of<T>(); } };
template<> struct name<tl::nullopt> { static std::string get() { return "none"; } };
template<size_t n> struct name<std::integral_constant<size_t, n>> { static std::string get() { return "#" + std::to_string(n); } };
template<int n> struct name<std::integral_constant<int, n>> { static std::string get() { return "i" + std::to_string(n); } };
template<char n> struct name<std::integral_constant<char, n>> { static std::string get() { return "c" + std::to_string(int(n)); } };
template<unsigned n> struct name<std::integral_constant<unsigned, n>> { static std::string get() { return "u" + std::to_string(n); } };
template<bool n> struct name<std::integral_constant<bool, n>> { static std::string get() { return "b" + std::to_string(n); } };

// lists are shown without regard to elements that are themselves lists
template<class T> struct show;
template<class... Ts> struct show<type_list<Ts...>> { static std::string get() { return "[" + (std::string() + ... + name_of<Ts>()) + "]"; } };
template<class T> std::string list() { return show<T>::get(); }
template<class O> std::string opt_type() { // operations that may have no result
    constexpr bool present = requires { typename O::type; };
    if constexpr (present) return std::is_same_v<typename O::type, tl::opt_t<O>> ? name_of<typename O::type>() : "opt differs";
    else return std::is_same_v<tl::opt_t<O>, tl::nullopt> ? "none" : "opt differs";
}
template<int M> inline constexpr auto pred = []<class T>(std::type_identity<T>) -> bool { static_assert(index_of<T> != 0); return (M >> (index_of<T> - 1)) & 1; };
inline constexpr auto wrap = []<class T>(std::type_identity<T>) { return std::type_identity<Wrap<T>>{}; };
struct Turn { template<class T> constexpr auto operator()(std::type_identity<T>) const { return std::type_identity<Ty<index_of<T> % 3 + 1>>{}; } };
inline constexpr auto one = [](auto) { return std::type_identity<T1>{}; };
inline constexpr auto two_of = []<class T>(std::type_identity<T>) { return std::type_identity<type_list<T, T>>{}; };
struct NestedPairs { std::string s; };

struct Once { int calls = 0; Once() = default; Once(Once const &) = delete; void operator()(auto) { ++calls; } };
template<class... Ts> std::string for_each_ops() {
    std::string s;
    auto f = [&s, calls = 0]<class T>(std::type_identity<T>) mutable { ++calls; s += name_of<T>(); if (calls != int(s.size())) s += "?"; };
    tl::for_each<type_list<Ts...>>(f);
    Once once;
    tl::for_each<type_list<Ts...>>(once); // the function itself, not a copy
    if (once.calls != sizeof...(Ts)) s += "?";
    std::string t;
    tl::for_each<type_list<Ts...>>([&]<class T>(std::type_identity<T>) { t += name_of<T>(); });
    return s == t ? s : s + " " + t;
}
template<int From, int To> std::string upto(int k, auto f) { // f<k>()
    if constexpr (From > To) throw mbt::HarnessError{"argument"};
    else return k == From ? f.template operator()<From>() : upto<From + 1, To>(k, f);
}
template<int... Ks> std::string some(int k, auto f) { std::string r = "?"; ((k == Ks ? void(r = f.template operator()<Ks>()) : void()), ...); return r; }
template<int... Ks> std::string ops(Cmd const &c) {
    using Q = type_list<Ty<Ks>...>;
    constexpr int n = sizeof...(Ks);
    auto const &op = c.op();
    int const k = c.n() > 2 && std::isdigit(c.s(2)[0]) ? int(c.i(2)) : 0;
    if (op == "size") { static_assert(tl::size<Q>::value == tl::size_v<Q>); return cat(tl::size_v<Q>); }
    if (op == "first") return opt_type<tl::first<Q>>();
    if (op == "last") return opt_type<tl::last<Q>>();
    if (op == "nth") return upto<0, n < 8 ? 8 : n + 1>(k, []<int K>() { return opt_type<tl::nth<Q, K>>(); });
    if (op == "take") return upto<0, n>(k, []<int K>() { return list<tl::take_t<Q, K>>(); });
    if (op == "drop") return upto<0, n>(k, []<int K>() { return list<tl::drop_t<Q, K>>(); });
    if (op == "transform") {
        if (c.s(2) == "wrap") return list<tl::transform_t<Q, wrap>>();
        if (c.s(2) == "turn") return list<tl::transform_t<Q, Turn{}>>();
        if (c.s(2) == "one") return list<tl::transform_t<Q, one>>();
        return list<tl::transform_t<Q, two_of>>();
    }
    if (op == "flatpair") return list<tl::flatten_t<tl::transform_t<Q, two_of>>>();
    if (op == "unique") return list<tl::unique_t<Q>>();
    if (op == "all_distinct") return cat(tl::all_distinct_v<Q>);
    if (op == "all_same") return cat(tl::all_same_v<Q>);
    if (op == "apply") return name_of<tl::apply_t<Q, Box>>();
    if (op == "unpack") {
        static_assert(std::is_same_v<tl::unpack_t<std::tuple<Ty<Ks>...>>, tl::unpack_t<Box<Ty<Ks>...>>>);
        static_assert(std::is_same_v<tl::unpack_t<tl::apply_t<Q, Box>>, Q>);
        return list<tl::unpack_t<Box<Ty<Ks>...>>>();
    }
    if (op == "tuple") return list<tl::tuple_to_type_list_t<std::tuple<Ty<Ks>...>>>();
    if (op == "for_each") return for_each_ops<Ty<Ks>...>();
    if (op == "fold") {
        static_assert(tl::fold<Q>(0ll, []<class T>(long long a, std::type_identity<T>) { return (a * 4 + index_of<T>) % 1000003; }) == [] { long long a = 0; ((a = (a * 4 + Ks) % 1000003), ...); return a; }());
        return tl::fold<Q>(std::string("("), []<class T>(std::string a, std::type_identity<T>) { return a + name_of<T>(); }) + ")";
    }
    if (op == "foldmove") { // accumulators that can only be moved
        auto p = tl::fold<Q>(std::make_unique<int>(0), [](std::unique_ptr<int> a, auto) { ++*a; return a; });
        return cat(*p);
    }
    if (op == "count") return upto<1, 4>(k, []<int K>() { return cat(tl::count_v<Q, std::conditional_t<K == 4, std::type_identity<T4>, std::type_identity<Ty<K>>>>) == "0" ? cat(tl::count_v<Q, typename std::conditional_t<K == 4, std::type_identity<T4>, std::type_identity<Ty<K>>>::type>) : "?"; });
    if (op == "contains") return upto<1, 4>(k, []<int K>() { return cat(tl::contains_v<Q, typename std::conditional_t<K == 4, std::type_identity<T4>, std::type_identity<Ty<K>>>::type>); });
    return upto<0, 7>(k, [&]<int M>() -> std::string {
        if (op == "filter") return list<tl::filter_t<Q, pred<M>>>();
        if (op == "find_if") return opt_type<tl::find_if<Q, pred<M>>>();
        if (op == "position") {
            if constexpr (requires { tl::position<Q, pred<M>>::value; }) {
                static_assert(tl::position_v<Q, pred<M>> == tl::opt_v<tl::position<Q, pred<M>>>);
                return cat(tl::position_v<Q, pred<M>>);
            } else return tl::opt_v<tl::position<Q, pred<M>>> == tl::nullopt{} ? "none" : "opt differs";
        }
        if (op == "all_of") return cat(tl::all_of_v<Q, pred<M>>);
        if (op == "any_of") return cat(tl::any_of_v<Q, pred<M>>);
        if (op == "none_of") return cat(tl::none_of_v<Q, pred<M>>);
        throw mbt::HarnessError{"op " + op};
    });
}
constexpr int late(int k, int n) { return k == n - 1 ? 3 : (k * k + k / 3) % 2 + 1; }
constexpr int mixed(int k) { return (k * k + k / 3) % 3 + 1; }
static std::map<std::string, std::function<std::string(Cmd const &)>> table;
template<int... Ks> void enter() { std::string c = (std::string() + ... + std::to_string(Ks)); table[c.empty() ? "-" : c] = ops<Ks...>; }
template<int... Ks> void enter_all() {
    enter<Ks...>();
    if constexpr (sizeof...(Ks) < LEN) { enter_all<Ks..., 1>(); enter_all<Ks..., 2>(); enter_all<Ks..., 3>(); }
}
// concatenations
template<int... Ks> struct Codes { using list = type_list<Ty<Ks>...>; static std::string code() { std::string c = (std::string() + ... + std::to_string(Ks)); return c.empty() ? "-" : c; } };
template<int N, class F, int... Ks> void each(F f, Codes<Ks...> c) {
    f(c);
    if constexpr (int(sizeof...(Ks)) < N) { each<N>(f, Codes<Ks..., 1>{}); each<N>(f, Codes<Ks..., 2>{}); each<N>(f, Codes<Ks..., 3>{}); }
}
static std::map<std::string, std::string> concats;
template<class C> using list_of = typename C::list;
struct Neither {}; struct TypeOnly { using type = T2; }; struct ValueOnly { static constexpr int value = 7; }; struct BothOf { using type = T3; static constexpr int value = 8; };
template<class O> std::string opt_both() {
    std::string v;
    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(tl::opt_v<O>)>, tl::nullopt>) v = "none"; else v = cat(tl::opt_v<O>);
    return name_of<tl::opt_t<O>>() + " " + v;
}
int main(int argc, char **argv) {
    enter_all<>();
    enter<1, 1, 1, 1>(); enter<1, 2, 1, 2>(); enter<2, 1, 1, 3>(); enter<3, 3, 2, 1>(); enter<1, 1, 2, 2, 3, 3>(); enter<1, 2, 1, 2, 1, 3>(); enter<3, 2, 1, 3, 2, 1, 3>(); enter<1, 1, 1, 1, 1, 1, 1, 1, 2>(); enter<2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3>();
    []<int... K>(std::integer_sequence<int, K...>) { enter<late(K + 1, 33)...>(); }(std::make_integer_sequence<int, 33>{});
    []<int... K>(std::integer_sequence<int, K...>) { enter<mixed(K + 1)...>(); }(std::make_integer_sequence<int, 40>{});
    each<CONCATS>([]<class P>(P p) {
        concats["concat1 " + p.code()] = list<tl::concat_t<list_of<P>>>();
        each<CONCATS>([]<class Q>(Q q) {
            concats["concat2 " + P::code() + " " + q.code()] = list<tl::concat_t<list_of<P>, list_of<Q>>>();
            concats["flatten2 " + P::code() + " " + q.code()] = list<tl::flatten_t<type_list<list_of<P>, list_of<Q>>>>();
        }, Codes<>{});
    }, Codes<>{});
    each<1>([]<class P>(P) { each<1>([]<class Q>(Q) { each<1>([]<class R>(R) {
        auto cs = P::code() + " " + Q::code() + " " + R::code();
        concats["concat3 " + cs] = list<tl::concat_t<list_of<P>, list_of<Q>, list_of<R>>>();
        concats["flatten3 " + cs] = list<tl::flatten_t<type_list<list_of<P>, list_of<Q>, list_of<R>>>>();
    }, Codes<>{}); }, Codes<>{}); }, Codes<>{});
    concats["concat0"] = list<tl::concat_t<>>();
    concats["flatten0"] = list<tl::flatten_t<type_list<>>>();
    mbt::Harness h;
    h.leak_check = false;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op.starts_with("concat") || op.starts_with("flatten")) { std::string k; for (auto &w : c.w) k += (k.empty() ? "" : " ") + w; return concats.at(k); }
        if (op == "generate") return some<0, 1, 2, 3, 4, 5, 6, 7, 16, 17, 65>(int(c.i(1)), []<int K>() { return list<tl::generate_t<size_t(K), [](auto ix) { return std::type_identity<Ty<int(ix()) % 3 + 1>>{}; }>>(); });
        if (op == "indices") return some<0, 1, 2, 3, 4, 5, 6, 7, 16, 17, 65>(int(c.i(1)), []<int K>() { return list<tl::generate_t<size_t(K), []<size_t ix>(std::integral_constant<size_t, ix> i) { return std::type_identity<decltype(i)>{}; }>>(); });
        if (op == "sequence") {
            if (c.s(1) == "int") return list<tl::integer_sequence_to_type_list_t<std::integer_sequence<int, 5, -1, 5>>>();
            if (c.s(1) == "char") return list<tl::integer_sequence_to_type_list_t<std::integer_sequence<char, 'a', '\0'>>>();
            if (c.s(1) == "unsigned") return list<tl::integer_sequence_to_type_list_t<std::integer_sequence<unsigned, ~0u>>>();
            if (c.s(1) == "bool") return list<tl::integer_sequence_to_type_list_t<std::integer_sequence<bool, true, false>>>();
            return list<tl::integer_sequence_to_type_list_t<std::integer_sequence<long>>>();
        }
        if (op == "tuplelike") {
            if (c.s(1) == "pair") return list<tl::tuple_to_type_list_t<std::pair<T1, T2>>>();
            if (c.s(1) == "array0") return list<tl::tuple_to_type_list_t<std::array<T1, 0>>>();
            if (c.s(1) == "array3") return list<tl::tuple_to_type_list_t<std::array<T1, 3>>>();
            return list<tl::tuple_to_type_list_t<std::array<T1, 2>>>();
        }
        if (op == "opt") return c.s(1) == "neither" ? opt_both<Neither>() : c.s(1) == "type" ? opt_both<TypeOnly>() : c.s(1) == "value" ? opt_both<ValueOnly>() : opt_both<BothOf>();
        return table.at(c.s(1))(c);
    };
    return mbt::run(argc, argv, h);
}
