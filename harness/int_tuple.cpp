// Replays histories of specs/IntTuple.tla on integral_template_tuple<FIRST, LAST, E>.
#include "mbt.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
using mbt::Cmd;
namespace dtl = dice::template_library;
#ifndef TT
#define TT int
#define FIRST 2
#define LAST 5
#endif
#ifndef SUB
#define SUB 1
#endif
using T = TT;
constexpr T first = static_cast<T>(FIRST), last = static_cast<T>(LAST);
constexpr bool asc = first < last;
constexpr size_t N = asc ? static_cast<size_t>(last) - static_cast<size_t>(first) : static_cast<size_t>(first) - static_cast<size_t>(last);
constexpr T at(size_t pos) { return static_cast<T>(asc ? static_cast<size_t>(first) + (pos - 1) : static_cast<size_t>(first) - (pos - 1)); }
constexpr size_t pos_of(T ix) { return 1 + (asc ? static_cast<size_t>(ix) - static_cast<size_t>(first) : static_cast<size_t>(first) - static_cast<size_t>(ix)); }
static long alive;
struct Src { int v; }; // an argument that notices being moved from
// an element: knows its index, its size depends on the index
#if SUB
#define VIRT
#else
#define VIRT virtual // not standard layout
#endif
template<T ix> struct E {
    int v = 0;
    int pad[1 + pos_of(ix) % 3] = {};
    E() { ++alive; }
    E(int x) : v(x) { ++alive; }
    E(int x, int y) : v(x + y) { ++alive; }
    E(Src const &o) : v(o.v) { ++alive; }
    E(Src &&o) : v(std::exchange(o.v, 9)) { ++alive; }
    E(E const &o) : v(o.v) { ++alive; }
    E(E &&o) noexcept : v(std::exchange(o.v, 9)) { ++alive; }
    E &operator=(E const &o) { v = o.v; return *this; }
    E &operator=(E &&o) noexcept { v = std::exchange(o.v, 9); return *this; }
    VIRT ~E() { --alive; }
    auto operator<=>(E const &o) const { return v <=> o.v; }
    bool operator==(E const &o) const { return v == o.v; }
};
template<class X> constexpr T ix_of = T{};
template<T ix> constexpr T ix_of<E<ix>> = ix;
template<class X> static std::string show(X const &e) { return std::to_string(pos_of(ix_of<std::remove_cvref_t<X>>)) + ":" + std::to_string(e.v); }
using Tup = dtl::integral_template_tuple<first, last, E>;
static_assert(std::is_standard_layout_v<Tup> == bool(SUB));
static_assert(std::tuple_size_v<Tup::standard_layout_tuple> == N);
#define ALL []<size_t... K>(std::index_sequence<K...>)
using Seq = std::make_index_sequence<N>;
template<class F> static std::string pos(size_t k, F f) { // f with the position as a constant
    std::string r = "bad position";
    [&]<size_t... K>(std::index_sequence<K...>) { ((K + 1 == k ? void(r = f(std::integral_constant<size_t, K + 1>{})) : void()), ...); }(Seq{});
    return r;
}
template<class F> static std::string part(size_t i, size_t n, F f) {
    std::string r = "bad part";
    pos(i, [&](auto I) {
        [&]<size_t... K>(std::index_sequence<K...>) { ((K == n ? void([&] { if constexpr (I() + K <= N + 1) r = f(I, std::integral_constant<size_t, K>{}); }()) : void()), ...); }(std::make_index_sequence<N + 1>{});
        return std::string{};
    });
    return r;
}
template<class X, size_t... K> static std::string read(X const &t, std::index_sequence<K...>) {
    std::string out;
    ((out += (K ? " " : "") + show(t.template get<at(K + 1)>())), ...);
    return out;
}
static Tup make(std::string const &code, std::string const &how) {
    return [&]<size_t... K>(std::index_sequence<K...>) {
        if (how == "ind") return Tup{dtl::individual_construct, (code[K] - '0')...};
        if (how == "indl") {
            std::tuple<E<at(K + 1)>...> src{E<at(K + 1)>(code[K] - '0')...};
            Tup t{dtl::individual_construct, std::get<K>(src)...};
            bool const ok = ((std::get<K>(src).v == code[K] - '0') && ...); // an lvalue is copied, not moved from
            if (!ok) throw std::runtime_error("moved from an lvalue");
            return t;
        }
        return Tup((code[K] - '0')...);
    }(Seq{});
}
template<class F> static auto cat(Tup &t, std::string const &c, F f) {
    if (c == "lvalue") return f(t);
    if (c == "const") return f(std::as_const(t));
    if (c == "rvalue") return f(std::move(t));
    return f(std::move(std::as_const(t)));
}
template<class R, class Self> constexpr bool same_cat = std::is_lvalue_reference_v<R> == std::is_lvalue_reference_v<Self> && std::is_reference_v<R> && std::is_const_v<std::remove_reference_t<R>> == std::is_const_v<std::remove_reference_t<Self>>;
template<class X> static void *addr(X const &x) { return const_cast<void *>(static_cast<void const *>(&x)); }
static std::optional<Tup> t;
template<class S, size_t I, size_t n> static std::string parts(S &&sub) { // a sub-tuple is a window: same elements, same addresses
    static_assert(std::remove_cvref_t<S>::size() == n);
    std::string out;
    [&]<size_t... K>(std::index_sequence<K...>) {
        ((out += (K ? " " : "") + show(sub.template get<at(I + K)>()) + (addr(sub.template get<at(I + K)>()) == addr(t->template get<at(I + K)>()) ? "" : " elsewhere")), ...);
    }(std::make_index_sequence<n>{});
    return out;
}
template<size_t I, size_t n> constexpr T end_of = static_cast<T>(asc ? static_cast<size_t>(at(I)) + n : static_cast<size_t>(at(I)) - n);
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { t.reset(); t.emplace(); };
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        std::string r;
        if (op == "default") { t.reset(); t.emplace(); }
        else if (op == "uniform") {
            int v = int(c.i(1)), z = 0;
            t.reset();
            if (c.s(2) == "one") t.emplace(dtl::uniform_construct, int(v));
            else if (c.s(2) == "two") t.emplace(dtl::uniform_construct, v, 0);
            else if (c.s(2) == "token") t.emplace(dtl::uniform_construct, Src{v});
            else if (c.s(2) == "ltoken") { Src q{v}; t.emplace(dtl::uniform_construct, q); if (q.v != v) r = "moved from an lvalue"; }
            else t.emplace(dtl::uniform_construct, v, z);
        }
        else if (op == "make") { t.reset(); t.emplace(make(c.s(1), c.s(2))); }
        else if (op == "set") r = pos(size_t(c.i(1)), [&](auto K) { t->template get<at(K())>().v = int(c.i(2)); return ""; });
        else if (op == "get") r = pos(size_t(c.i(1)), [&](auto K) {
            return cat(*t, c.s(2), [&]<class S>(S &&x) {
                using R = decltype(std::forward<S>(x).template get<at(K())>());
                static_assert(same_cat<R, S &&> && std::is_same_v<std::remove_cvref_t<R>, E<at(K())>>);
                static_assert(std::is_same_v<typename Tup::template value_type<at(K())>, E<at(K())>>);
                R e = std::forward<S>(x).template get<at(K())>();
                bool inside = static_cast<char *>(addr(e)) >= static_cast<char *>(addr(*t)) && static_cast<char *>(addr(e)) + sizeof(e) <= static_cast<char *>(addr(*t)) + sizeof(Tup);
                return show(e) + (inside ? "" : " outside");
            });
        });
        else if (op == "take") r = pos(size_t(c.i(1)), [&](auto K) { auto e = std::move(*t).template get<at(K())>(); return show(e); });
        else if (op == "visit") {
            std::string all;
            auto f = [&](auto const &e) -> int { all += (all.empty() ? "" : " ") + show(e); return int(pos_of(ix_of<std::remove_cvref_t<decltype(e)>>)); };
            int l = c.s(1) == "lvalue" ? t->visit(f) : c.s(1) == "const" ? std::as_const(*t).visit(f) : std::move(*t).visit(f);
            r = all + " last " + std::to_string(l);
        }
        else if (op == "visitset") t->visit([](auto &e) { e.v = int(pos_of(ix_of<std::remove_cvref_t<decltype(e)>>) % 2); });
        else if (op == "copy") { Tup u(*t); r = read(u, Seq{}); u.visit([](auto &e) { e.v = 7; }); }
        else if (op == "move") { Tup u(std::move(*t)); r = read(u, Seq{}); }
        else if (op == "assign") { Tup u = make(c.s(1), "ind"); auto &x = (*t = u); if (&x != &*t) r = "another object"; if (!(u == *t)) r = "source changed"; u.visit([](auto &e) { e.v = 7; }); }
        else if (op == "massign") { Tup u = make(c.s(1), "ind"); auto &x = (*t = std::move(u)); if (&x != &*t) r = "another object"; }
        else if (op == "cmp") {
            Tup u = make(c.s(1), "ind");
            auto o = *t <=> u;
            r = o < 0 ? "<" : o > 0 ? ">" : "=";
            if ((*t == u) != (r == "=") || (*t != u) == (r == "=") || (*t < u) != (r == "<") || (*t >= u) == (r == "<") || ((u <=> *t) < 0) != (r == ">")) r += " inconsistent";
        }
        else if (op == "layout") {
            [&]<size_t... K>(std::index_sequence<K...>) {
                void *a[] = {addr(t->template get<at(K + 1)>())...};
                size_t n[] = {sizeof(E<at(K + 1)>)...};
                r = "increasing";
                for (size_t k = 0; k + 1 < N; ++k) if (static_cast<char *>(a[k]) + n[k] > static_cast<char *>(a[k + 1])) r = "overlapping";
                if (SUB && a[0] != addr(*t)) r = "first element not at the start";
            }(Seq{});
        }
#if SUB
        else if (op == "sub") r = part(size_t(c.i(1)), size_t(c.i(2)), [&](auto I, auto n) {
            return cat(*t, c.s(3), [&]<class S>(S &&x) {
                using R = decltype(std::forward<S>(x).template subtuple<at(I()), end_of<I(), n()>>());
                static_assert(same_cat<R, S &&> && std::is_same_v<std::remove_cvref_t<R>, dtl::integral_template_tuple<at(I()), end_of<I(), n()>, E>>);
                return parts<R, I(), n()>(std::forward<S>(x).template subtuple<at(I()), end_of<I(), n()>>());
            });
        });
        else if (op == "subset") r = part(size_t(c.i(1)), size_t(c.i(2)), [&](auto I, auto n) {
            auto &sub = t->template subtuple<at(I()), end_of<I(), n()>>();
            return pos(size_t(c.i(3)), [&](auto K) { if constexpr (K() >= I() && K() < I() + n()) sub.template get<at(K())>().v = int(c.i(4)); return ""; });
        });
        else if (op == "subsub") r = part(size_t(c.i(1)), size_t(c.i(2)), [&](auto I, auto n) -> std::string {
            if constexpr (n() > 1) {
                auto &sub = t->template subtuple<at(I()), end_of<I(), n()>>();
                auto &ss = sub.template subtuple<at(I() + 1), end_of<I(), n()>>();
                return parts<decltype(ss), I() + 1, n() - 1>(ss);
            }
            return "bad part";
        });
#endif
        else throw mbt::HarnessError{"op " + op};
        return r + "|" + read(std::as_const(*t), Seq{});
    };
    h.finish = [] { t.reset(); return alive ? std::to_string(alive) + " elements alive" : std::string{}; };
    return mbt::run(argc, argv, h);
}
