// Replays histories of specs/IntVariant.tla on integral_template_variant<FIRST, LAST, E>.
#include "mbt.hpp"
#include <dice/template-library/integral_template_variant.hpp>
using mbt::Cmd;
namespace dtl = dice::template_library;
#ifndef TT
#define TT int
#define FIRST 2
#define LAST 5
#endif
#ifndef KIND
#define KIND full
#endif
using T = TT;
constexpr T first = static_cast<T>(FIRST), last = static_cast<T>(LAST);
constexpr bool asc = first < last;
constexpr size_t N = asc ? static_cast<size_t>(last) - static_cast<size_t>(first) : static_cast<size_t>(first) - static_cast<size_t>(last);
constexpr T at(size_t pos) { return static_cast<T>(asc ? static_cast<size_t>(first) + (pos - 1) : static_cast<size_t>(first) - (pos - 1)); }
constexpr size_t pos_of(T ix) { return 1 + (asc ? static_cast<size_t>(ix) - static_cast<size_t>(first) : static_cast<size_t>(first) - static_cast<size_t>(ix)); }
enum kind_t { noex, copy, full };
constexpr kind_t K = KIND;
static long alive;
static std::string armed = "-";
struct boom {};
template<T ix> struct E {
    int v;
    std::unique_ptr<int> own = std::make_unique<int>(1); // a lost or doubled destructor is noticed
    char pad[8 * (1 + pos_of(ix) % 3)];
    E() noexcept : v(0) { ++alive; }
    explicit E(int x) : v(x) { if (x < 0) throw boom{}; ++alive; }
    E(E const &o) noexcept(K == noex) : v(o.v) { if constexpr (K != noex) if (armed == "copy") throw boom{}; ++alive; }
    E(E &&o) noexcept(K != full) : v(o.v) { if constexpr (K == full) if (armed == "move") throw boom{}; o.v = 9; ++alive; }
    E &operator=(E const &o) noexcept(K == noex) { if constexpr (K != noex) if (armed == "copy") throw boom{}; v = o.v; return *this; }
    E &operator=(E &&o) noexcept(K != full) { if constexpr (K == full) if (armed == "move") throw boom{}; v = std::exchange(o.v, 9); return *this; }
    ~E() { --alive; }
#ifndef PLAIN // alternatives need not be comparable
    auto operator<=>(E const &o) const { return v <=> o.v; }
    bool operator==(E const &o) const { return v == o.v; }
#endif
};
template<T ix> struct std::hash<E<ix>> { size_t operator()(E<ix> const &e) const noexcept { return size_t(e.v) * 31 + 7; } };
template<class X> constexpr T ix_of = T{};
template<T ix> constexpr T ix_of<E<ix>> = ix;
template<class X> static std::string show(X const &e) { return std::to_string(pos_of(ix_of<std::remove_cvref_t<X>>)) + ":" + std::to_string(e.v); }
using V = dtl::integral_template_variant<first, last, E>;
static_assert(std::variant_size_v<typename V::underlying_type> == N);
static_assert(std::is_same_v<typename V::index_type, T>);
static_assert((!std::is_nothrow_copy_constructible_v<V> || K == noex) && std::is_nothrow_move_constructible_v<V> == (K != full));
static_assert(!std::is_nothrow_copy_assignable_v<V> || K == noex);
static_assert(!std::is_nothrow_move_assignable_v<V> || K != full);
template<size_t I> using El = E<at(I)>;
template<class F> static std::string pos(size_t k, F f) {
    std::string r = "bad position";
    [&]<size_t... I>(std::index_sequence<I...>) { ((I + 1 == k ? void(r = f(std::integral_constant<size_t, I + 1>{})) : void()), ...); }(std::make_index_sequence<N>{});
    return r;
}
static std::string state(V const &x) {
    if (x.to_underlying().valueless_by_exception()) return "none";
    std::string out;
    for (size_t k = 1; k <= N; ++k) // exactly one alternative is reported by every observer
        out += pos(k, [&](auto I) -> std::string {
            bool h = x.template holds_alternative<at(I())>();
            if (h != x.template holds_alternative<El<I()>>()) return " holds?";
            return h ? show(x.template get<at(I())>()) : "";
        });
    return out;
}
static std::optional<V> x[2];
template<class R, class Self> constexpr bool same_cat = std::is_lvalue_reference_v<R> == std::is_lvalue_reference_v<Self> && std::is_reference_v<R> && std::is_const_v<std::remove_reference_t<R>> == std::is_const_v<std::remove_reference_t<Self>>;
template<class F> static auto cat(V &t, std::string const &c, F f) {
    if (c == "lvalue") return f(t);
    if (c == "const") return f(std::as_const(t));
    if (c == "rvalue") return f(std::move(t));
    return f(std::move(std::as_const(t)));
}
static_assert([] { dtl::integral_template_variant<first, first, E> e; return sizeof(e) > 0; }()); // an empty range has no alternative
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { for (auto &v : x) { v.reset(); v.emplace(); } };
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        int const i = c.n() > 1 && c.s(1) == "b";
        auto &a = x[i], &o = x[1 - i];
        std::string r;
        auto arm = [&](std::string const &w, auto f) {
            armed = w;
            try { f(); } catch (boom const &) { r = "thrown"; }
            armed = "-";
        };
        if (op == "default") { a.reset(); a.emplace(); }
        else if (op == "make") r = pos(size_t(c.i(2)), [&](auto I) -> std::string {
            int v = int(c.i(3));
            a.reset();
            if (c.s(4) == "inplace") a.emplace(std::in_place_type<El<I()>>, v);
            else if (c.s(4) == "copy") { El<I()> const e(v); a.emplace(e); }
            else { El<I()> e(v); a.emplace(std::move(e)); return e.v == 9 ? "" : "copied"; }
            return "";
        });
        else if (op == "value") r = pos(size_t(c.i(2)), [&](auto I) -> std::string {
            El<I()> e(int(c.i(3)));
            V *q = &*a;
            if (c.s(4) == "copy") { El<I()> const &ce = e; q = &(*a = ce); if (e.v == 9) return "moved"; }
            else { q = &(*a = std::move(e)); if (e.v != 9) return "copied"; }
            return q == &*a ? "" : "another object";
        });
        else if (op == "emplace") r = pos(size_t(c.i(2)), [&](auto I) {
            auto &e = a->template emplace<at(I())>(int(c.i(3)));
            static_assert(std::is_same_v<decltype(e), El<I()> &>);
            return show(e) + (&e == &a->template get<at(I())>() ? "" : " elsewhere");
        });
        else if (op == "emplacethrow") pos(size_t(c.i(2)), [&](auto I) { arm("-", [&] { a->template emplace<at(I())>(-1); }); return ""; });
        else if (op == "cctor") arm(c.s(2), [&] { V u(*a); r = state(u); });
        else if (op == "mctor") arm(c.s(2), [&] { V u(std::move(*a)); r = state(u); });
        else if (op == "cassign") arm(c.s(2), [&] { V &q = (*a = *o); if (&q != &*a) r = "another object"; });
        else if (op == "massign") arm(c.s(2), [&] { V &q = (*a = std::move(*o)); if (&q != &*a) r = "another object"; });
        else if (op == "self") { V &q = *a; *a = q; }
        else if (op == "get" ) r = pos(size_t(c.i(2)), [&](auto I) -> std::string {
            return cat(*a, c.s(3), [&]<class S>(S &&v) -> std::string {
                using R = decltype(std::forward<S>(v).template get<at(I())>());
                static_assert(same_cat<R, S &&> && std::is_same_v<std::remove_cvref_t<R>, El<I()>>);
                try { R e = std::forward<S>(v).template get<at(I())>(); return show(e); }
                catch (std::bad_variant_access const &) { return "bad_variant_access"; }
            });
        });
        else if (op == "take") r = pos(size_t(c.i(2)), [&](auto I) { auto e = std::move(*a).template get<at(I())>(); return show(e); });
        else if (op == "set") pos(size_t(c.i(2)), [&](auto I) { a->template get<at(I())>().v = int(c.i(3)); return ""; });
        else if (op == "holds") r = pos(size_t(c.i(2)), [&](auto I) {
            bool t = c.s(3) == "index" ? a->template holds_alternative<at(I())>() : a->template holds_alternative<El<I()>>();
            return t ? "T" : "F";
        });
        else if (op == "index") { static_assert(std::is_same_v<decltype(a->index()), T>); r = std::to_string(pos_of(a->index())); }
        else if (op == "visit") {
            r = cat(*a, c.s(2), [&]<class S>(S &&v) -> std::string {
                int calls = 0;
                try {
                    auto q = std::forward<S>(v).visit([&]<class X>(X &&e) { static_assert(same_cat<X &&, S &&>); ++calls; return show(e); });
                    return calls == 1 ? q : "calls";
                } catch (std::bad_variant_access const &) { return "bad_variant_access"; }
            });
        }
        else if (op == "visitset") a->visit([](auto &e) { e.v = e.v == 1 ? 0 : 1; });
#ifndef PLAIN
        else if (op == "cmp") {
            auto q = *a <=> *o;
            r = q < 0 ? "<" : q > 0 ? ">" : "=";
            if ((*a == *o) != (r == "=") || (*a != *o) == (r == "=") || (*a < *o) != (r == "<") || (*a > *o) != (r == ">")) r += " inconsistent";
        }
        else if (op == "hash") r = std::hash<V>{}(*x[0]) == std::hash<V>{}(*x[1]) ? "equal" : "different";
#endif
        else if (op == "under") { auto &u = std::as_const(*a).to_underlying(); r = u.valueless_by_exception() ? "none" : std::to_string(u.index() + 1); }
        else throw mbt::HarnessError{"op " + op};
        return r + "|" + state(*x[0]) + " " + state(*x[1]);
    };
    h.finish = [] { for (auto &v : x) v.reset(); return alive ? std::to_string(alive) + " elements alive" : std::string{}; };
    return mbt::run(argc, argv, h);
}
