#include <dice/template-library/variant2.hpp>
#include "mbt.hpp"
#include <compare>
#include <format>
#include <limits>
#include <memory>
#include <unordered_set>
#include <utility>
namespace dtl = dice::template_library;
struct Weak {
    int k = 1;
    Weak() = default;
    explicit Weak(int x) : k(x) {}
    static int rank(int k) { return k == 3 ? 2 : 1; }
    friend std::weak_ordering operator<=>(Weak const &a, Weak const &b) { return rank(a.k) <=> rank(b.k); }
    friend bool operator==(Weak const &a, Weak const &b) { return rank(a.k) == rank(b.k); }
};
struct EqOnly { int k = 1; EqOnly() = default; explicit EqOnly(int x) : k(x) {} friend bool operator==(EqOnly const &a, EqOnly const &b) { return a.k == b.k; } };
using Int = int;
using Dbl = double;
using Str = std::string;
template<> struct std::hash<Weak> { size_t operator()(Weak const &w) const noexcept { return size_t(Weak::rank(w.k)); } };
template<> struct std::hash<EqOnly> { size_t operator()(EqOnly const &w) const noexcept { return size_t(w.k); } };
template<> struct std::formatter<Weak> : std::formatter<std::string> { auto format(Weak const &w, auto &c) const { return std::formatter<std::string>::format("w" + std::to_string(w.k), c); } };
template<> struct std::formatter<EqOnly> : std::formatter<std::string> { auto format(EqOnly const &w, auto &c) const { return std::formatter<std::string>::format("e" + std::to_string(w.k), c); } };

template<class T> T val(int k) {
    if constexpr (std::is_same_v<T, int>) return k == 1 ? -5 : k == 2 ? 0 : 7;
    else if constexpr (std::is_same_v<T, double>) return k == 1 ? -0.0 : k == 2 ? 0.0 : k == 3 ? 1.5 : std::numeric_limits<double>::quiet_NaN();
    else if constexpr (std::is_same_v<T, std::string>) return k == 1 ? "" : k == 2 ? "a" : "ab";
    else return T(k);
}
template<class T> std::string show(T const &v) { return std::format("{}", v); }
struct Boom {};
template<class T> struct Thrower { operator T() const { throw Boom{}; } };
using A = TA;
using B = TB;
using V = dtl::variant2<A, B>;
static_assert(std::is_same_v<dtl::variant<A, B>, V>);
static_assert(std::is_same_v<std::variant_alternative_t<0, V>, A> && std::is_same_v<std::variant_alternative_t<1, V>, B> && std::variant_size_v<V> == 2);

template<class Want, class F> bool cat_ok(F f, void const *p) {
    using Got = decltype(f());
    static_assert(std::is_same_v<Got, Want>, "value category or constness lost");
    auto &&r = f();
    return static_cast<void const *>(std::addressof(r)) == p;
}
// the visitor records what it was called with
struct Seen { void const *p = nullptr; int n = 0; int cat = -1; size_t alt = 9; };
struct Rec {
    Seen *s;
    void put(void const *p, int c, size_t a) const { s->p = p; s->cat = c; s->alt = a; ++s->n; }
    int operator()(A &x) const { put(std::addressof(x), 0, 0); return 40; }
    int operator()(A const &x) const { put(std::addressof(x), 1, 0); return 41; }
    int operator()(A &&x) const { put(std::addressof(x), 2, 0); return 42; }
    int operator()(A const &&x) const { put(std::addressof(x), 3, 0); return 43; }
    int operator()(B &x) const { put(std::addressof(x), 0, 1); return 50; }
    int operator()(B const &x) const { put(std::addressof(x), 1, 1); return 51; }
    int operator()(B &&x) const { put(std::addressof(x), 2, 1); return 52; }
    int operator()(B const &&x) const { put(std::addressof(x), 3, 1); return 53; }
};
template<class X, size_t ix> bool cats(V &v) {
    X *p = dtl::get_if<ix>(&v);
    V const &c = v;
    bool ok = p && dtl::get_if<X>(&v) == p && dtl::get_if<ix>(&c) == p && dtl::get_if<X>(&c) == p;
    static_assert(std::is_same_v<decltype(dtl::get_if<ix>(&c)), X const *> && std::is_same_v<decltype(dtl::get_if<X>(&c)), X const *>);
    ok &= cat_ok<X &>([&]() -> decltype(auto) { return dtl::get<ix>(v); }, p) && cat_ok<X &>([&]() -> decltype(auto) { return dtl::get<X>(v); }, p);
    ok &= cat_ok<X const &>([&]() -> decltype(auto) { return dtl::get<ix>(c); }, p) && cat_ok<X const &>([&]() -> decltype(auto) { return dtl::get<X>(c); }, p);
    ok &= cat_ok<X &&>([&]() -> decltype(auto) { return dtl::get<ix>(std::move(v)); }, p) && cat_ok<X &&>([&]() -> decltype(auto) { return dtl::get<X>(std::move(v)); }, p);
    ok &= cat_ok<X const &&>([&]() -> decltype(auto) { return dtl::get<ix>(std::move(c)); }, p) && cat_ok<X const &&>([&]() -> decltype(auto) { return dtl::get<X>(std::move(c)); }, p);
    for (int k = 0; k < 4; ++k) {
        Seen s;
        Rec r{&s};
        int got = k == 0 ? dtl::visit(r, v) : k == 1 ? dtl::visit(r, c) : k == 2 ? dtl::visit(std::as_const(r), std::move(v)) : dtl::visit(std::move(r), std::move(c));
        ok &= s.n == 1 && s.cat == k && s.alt == ix && s.p == p && got == int(40 + 10 * ix) + k;
    }
    // results by reference and by value
    auto ref = [](auto &x) -> void const *& { static thread_local void const *q; q = std::addressof(x); return q; };
    ok &= cat_ok<void const *&>([&]() -> decltype(auto) { return dtl::visit(ref, v); }, &ref(*p)) && ref(*p) == p;
    dtl::visit([](auto const &) {}, v);
    return ok;
}
template<class V> std::string compare(V const &a, V const &b) {
    bool e = a == b;
    if ((a != b) == e) return "== and != agree";
    if constexpr (std::three_way_comparable<V>) {
        auto o = a <=> b;
        using Want = std::common_comparison_category_t<std::compare_three_way_result_t<std::variant_alternative_t<0, V>>, std::compare_three_way_result_t<std::variant_alternative_t<1, V>>>;
        static_assert(std::is_same_v<decltype(o), Want>);
        int r = o == 0 ? 0 : o < 0 ? 1 : o > 0 ? 2 : 3;
        if (e != (r == 0) || (a < b) != (r == 1) || (a > b) != (r == 2) || (a <= b) != (r < 2) || (a >= b) != (r == 0 || r == 2)) return "operators disagree";
        return std::to_string(r);
    }
    return e ? "T" : "F";
}
template<class F> std::string guarded(F f) { try { return f(); } catch (std::bad_variant_access const &) { return "throws"; } }

int main(int argc, char **argv) {
    std::unique_ptr<V> s[3];
    mbt::Harness H;
    H.reset = [&] { for (int k : {1, 2}) s[k] = std::make_unique<V>(std::in_place_index<0>, val<A>(1)); };
    H.finish = [&] { s[1].reset(); s[2].reset(); return std::string(); };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "cmp") {
            return compare(std::as_const(*s[1]), std::as_const(*s[2]));
        }
        if (op == "hash") {
            std::hash<V> h;
            if (h(*s[1]) != h(std::as_const(*s[1]))) return "hash is not a function";
            V copy = *s[1];
            if (h(copy) != h(*s[1])) return "hash of a copy differs";
            return *s[1] == *s[2] ? h(*s[1]) == h(*s[2]) ? "equal" : "equal variants, different hashes" : "any";
        }
        int k = int(c.i(1));
        V &v = *s[k];
        V const &cv = v;
        if (op == "set") {
            int i = int(c.i(2)), x = int(c.i(3));
            if (i == 0) v = val<A>(x);
            else if (i == 1) v = val<B>(x);
            else { try { v.emplace<0>(Thrower<A>{}); } catch (Boom const &) {} }
            return std::format("{}", cv);
        }
        if (op == "obs") {
            auto gi = [](auto const *p) { return p ? show(*p) : std::string("null"); };
            std::string g0 = guarded([&] { return show(dtl::get<0>(v)); }), g1 = guarded([&] { return show(dtl::get<1>(v)); });
            if (g0 != guarded([&] { return show(dtl::get<A>(cv)); }) || g1 != guarded([&] { return show(dtl::get<B>(cv)); }) ||
                g0 != guarded([&] { return show(dtl::get<0>(std::move(cv))); }) || g1 != guarded([&] { return show(dtl::get<1>(std::move(cv))); })) return "get forms disagree";
            std::string i0 = gi(dtl::get_if<0>(&v)), i1 = gi(dtl::get_if<1>(&v));
            if (i0 != gi(dtl::get_if<A>(&cv)) || i1 != gi(dtl::get_if<B>(&cv))) return "get_if forms disagree";
            V *np = nullptr;
            V const *ncp = nullptr;
            if (dtl::get_if<0>(np) || dtl::get_if<1>(np) || dtl::get_if<0>(ncp) || dtl::get_if<1>(ncp) || dtl::get_if<A>(np) || dtl::get_if<B>(np) || dtl::get_if<A>(ncp) || dtl::get_if<B>(ncp)) return "get_if of null";
            if (dtl::holds_alternative<struct Other>(v)) return "holds a foreign type";
            return mbt::cat("index=", v.index() == std::variant_npos ? 2 : int(v.index()), " valueless=", v.valueless_by_exception(), " holds=", dtl::holds_alternative<A>(v), dtl::holds_alternative<B>(v),
                            " get=", g0, ",", g1, " get_if=", i0, ",", i1,
                            " visit=", guarded([&] { return dtl::visit([]<class X>(X const &x) { return mbt::cat(std::is_same_v<X, A> ? 0 : 1, ":", show(x)); }, v); }), " format=", std::format("{}", cv));
        }
        if (op == "cat") {
            if (v.valueless_by_exception()) {
                int n = 0;
                Seen sn;
                Rec r{&sn};
                auto t = [&](auto f) { try { f(); } catch (std::bad_variant_access const &) { ++n; } };
                t([&] { dtl::visit(r, v); }); t([&] { dtl::visit(r, cv); }); t([&] { dtl::visit(r, std::move(v)); }); t([&] { dtl::visit(r, std::move(cv)); });
                return n == 4 && sn.n == 0 ? "throws" : "visit of a valueless variant does not throw";
            }
            bool ok = v.index() == 0 ? cats<A, 0>(v) : cats<B, 1>(v);
            return ok ? "same object" : "not the held object";
        }
        throw mbt::HarnessError("op " + op);
    };
    return mbt::run(argc, argv, H);
}
