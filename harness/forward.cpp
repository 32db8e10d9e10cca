// Replays histories of specs/Forward.tla on overloaded, match, bind_front, DICE_MEMFN and DICE_DBG.
#include "mbt.hpp"
#include <dice/template-library/functional.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/variant2.hpp>
#include <dice/template-library/integral_template_variant.hpp>
using mbt::Cmd;
using mbt::cat;
namespace dtl = dice::template_library;
#ifndef MAXB
#define MAXB 2
#endif
#ifndef MAXR
#define MAXR 2
#endif

// objects that are tracked
static int copies, calls;
struct V {
    int id;
    V const *at = this;
    explicit V(int i) : id(i) {}
    V(V const &o) : id(o.id) { ++copies; }
    V(V &&o) noexcept : id(o.id) { o.id = -1; }
    V &operator=(V const &) = delete;
    bool intact() const { return at == this; }
};
template<class T> std::string category() {
    return cat(std::is_const_v<std::remove_reference_t<T>> ? "c" : "", std::is_lvalue_reference_v<T> ? "l" : "r");
}
static V const *rest_at[10]; // where the arguments are that were passed
template<class A> std::string received(A &&a) {
    if (a.id >= 7 && rest_at[a.id] != &a) return cat(a.id, "copied");
    return cat(a.id, a.intact() ? "" : "broken", category<A &&>());
}
static V result{42};
static std::string seen;
template<class R> R give() {
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, V>) return V{42};
    else return static_cast<R>(result);
}
// a function that notes its arguments and returns R
template<class R, bool NX = false> struct Note {
    template<class... A> R operator()(A &&...a) const noexcept(NX) {
        ++calls;
        seen = "(";
        ((seen += " " + received(std::forward<A>(a))), ...);
        seen += " )";
        return give<R>();
    }
};
template<class R> struct tag { using type = R; };
template<class F> std::string with_ret(std::string const &r, F f) {
    if (r == "void") return f(tag<void>{});
    if (r == "value") return f(tag<V>{});
    if (r == "l") return f(tag<V &>{});
    if (r == "cl") return f(tag<V const &>{});
    return f(tag<V &&>{});
}
// calls f, which must return R, and describes how often it was called, what was copied and what was returned
template<class R, class F> std::string called(F f) {
    copies = calls = 0;
    std::string ret;
    static_assert(std::is_same_v<decltype(f()), R>, "another return type");
    if constexpr (std::is_void_v<R>) { f(); ret = "void"; }
    else if constexpr (std::is_same_v<R, V>) { V v = f(); ret = v.id == 42 ? "value" : "another value"; }
    else { R v = f(); ret = &v != &result ? "another object" : std::is_same_v<R, V &> ? "l" : std::is_same_v<R, V const &> ? "cl" : "r"; }
    return cat(calls == 1 ? " once" : " several times", " copies=", copies, " ", ret);
}
template<int N, class F, class... A> std::string with_args(Cmd const &c, size_t at, F f, A &&...a) { // f(arguments in the categories of the command)
    if (at >= c.n()) { if constexpr (requires { f(std::forward<A>(a)...); }) return f(std::forward<A>(a)...); else throw mbt::HarnessError{"arguments"}; }
    if constexpr (sizeof...(A) < N) {
        int const id = 7 + int(sizeof...(A));
        V v{id};
        rest_at[id] = &v;
        auto const &k = c.s(at);
        std::string r;
        if (k == "l") r = with_args<N>(c, at + 1, f, std::forward<A>(a)..., v);
        else if (k == "cl") r = with_args<N>(c, at + 1, f, std::forward<A>(a)..., std::as_const(v));
        else if (k == "r") r = with_args<N>(c, at + 1, f, std::forward<A>(a)..., std::move(v));
        else r = with_args<N>(c, at + 1, f, std::forward<A>(a)..., std::move(std::as_const(v)));
        return v.id == id && v.intact() ? r : r + " argument changed";
    }
    throw mbt::HarnessError{"too many arguments"};
}
// bind_front objects for every number of bound arguments and every result
struct Wrapped { virtual ~Wrapped() = default; virtual std::string call(std::string const &self, Cmd const &c, size_t at) = 0; virtual std::unique_ptr<Wrapped> copy() = 0; virtual std::unique_ptr<Wrapped> move() = 0; };
template<class R, class W> struct WrappedAs : Wrapped {
    W w;
    explicit WrappedAs(W &&x) : w(std::move(x)) {}
    WrappedAs(WrappedAs const &) = default;
    std::string call(std::string const &self, Cmd const &c, size_t at) override {
        auto go = [&]<class S>(S &&s) {
            return with_args<std::is_same_v<R, V> || std::is_same_v<R, V &> ? MAXR : 1>(c, at, [&]<class... A>(A &&...a) {
                auto r = called<R>([&]() -> decltype(auto) { return std::forward<S>(s)(std::forward<A>(a)...); });
                return seen + r;
            });
        };
        if (self == "l") return go(w);
        if (self == "cl") return go(std::as_const(w));
        if (self == "r") return go(std::move(w));
        return go(std::move(std::as_const(w)));
    }
    std::unique_ptr<Wrapped> copy() override { return std::make_unique<WrappedAs>(*this); }
    std::unique_ptr<Wrapped> move() override { return std::make_unique<WrappedAs>(std::move(w)); }
};
template<class R> std::string key() { return std::is_void_v<R> ? "void" : std::is_same_v<R, V> ? "value" : category<R>(); }
static std::map<std::string, std::unique_ptr<Wrapped>> wrapped; // by result
template<class R> std::string make(Cmd const &c) {
    auto store = []<class... B>(B &&...b) -> std::string {
        int const before = copies;
        auto w = dtl::bind_front<Note<R>{}>(std::forward<B>(b)...);
        std::string r = cat("copies=", copies - before);
        if constexpr ((std::is_same_v<B, V &> && ...) || (std::is_same_v<B, V> && ...)) wrapped[key<R>()] = std::make_unique<WrappedAs<R, decltype(w)>>(std::move(w));
        return r;
    };
    auto arg = [&](size_t k, V &v, auto f) { auto const &w = c.s(k); return w == "l" ? f(v) : w == "cl" ? f(std::as_const(v)) : w == "r" ? f(std::move(v)) : f(std::move(std::as_const(v))); };
    V a{1}, b{2}, d{3};
    if (c.n() == 1) return store();
    if (c.n() == 2) return arg(1, a, [&]<class A>(A &&x) { return store(std::forward<A>(x)); });
    if (c.n() == 3) return arg(1, a, [&]<class A>(A &&x) { return arg(2, b, [&]<class B>(B &&y) { return store(std::forward<A>(x), std::forward<B>(y)); }); });
#if MAXB > 2
    if (c.n() == 4) return arg(1, a, [&]<class A>(A &&x) { return arg(2, b, [&]<class B>(B &&y) { return arg(3, d, [&]<class D>(D &&z) { return store(std::forward<A>(x), std::forward<B>(y), std::forward<D>(z)); }); }); });
#endif
    throw mbt::HarnessError{"make"};
}

// forms of functions
static int twice(int x, int y) { return 10 * x + y; }
struct Obj { int x; int f(int y) { return 10 * x + y; } int g(int y) const { return 100 * x + y; } };
struct NoexceptOnly { template<class B, class A> void operator()(B &&, A &&) const noexcept(std::is_same_v<B &&, V &&> && std::is_same_v<A &&, V const &>) {} };
static constexpr int cx = dtl::bind_front<[](int a, int b, int c) { return a * 100 + b * 10 + c; }>(1, 2)(3);
static bool form(std::string const &x) {
    if (x == "function") return dtl::bind_front<twice>(1)(2) == 12 && dtl::bind_front<twice>()(1, 2) == 12 && dtl::bind_front<twice>(1, 2)() == 12;
    if (x == "pointer") return dtl::bind_front<&twice>(1)(2) == 12;
    if (x == "member") { Obj o{3}; auto f = dtl::bind_front<&Obj::f>(&o); auto g = dtl::bind_front<&Obj::f>(o); o.x = 4; return f(1) == 41 && g(1) == 31 && dtl::bind_front<&Obj::f>()(o, 2) == 42; }
    if (x == "constmember") { Obj const o{3}; auto const f = dtl::bind_front<&Obj::g>(o); return f(1) == 301; }
    if (x == "data") { Obj o{3}; dtl::bind_front<&Obj::x>(&o)() = 9; return o.x == 9; }
    if (x == "lambda") return dtl::bind_front<[](auto... a) { return (0 + ... + a); }>(1, 2)(3, 4) == 10;
    if (x == "functor") return dtl::bind_front<std::minus<>{}>(5)(3) == 2;
    if (x == "moveonly") { auto f = dtl::bind_front<[](std::unique_ptr<int> p, std::unique_ptr<int> q) { return *p * 10 + *q; }>(std::make_unique<int>(4)); return std::move(f)(std::make_unique<int>(2)) == 42; }
    if (x == "array") { int a[3] = {1, 2, 3}; auto f = dtl::bind_front<[](int const *p, int k) { return p[k]; }>(a); a[1] = 7; return f(1) == 7; }
    if (x == "text") { auto f = dtl::bind_front<[](std::string const &p, std::string const &k) { return p + k; }>("ab"); return f("c") == "abc" && f("d") == "abd"; }
    if (x == "refwrap") { int k = 0; auto f = dtl::bind_front<[](int &r, int a) { r += a; }>(std::ref(k)); f(2); f(3); return k == 5; }
    return cx == 123;
}
// overload sets
struct Pl { std::string operator()(V &) const { return "l"; } };
struct Pc { std::string operator()(V const &) const { return "cl"; } };
struct Pr { std::string operator()(V &&) const { return "r"; } };
struct Pk { std::string operator()(V const &&) const { return "cr"; } };
struct Pg { std::string operator()(auto &&) const { return "gen"; } };
template<class... Fs> std::string resolve(std::string const &c, dtl::overloaded<Fs...> const &o) {
    V v{1};
    auto go = [&]<class A>(A &&a) -> std::string { if constexpr (requires { o(std::forward<A>(a)); }) return o(std::forward<A>(a)); else return "none"; };
    return c == "l" ? go(v) : c == "cl" ? go(std::as_const(v)) : c == "r" ? go(std::move(v)) : go(std::move(std::as_const(v)));
}
template<size_t I, class... Fs> std::string choose(std::string const &set, std::string const &c, Fs... fs) {
    using All = std::tuple<Pl, Pc, Pr, Pk, Pg>;
    if constexpr (I == 5) { if constexpr (sizeof...(Fs) > 0) return resolve(c, dtl::overloaded{fs...}); else throw mbt::HarnessError{"empty"}; }
    else return set[I] == '-' ? choose<I + 1>(set, c, fs...) : choose<I + 1>(set, c, std::tuple_element_t<I, All>{}, fs...);
}
// match
template<int K> struct Alt : V { Alt() : V(K) {} Alt(Alt const &o) : V(o) {} };
template<auto K> struct NAlt : V { NAlt() : V(int(K)) {} NAlt(NAlt const &o) : V(o) {} };
template<class R, template<auto> class A> std::string match_with(std::string const &vc, auto &&call) {
    // (visitors are copied or moved into the overload set; what they refer to is not)
    auto visitor = [&]<int K>() { return [&]<class X>(X &&x) -> R requires std::is_same_v<std::remove_cvref_t<X>, A<K>> { ++calls; seen = cat("visitor ", K, " ", received(std::forward<X>(x))); return give<R>(); }; };
    auto v0 = visitor.template operator()<0>(); auto v1 = visitor.template operator()<1>(); auto v2 = visitor.template operator()<2>();
    std::string r;
    if (vc == "l") r = called<R>([&]() -> decltype(auto) { return call(v0, v1, v2); });
    else if (vc == "cl") r = called<R>([&]() -> decltype(auto) { return call(std::as_const(v0), std::as_const(v1), std::as_const(v2)); });
    else r = called<R>([&]() -> decltype(auto) { return call(std::move(v0), std::move(v1), std::move(v2)); });
    return seen + r;
}
template<auto K> using AltOf = Alt<int(K)>;
template<template<auto> class A, class Var> std::string match_cat(Var &var, Cmd const &c) {
    return with_ret(c.s(5), [&]<class R>(tag<R>) {
        auto go = [&]<class X>(X &&x) { return match_with<R, A>(c.s(4), [&]<class... F>(F &&...f) -> decltype(auto) { return dtl::match(std::forward<X>(x), std::forward<F>(f)...); }); };
        auto const &k = c.s(3);
        return k == "l" ? go(var) : k == "cl" ? go(std::as_const(var)) : k == "r" ? go(std::move(var)) : go(std::move(std::as_const(var)));
    });
}
struct Bad { Bad() = default; Bad(Bad const &) { throw 1; } Bad &operator=(Bad const &) = default; };
// DICE_MEMFN
struct Host {
    std::string name = "object";
    template<class R, class S> static R note(S &&self, auto &&...a) { Note<void>{}(static_cast<decltype(a)>(a)...); seen = (std::is_const_v<std::remove_reference_t<S>> ? "const " : "object ") + seen; return give<R>(); }
    template<class... A> void fvoid(A &&...a) { note<void>(*this, std::forward<A>(a)...); }
    template<class... A> void fvoid(A &&...a) const { note<void>(*this, std::forward<A>(a)...); }
    template<class... A> V fvalue(A &&...a) { return note<V>(*this, std::forward<A>(a)...); }
    template<class... A> V fvalue(A &&...a) const { return note<V>(*this, std::forward<A>(a)...); }
    template<class... A> V &fl(A &&...a) { return note<V &>(*this, std::forward<A>(a)...); }
    template<class... A> V &fl(A &&...a) const { return note<V &>(*this, std::forward<A>(a)...); }
    template<class... A> V const &fcl(A &&...a) { return note<V const &>(*this, std::forward<A>(a)...); }
    template<class... A> V const &fcl(A &&...a) const { return note<V const &>(*this, std::forward<A>(a)...); }
    template<class... A> V &&fr(A &&...a) { return note<V &&>(*this, std::forward<A>(a)...); }
    template<class... A> V &&fr(A &&...a) const { return note<V &&>(*this, std::forward<A>(a)...); }
#define HOST_RUN(CONST) \
    std::string run(std::string const &r, Cmd const &c) CONST { \
        auto v = DICE_MEMFN(fvoid); auto w = DICE_MEMFN(fvalue); auto l = DICE_MEMFN(fl); auto cl = DICE_MEMFN(fcl); auto rr = DICE_MEMFN(fr); \
        return with_args<2>(c, 3, [&]<class... A>(A &&...a) { \
            std::string x = r == "void" ? called<void>([&]() -> decltype(auto) { return v(std::forward<A>(a)...); }) : r == "value" ? called<V>([&]() -> decltype(auto) { return w(std::forward<A>(a)...); }) \
                          : r == "l" ? called<V &>([&]() -> decltype(auto) { return l(std::forward<A>(a)...); }) : r == "cl" ? called<V const &>([&]() -> decltype(auto) { return cl(std::forward<A>(a)...); }) \
                          : called<V &&>([&]() -> decltype(auto) { return rr(std::forward<A>(a)...); }); \
            return seen + x; \
        }); \
    }
    HOST_RUN()
    HOST_RUN(const)
    std::string bound(Cmd const &c) {
        V a{1};
        V const &ca = a;
        auto l = DICE_MEMFN(fvalue, a);
        auto cl = DICE_MEMFN(fvalue, ca);
        auto r = DICE_MEMFN(fvalue, std::move(a));
        return with_args<1>(c, 2, [&]<class... A>(A &&...x) {
            std::string t = called<V>([&]() -> decltype(auto) { return c.s(1) == "l" ? l(std::forward<A>(x)...) : c.s(1) == "cl" ? cl(std::forward<A>(x)...) : r(std::forward<A>(x)...); });
            return seen + t;
        });
    }
    int sum = 0;
    int add(int a, int b) { sum += a; return sum * 100 + b; }
    int scale(int a, int b) const { return a * b; }
    std::string which(int) { return "int"; }
    std::string which(std::string const &) { return "string"; }
    Host *self() { return this; }
    bool form(std::string const &x) {
        if (x == "evaluates") { int n = 0; auto f = DICE_MEMFN(add, ++n); bool r = n == 0; r &= f(5) == 105; r &= n == 1; r &= f(6) == 306; return r && n == 2; } // 1, then 1 + 2
        if (x == "identity") { auto f = DICE_MEMFN(self); return f() == this; }
        if (x == "range") { std::vector<int> v{1, 2, 3}; int k = 3; auto r = v | std::views::transform(DICE_MEMFN(scale, k)); k = 5; return std::ranges::equal(r, std::vector{5, 10, 15}); }
        if (x == "constobject") return std::as_const(*this).cform();
        auto f = DICE_MEMFN(which); return f(1) == "int" && f(std::string()) == "string";
    }
    bool cform() const { auto f = DICE_MEMFN(scale, 6); return f(7) == 42; }
};
struct Unmovable { std::string t = "u!"; Unmovable() = default; Unmovable(Unmovable &&) = delete; };
template<> struct std::formatter<Unmovable> : std::formatter<std::string> { auto format(Unmovable const &u, auto &ctx) const { return std::formatter<std::string>::format(u.t, ctx); } };
struct Capture { // of what is printed to standard error
    std::ostringstream s;
    std::streambuf *old = std::cerr.rdbuf(s.rdbuf());
    ~Capture() { std::cerr.rdbuf(old); }
};
static std::string dbg_line(std::string const &x) {
    Capture cap;
    int a = 2, line = 0;
    bool good = true;
    std::string t = "{}{0}", n = "x\ny";
    Unmovable u;
    if (x == "int") { line = __LINE__; good = DICE_DBG(a * 2) == 4; }
    else if (x == "braces") { line = __LINE__; good = &DICE_DBG(t) == &t; }
    else if (x == "string") { line = __LINE__; std::string q = DICE_DBG(std::string("%d") + "x"); good = q == "%dx"; }
    else if (x == "nested") { line = __LINE__; good = DICE_DBG(DICE_DBG(a + 1) * 2) == 6; }
    else if (x == "effects") { line = __LINE__; good = &DICE_DBG(++a) == &a && a == 3; }
    else if (x == "unmovable") { line = __LINE__; good = &DICE_DBG(u) == &u; }
    else if (x == "empty") { line = __LINE__; std::string q = DICE_DBG(std::string()); good = q.empty(); }
    else if (x == "bool") { line = __LINE__; good = DICE_DBG(a == 2); }
    else { line = __LINE__; good = &DICE_DBG(n) == &n; }
    std::string r = cap.s.str();
    auto replace = [&](std::string const &what, std::string const &by) { for (size_t p = 0; (p = r.find(what, p)) != r.npos; p += by.size()) r.replace(p, what.size(), by); };
    replace(cat(":", line, "]"), ":{l}]");
    // the file may be given with its path
    for (size_t p = 0; (p = r.find("forward.cpp", p)) != r.npos;) { auto b = r.rfind('[', p); r.replace(b + 1, p + 11 - b - 1, "{f}"); p = b + 3; }
    replace("\n", "|");
    replace("\"", "~");
    return good ? r : r + " another result";
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.leak_check = false;
    h.reset = [] { wrapped.clear(); };
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "make" || op == "store") {
            wrapped.clear();
            std::set<std::string> rs;
            for (auto r : {"void", "value", "l", "cl", "r"}) rs.insert(with_ret(r, [&]<class R>(tag<R>) { return make<R>(c); }));
            return rs.size() == 1 ? *rs.begin() : "depends on the result";
        }
        if (op == "drop") { wrapped.clear(); return ""; }
        if (op == "copywrapper" || op == "movewrapper") {
            std::set<std::string> rs;
            for (auto &[k, w] : wrapped) { copies = 0; w = op == "copywrapper" ? w->copy() : w->move(); rs.insert(cat("copies=", copies)); }
            return rs.size() == 1 ? *rs.begin() : "depends on the result";
        }
        if (op == "call") return with_ret(c.s(2), [&]<class R>(tag<R>) { return wrapped.at(key<R>())->call(c.s(1), c, 3); });
        if (op == "form") return form(c.s(1)) ? "ok" : "another result";
        if (op == "noexcept") {
            V v{1};
            auto go = [&]<class S>(S &&) -> std::string {
                auto const &k = c.s(2);
                return cat(k == "l" ? std::is_nothrow_invocable_v<S, V &> : k == "cl" ? std::is_nothrow_invocable_v<S, V const &> : k == "r" ? std::is_nothrow_invocable_v<S, V &&> : std::is_nothrow_invocable_v<S, V const &&>);
            };
            auto with = [&](auto f) { auto const &k = c.s(1); return k == "l" ? go(f) : k == "cl" ? go(std::as_const(f)) : k == "r" ? go(std::move(f)) : go(std::move(std::as_const(f))); };
            auto const &b = c.s(3); // the category of the argument that was bound does not matter
            return b == "l" ? with(dtl::bind_front<NoexceptOnly{}>(v)) : b == "cl" ? with(dtl::bind_front<NoexceptOnly{}>(std::as_const(v))) : b == "r" ? with(dtl::bind_front<NoexceptOnly{}>(std::move(v)))
                            : with(dtl::bind_front<NoexceptOnly{}>(std::move(std::as_const(v))));
        }
        if (op == "overloaded") return choose<0>(c.s(1), c.s(2));
        if (op == "match") {
            auto const &k = c.s(1); int a = int(c.i(2));
            if (k == "std") { std::variant<Alt<0>, Alt<1>, Alt<2>> v; if (a == 1) v.emplace<1>(); if (a == 2) v.emplace<2>(); return match_cat<AltOf>(v, c); }
            if (k == "one") { std::variant<Alt<0>> v; return match_cat<AltOf>(v, c); }
            if (k == "many") { std::variant<Alt<0>, std::string, Alt<1>, std::vector<int>, Alt<2>> v; // more alternatives, which general visitors take
                if (a == 1) v.emplace<2>(); if (a == 2) v.emplace<4>();
                return with_ret(c.s(5), [&]<class R>(tag<R>) {
                    auto other = [](auto const &x) -> R requires (!std::is_base_of_v<V, std::remove_cvref_t<decltype(x)>>) { seen = "other visitor"; return give<R>(); };
                    auto go = [&]<class X>(X &&x) { return match_with<R, AltOf>(c.s(4), [&]<class... F>(F &&...f) -> decltype(auto) { return dtl::match(std::forward<X>(x), std::forward<F>(f)..., other); }); };
                    auto const &q = c.s(3);
                    return q == "l" ? go(v) : q == "cl" ? go(std::as_const(v)) : q == "r" ? go(std::move(v)) : go(std::move(std::as_const(v)));
                });
            }
            dtl::variant2<Alt<0>, Alt<1>> v;
            if (a == 1) v.emplace<1>();
            return match_cat<AltOf>(v, c);
        }
        if (op == "generic") {
            std::variant<Alt<0>, Alt<1>, Alt<2>> v; int a = int(c.i(1)); if (a == 1) v.emplace<1>(); if (a == 2) v.emplace<2>();
            auto go = [&]<class X>(X &&x) {
                return dtl::match(std::forward<X>(x), []<class Y>(Y &&y) requires std::is_same_v<std::remove_cvref_t<Y>, Alt<1>> { return "special " + received(std::forward<Y>(y)); },
                                  []<class Y>(Y &&y) requires (!std::is_same_v<std::remove_cvref_t<Y>, Alt<1>>) { return "general " + received(std::forward<Y>(y)); });
            };
            auto const &k = c.s(2);
            return k == "l" ? go(v) : k == "cl" ? go(std::as_const(v)) : k == "r" ? go(std::move(v)) : go(std::move(std::as_const(v)));
        }
        if (op == "valueless") {
            std::variant<int, Bad> v; Bad bad;
            try { v.emplace<1>(bad); } catch (int) {}
            try { dtl::match(v, [](auto const &) {}); return "visited"; } catch (std::bad_variant_access const &) { return "bad_variant_access"; }
        }
        if (op == "valueless2") {
            dtl::variant2<std::string, Bad> v; Bad bad;
            try { v.emplace<1>(bad); } catch (int) {}
            try { dtl::match(v, [](auto const &) {}); return "visited"; } catch (std::bad_variant_access const &) { return "bad_variant_access"; }
        }
        if (op == "captures") { // visitors that can only be moved, with state
            std::variant<int, std::string> v; if (c.i(1)) v = "x";
            auto p = std::make_unique<int>(5);
            int r = dtl::match(v, [p = std::move(p)](int) mutable { return ++*p; }, [k = 7](std::string const &) mutable { return ++k; });
            return r == (c.i(1) ? 8 : 6) ? "ok" : "another result";
        }
        if (op == "throwing") {
            std::variant<int, std::string> v; if (c.i(1)) v = "x";
            try { dtl::match(v, [](int) { throw std::runtime_error{"i"}; }, [](std::string const &) { throw std::runtime_error{"s"}; }); }
            catch (std::runtime_error const &e) { return e.what() == std::string(c.i(1) ? "s" : "i") ? "thrown" : "another exception"; }
            return "not thrown";
        }
        if (op == "memfn") { Host o; return c.s(1) == "object" ? o.run(c.s(2), c) : std::as_const(o).run(c.s(2), c); }
        if (op == "memfnbound") { Host o; return o.bound(c); }
        if (op == "memfnform") { Host o; return o.form(c.s(1)) ? "ok" : "another result"; }
        if (op == "dbg") {
            Capture cap;
            Unmovable u;
            auto go = [&]<class R>(R &&r) { return category<R &&>() + (&r == &u ? " same" : " other"); };
            auto const &k = c.s(1);
            return k == "l" ? go(DICE_DBG(u)) : k == "cl" ? go(DICE_DBG(std::as_const(u))) : k == "r" ? go(DICE_DBG(std::move(u))) : go(DICE_DBG(std::move(std::as_const(u))));
        }
        if (op == "dbgline") return dbg_line(c.s(1));
        throw mbt::HarnessError{"op " + op};
    };
    return mbt::run(argc, argv, h);
}
