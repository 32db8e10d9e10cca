// Replays histories of specs/Traits.tla on type_traits and lazy_conditional.
#include "mbt.hpp"
#include <dice/template-library/type_traits.hpp>
#include <dice/template-library/lazy_conditional.hpp>
using mbt::Cmd;
using mbt::cat;
namespace dtl = dice::template_library;
#ifndef CASES
#define CASES 3
#endif
template<class T> std::string quals() { // qualifiers of a type
    using N = std::remove_reference_t<T>;
    std::string s;
    if (std::is_const_v<N>) s += "c";
    if (std::is_volatile_v<N>) s += "v";
    if (std::is_lvalue_reference_v<T>) s += "l";
    if (std::is_rvalue_reference_v<T>) s += "r";
    return s;
}
template<class T, class Base> std::string shown() {
    if (!std::is_same_v<std::remove_cvref_t<T>, Base>) return "another type";
    auto q = quals<T>();
    return q.empty() ? "-" : q;
}
template<class B, class F> std::string with(std::string const &w, F f) { // f<qualified B>
    bool c = w.find('c') != w.npos, v = w.find('v') != w.npos, l = w.find('l') != w.npos, r = w.find('r') != w.npos;
    auto ref = [&]<class X>() { return l ? f.template operator()<X &>() : r ? f.template operator()<X &&>() : f.template operator()<X>(); };
    return c && v ? ref.template operator()<B const volatile>() : c ? ref.template operator()<B const>() : v ? ref.template operator()<B volatile>() : ref.template operator()<B>();
}
struct From {};
struct To {};
struct Empty {};
struct Final final {};
struct Derived : Empty {};
struct Virtual { virtual void f() {} };
struct Member { int x; };
struct NonMovable { NonMovable() = default; NonMovable(NonMovable &&) = delete; };
enum struct Enum { a };

template<int P> struct Takes;
#define PARAM(k, ...) template<> struct Takes<k> { \
    struct plain { int operator()(__VA_ARGS__); }; struct constant { int operator()(__VA_ARGS__) const; }; \
    struct lonly { int operator()(__VA_ARGS__) &; }; struct ronly { int operator()(__VA_ARGS__) &&; }; };
PARAM(0)
PARAM(1, int)
PARAM(2, int &)
PARAM(3, int const &)
PARAM(4, int &&)
template<> struct Takes<5> {
    struct plain { int operator()(auto &&); }; struct constant { int operator()(auto &&) const; };
    struct lonly { int operator()(auto &&) &; }; struct ronly { int operator()(auto &&) &&; };
};
template<class F, class... A> std::string strict_with() { return cat(dtl::is_strict_invocable_r_v<int, F, A...> && !dtl::is_strict_invocable_r_v<long, F, A...> && !dtl::is_strict_invocable_r_v<void, F, A...>); }
template<class F> std::string strict_args(std::string const &a) {
    if (a == "none") return strict_with<F>();
    if (a == "v") return strict_with<F, int>();
    if (a == "l") return strict_with<F, int &>();
    if (a == "cl") return strict_with<F, int const &>();
    return strict_with<F, int &&>();
}
template<class F> std::string strict_category(std::string const &f, std::string const &a) {
    if (f == "v") return strict_args<F>(a);
    if (f == "l") return strict_args<F &>(a);
    if (f == "cv") return strict_args<F const>(a);
    return strict_args<F const &>(a);
}
template<int P> std::string strict_kind(std::string const &k, std::string const &f, std::string const &a) {
    if (k == "plain") return strict_category<typename Takes<P>::plain>(f, a);
    if (k == "const") return strict_category<typename Takes<P>::constant>(f, a);
    if (k == "lonly") return strict_category<typename Takes<P>::lonly>(f, a);
    return strict_category<typename Takes<P>::ronly>(f, a);
}
template<class F> std::string ret(std::string const &w, F f) {
    if (w == "void") return f.template operator()<void>();
    if (w == "int") return f.template operator()<int>();
    if (w == "long") return f.template operator()<long>();
    if (w == "intref") return f.template operator()<int &>();
    if (w == "constref") return f.template operator()<int const &>();
    return f.template operator()<NonMovable>();
}
template<class T> struct Never { static_assert(sizeof(T) == 0, "instantiated a provider that is not selected"); using type = T; };
template<class T> struct NoSuch { using type = typename T::value_type; };
template<int K, int Salt> struct Provider; // a provider that is different for every use
template<int Salt> struct Provider<1, Salt> { using type = Empty; };
template<int Salt> struct Provider<2, Salt> { using type = int; };
template<int Salt> struct Provider<3, Salt> : std::conditional_t<Salt % 2 != 0, std::type_identity<Never<std::integral_constant<int, Salt>>>, std::type_identity<NoSuch<int>>>::type {};
template<class T> std::string chosen() { return std::is_same_v<T, Empty> ? "1" : std::is_same_v<T, int> ? "2" : "another type"; }
template<int P> constexpr char provider_name = P == 1 ? '1' : P == 2 ? '2' : 'P';
static std::map<std::string, std::string> switches;
template<bool Cond, int P> struct C { static constexpr bool cond = Cond; static constexpr int p = P; };
template<int D, class... Cs> void enter() {
    constexpr int first = [] { int r = D; bool found = false; ((!found && Cs::cond ? (r = Cs::p, found = true) : false), ...); return r; }();
    if constexpr (first == 1 || first == 2) {
        std::string code = "switch ";
        code += D == 0 ? '-' : provider_name<D>;
        ((code += Cs::cond ? 'T' : 'F', code += provider_name<Cs::p>), ...);
        constexpr int salt = [] { int s = D; ((s = s * 7 + Cs::cond * 3 + Cs::p), ...); return s; }();
        if constexpr (D == 0) switches[code] = chosen<dtl::lazy_switch_t<dtl::case_<Cs::cond, Provider<Cs::p, salt>>...>>();
        else switches[code] = chosen<dtl::lazy_switch_default_t<Provider<D, salt>, dtl::case_<Cs::cond, Provider<Cs::p, salt>>...>>();
    }
    if constexpr (sizeof...(Cs) < CASES) {
        enter<D, Cs..., C<true, 1>>(); enter<D, Cs..., C<true, 2>>(); enter<D, Cs..., C<true, 3>>();
        enter<D, Cs..., C<false, 1>>(); enter<D, Cs..., C<false, 2>>(); enter<D, Cs..., C<false, 3>>();
    }
}
template<bool Cond, int X, int Y> void enter_conditional() {
    if constexpr ((Cond ? X : Y) != 3)
        switches[cat("conditional ", Cond ? "T" : "F", provider_name<X>, provider_name<Y>)] = chosen<dtl::lazy_conditional_t<Cond, Provider<X, 1000 + X>, Provider<Y, 1001 + Y>>>();
    if constexpr (Y < 3) enter_conditional<Cond, X, Y + 1>();
    else if constexpr (X < 3) enter_conditional<Cond, X + 1, 1>();
    else if constexpr (Cond) enter_conditional<false, 1, 1>();
}
static std::string const content = "a text that is too long for the object itself";
template<class T> std::string after(std::string const &source, T &&result) { // result of the macro in its declared category
    std::string taken(static_cast<T &&>(result));
    if (taken != content) return "another value";
    return source == content ? " kept" : source.empty() ? " moved" : " changed";
}
int main(int argc, char **argv) {
    enter_conditional<true, 1, 1>();
    enter<0>(); enter<1>(); enter<2>(); enter<3>();
    mbt::Harness h;
    h.leak_check = false;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "conditional" || op == "switch") return switches.at(op + " " + c.s(1));
        if (op.starts_with("copy_")) return with<From>(c.s(1), [&]<class F>() { return with<To>(c.s(2), [&]<class T>() -> std::string {
            if (op == "copy_const") return shown<dtl::copy_const_t<F, T>, To>();
            if (op == "copy_volatile") return shown<dtl::copy_volatile_t<F, T>, To>();
            if (op == "copy_cv") return shown<dtl::copy_cv_t<F, T>, To>();
            if (op == "copy_reference") return shown<dtl::copy_reference_t<F, T>, To>();
            return shown<dtl::copy_cvref_t<F, T>, To>();
        }); });
        if (op == "forward_like") return with<From>(c.s(1), [&]<class F>() -> std::string {
            if constexpr (std::is_volatile_v<std::remove_reference_t<F>>) return "?";
            else {
                std::string value = content;
                auto go = [&]<class U>(U &u) -> std::string {
                    using R = decltype(dtl::forward_like<F>(u));
                    static_assert(noexcept(dtl::forward_like<F>(u)));
                    R r = dtl::forward_like<F>(u);
                    return (std::is_same_v<std::remove_cvref_t<R>, std::string> ? quals<R>() : "another type") + (&r == &u && value == content ? " same" : " other");
                };
                return c.s(2) == "T" ? go(std::as_const(value)) : go(value);
            }
        });
        if (op == "zst") {
            int x = 0;
            auto lambda = [] {}; auto capturing = [x] { return x; };
            auto const &w = c.s(1);
            if (w == "empty") return cat(dtl::is_zst_v<Empty>);
            if (w == "constempty") return cat(dtl::is_zst_v<Empty const>);
            if (w == "final") return cat(dtl::is_zst_v<Final>);
            if (w == "lambda") return cat(dtl::is_zst_v<decltype(lambda)>);
            if (w == "derived") return cat(dtl::is_zst_v<Derived>);
            if (w == "allocator") return cat(dtl::is_zst_v<std::allocator<int>>);
            if (w == "less") return cat(dtl::is_zst<std::less<>>::value);
            if (w == "void") return cat(dtl::is_zst_v<void>);
            if (w == "int") return cat(dtl::is_zst_v<int>);
            if (w == "char") return cat(dtl::is_zst_v<char>);
            if (w == "array") return cat(dtl::is_zst_v<Empty[1]>);
            if (w == "member") return cat(dtl::is_zst_v<Member>);
            if (w == "virtual") return cat(dtl::is_zst_v<Virtual>);
            if (w == "capturing") return cat(dtl::is_zst_v<decltype(capturing)>);
            if (w == "pointer") return cat(dtl::is_zst_v<Empty *>);
            if (w == "enum") return cat(dtl::is_zst_v<Enum>);
            return cat(dtl::is_zst_v<NonMovable>);
        }
        if (op == "strict") {
            auto const &p = c.s(3);
            if (p == "none") return strict_kind<0>(c.s(1), c.s(2), c.s(4));
            if (p == "val") return strict_kind<1>(c.s(1), c.s(2), c.s(4));
            if (p == "lref") return strict_kind<2>(c.s(1), c.s(2), c.s(4));
            if (p == "cref") return strict_kind<3>(c.s(1), c.s(2), c.s(4));
            if (p == "rref") return strict_kind<4>(c.s(1), c.s(2), c.s(4));
            return strict_kind<5>(c.s(1), c.s(2), c.s(4));
        }
        if (op == "returns") return ret(c.s(1), [&]<class W>() { return ret(c.s(2), [&]<class R>() { return cat(dtl::is_strict_invocable_r_v<R, W (*)(int), int>); }); });
        if (op == "move_if_value") {
            auto const &w = c.s(1);
            std::string source = content;
            if (w == "value") { auto r = quals<decltype(DICE_MOVE_IF_VALUE(source))>(); return r + after(source, DICE_MOVE_IF_VALUE(source)); }
            if (w == "lref") { auto &x = source; auto r = quals<decltype(DICE_MOVE_IF_VALUE(x))>(); return r + after(source, DICE_MOVE_IF_VALUE(x)); }
            if (w == "clref") { auto const &x = source; auto r = quals<decltype(DICE_MOVE_IF_VALUE(x))>(); return r + after(source, DICE_MOVE_IF_VALUE(x)); }
            if (w == "rref") { auto &&x = std::move(source); auto r = quals<decltype(DICE_MOVE_IF_VALUE(x))>(); return r + after(source, DICE_MOVE_IF_VALUE(x)); }
            std::string const &&x = std::move(source);
            auto r = quals<decltype(DICE_MOVE_IF_VALUE(x))>();
            return r + after(source, DICE_MOVE_IF_VALUE(x));
        }
        throw mbt::HarnessError{"op " + op};
    };
    return mbt::run(argc, argv, h);
}
