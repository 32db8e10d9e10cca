// Replays histories of specs/SLTuple.tla on standard_layout_tuple of the element kinds in CFG, and the tuple algorithms.
#include "mbt.hpp"
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
using mbt::Cmd;
namespace dtl = dice::template_library;
#ifndef CFG
#define CFG "cil"
#endif
static long alive;
struct Str { // owns memory, is emptied by moving
    std::unique_ptr<int> p;
    Str() : Str(0) {}
    Str(int v) : p(std::make_unique<int>(v)) { ++alive; }
    Str(Str const &o) : p(o.p ? std::make_unique<int>(*o.p) : nullptr) { ++alive; }
    Str(Str &&o) noexcept : p(std::move(o.p)) { ++alive; }
    Str &operator=(Str const &o) { p = o.p ? std::make_unique<int>(*o.p) : nullptr; return *this; }
    Str &operator=(Str &&o) noexcept { p = std::move(o.p); return *this; }
    ~Str() { --alive; }
    int val() const { return p ? *p : 9; }
    auto operator<=>(Str const &o) const { return val() <=> o.val(); }
    bool operator==(Str const &o) const { return val() == o.val(); }
};
struct MoveOnly : private Str {
    using Str::Str; using Str::val;
    MoveOnly(MoveOnly &&) = default;
    MoveOnly &operator=(MoveOnly &&) = default;
    auto operator<=>(MoveOnly const &o) const { return val() <=> o.val(); }
    bool operator==(MoveOnly const &o) const { return val() == o.val(); }
};
struct Empty { auto operator<=>(Empty const &) const = default; };
using Nest = dtl::standard_layout_tuple<int, char>;
constexpr std::string_view cfg = CFG;
constexpr size_t N = cfg.size();
template<char k> struct kind;
template<> struct kind<'c'> { using type = char; };
template<> struct kind<'i'> { using type = int; };
template<> struct kind<'l'> { using type = long long; };
template<> struct kind<'d'> { using type = double; };
template<> struct kind<'e'> { using type = Empty; };
template<> struct kind<'t'> { using type = Nest; };
template<> struct kind<'s'> { using type = Str; };
template<> struct kind<'m'> { using type = MoveOnly; };
template<size_t I> using El = typename kind<cfg[I]>::type;
template<class X> constexpr char letter = std::is_same_v<X, char> ? 'c' : std::is_same_v<X, int> ? 'i' : std::is_same_v<X, long long> ? 'l' : std::is_same_v<X, double> ? 'd' : std::is_same_v<X, Empty> ? 'e' : std::is_same_v<X, Nest> ? 't' : std::is_same_v<X, Str> ? 's' : std::is_same_v<X, MoveOnly> ? 'm' : '?';
using Seq = std::make_index_sequence<N>;
template<class S> struct mk;
template<size_t... I> struct mk<std::index_sequence<I...>> { using slt = dtl::standard_layout_tuple<El<I>...>; using std_ = std::tuple<El<I>...>; };
using Tup = mk<Seq>::slt;
using Std = mk<Seq>::std_;
// values: 0 and 1 use all bytes of the representation
template<class X> static X value(int v) {
    if constexpr (std::is_same_v<X, char>) return v == 1 ? '\x7f' : v == 0 ? 0 : 'B';
    else if constexpr (std::is_same_v<X, int>) return v == 1 ? 0x7edcba98 : 0;
    else if constexpr (std::is_same_v<X, long long>) return v == 1 ? 0x7edcba9876543210 : 0;
    else if constexpr (std::is_same_v<X, double>) return v == 1 ? 1.25e300 : v == 2 ? std::numeric_limits<double>::quiet_NaN() : 0.0;
    else if constexpr (std::is_same_v<X, Empty>) return Empty{};
    else if constexpr (std::is_same_v<X, Nest>) return v == 1 ? Nest{dtl::individual_construct, 77, 'x'} : Nest{};
    else return X{v};
}
template<class X> static int unvalue(X const &x) {
    if constexpr (std::is_same_v<X, Empty>) return 0;
    else if constexpr (std::is_same_v<X, Str> || std::is_same_v<X, MoveOnly>) return x.val();
    else if constexpr (std::is_same_v<X, double>) return std::isnan(x) ? 2 : x == value<X>(0) ? 0 : x == value<X>(1) ? 1 : 8;
    else return x == value<X>(0) ? 0 : x == value<X>(1) ? 1 : 8;
}
template<class X> static void *addr(X const &x) { return const_cast<void *>(static_cast<void const *>(std::addressof(x))); }
struct Any { // an argument that every element can be made from and that notices being moved from
    int v;
    template<class X> requires (letter<X> != '?' && letter<X> != 't' && letter<X> != 'e') operator X() const & { return value<X>(v); }
    template<class X> requires (letter<X> != '?' && letter<X> != 't' && letter<X> != 'e') operator X() && { return value<X>(std::exchange(v, 8)); }
};
static_assert(std::tuple_size_v<Tup> == N && Tup::size() == N && dtl::standard_layout_tuple<>::size() == 0);
static_assert([]<size_t... I>(std::index_sequence<I...>) { return (std::is_same_v<std::tuple_element_t<I, Tup>, El<I>> && ...); }(Seq{}));
static_assert([]<size_t... I>(std::index_sequence<I...>) { return (std::is_standard_layout_v<El<I>> && ...); }(Seq{}) == std::is_standard_layout_v<Tup>);
static_assert([] { // usable in constant expressions
    dtl::standard_layout_tuple<int, char> t{dtl::individual_construct, 4, 'c'}, u{5, 'a'};
    t.get<0>() = 5;
    return t.get<int>() == 5 && std::as_const(t).get<1>() == 'c' && t > u && t != u && dtl::standard_layout_tuple<>{} == dtl::standard_layout_tuple<>{};
}());
constexpr bool copyable = cfg.find('m') == std::string_view::npos;
template<size_t I> constexpr bool unique_ = cfg.find(cfg[I]) == cfg.rfind(cfg[I]);
template<class F> static std::string pos(size_t k, F f) {
    std::string r = "bad position";
    [&]<size_t... K>(std::index_sequence<K...>) { ((K + 1 == k ? void(r = f(std::integral_constant<size_t, K>{})) : void()), ...); }(Seq{});
    return r;
}
template<class F> static auto cat(auto &t, std::string const &c, F f) {
    if (c == "lvalue") return f(t);
    if (c == "const") return f(std::as_const(t));
    if (c == "rvalue") return f(std::move(t));
    return f(std::move(std::as_const(t)));
}
template<class R, class Self> constexpr bool same_cat = std::is_lvalue_reference_v<R> == std::is_lvalue_reference_v<Self> && std::is_reference_v<R> && std::is_const_v<std::remove_reference_t<R>> == std::is_const_v<std::remove_reference_t<Self>>;
static std::optional<Tup> t;
static std::string read(Tup const &x) {
    std::string out;
    [&]<size_t... K>(std::index_sequence<K...>) { ((out += (K ? " " : "") + std::to_string(K + 1) + ":" + std::to_string(unvalue(x.template get<K>()))), ...); }(Seq{});
    return out;
}
static Tup make(std::string const &code, std::string const &how) {
    return [&]<size_t... K>(std::index_sequence<K...>) {
#if defined(COPY)
        if (how[0] == 'l') {
            std::tuple<El<K>...> src{value<El<K>>(code[K] - '0')...};
            Tup x = how == "lpos" ? Tup(std::get<K>(src)...) : Tup(dtl::individual_construct, std::get<K>(src)...);
            if (!((unvalue(std::get<K>(src)) == code[K] - '0') && ...)) throw std::runtime_error("moved from an lvalue");
            return x;
        }
#endif
        if (how == "pos") return Tup(value<El<K>>(code[K] - '0')...);
        return Tup(dtl::individual_construct, value<El<K>>(code[K] - '0')...);
    }(Seq{});
}
static Std to_std(Tup &x) { // takes the elements
    return [&]<size_t... K>(std::index_sequence<K...>) { return Std{std::move(x.template get<K>())...}; }(Seq{});
}
static void from_std(Std &s) { [&]<size_t... K>(std::index_sequence<K...>) { ((t->template get<K>() = std::move(std::get<K>(s))), ...); }(Seq{}); }
template<class X> constexpr bool is_std = std::is_same_v<std::remove_cvref_t<X>, Std>;
// is e the k-th element of x itself?
template<class X> static std::string element(X const &x, size_t k, void *e) {
    return pos(k, [&](auto K) {
        void *a; if constexpr (is_std<X>) a = addr(std::get<K()>(x)); else a = addr(x.template get<K()>());
        return a == e ? "" : " a copy";
    });
}
template<class X> static std::string algo(X &&x, Cmd const &c) {
    auto const &op = c.op();
    std::string out;
    size_t k = 0;
    if (op == "each") {
        std::string last = cat(x, c.s(2), [&]<class S>(S &&y) -> std::string {
            return dtl::tuple_for_each(std::forward<S>(y), [&]<class E>(E &&e) -> std::string {
                static_assert(!std::is_const_v<std::remove_reference_t<S>> || std::is_const_v<std::remove_reference_t<E>>);
                ++k;
                out += (k > 1 ? " " : "") + std::to_string(k) + ":" + std::to_string(unvalue<std::remove_cvref_t<E>>(e)) + element(x, k, addr(e));
                return std::to_string(k);
            });
        });
        return out + " last " + last;
    }
    if (op == "eachthrow") {
        try {
            dtl::tuple_for_each(x, [&](auto &e) { ++k; out += (k > 1 ? " " : "") + std::to_string(k) + ":" + std::to_string(unvalue(e)) + element(x, k, addr(e)); if (k == size_t(c.i(2))) throw 1; });
        } catch (int) { out += " thrown"; }
        return out;
    }
    if (op == "fold") {
        auto step = [&](auto acc, auto const &e) {
            ++k;
            std::string s = " " + std::to_string(k) + ":" + std::to_string(unvalue(e)) + element(x, k, addr(e));
            if constexpr (std::is_same_v<decltype(acc), std::string>) return acc + s; else { *acc += s; return acc; }
        };
        if (c.s(2) == "moveonly") return *dtl::tuple_fold(x, std::make_unique<std::string>("x"), step);
        std::string init = "x";
        if (c.s(2) == "rvalue") return dtl::tuple_fold(x, std::string("x"), step);
        std::string r = c.s(2) == "lvalue" ? dtl::tuple_fold(x, init, step) : dtl::tuple_fold(x, std::as_const(init), step);
        return init == "x" ? r : "initial value changed";
    }
    using Y = std::remove_cvref_t<X>;
    if (op == "typefold") {
        bool firstcall = true;
        auto step = [&]<class E>(auto acc) {
            std::string s = (firstcall ? " " : "") + std::string(1, letter<E>);
            firstcall = false;
            if constexpr (std::is_same_v<decltype(acc), std::string>) return acc + s; else { *acc += s; return acc; }
        };
        if (c.s(2) == "moveonly") return *dtl::tuple_type_fold<Y>(std::make_unique<std::string>("x"), step);
        std::string init = "x";
        if (c.s(2) == "rvalue") return dtl::tuple_type_fold<Y>(std::string("x"), step);
        std::string r = c.s(2) == "lvalue" ? dtl::tuple_type_fold<Y>(init, step) : dtl::tuple_type_fold<Y>(std::as_const(init), step);
        return init == "x" ? r : "initial value changed";
    }
    std::string last = dtl::tuple_type_for_each<Y>([&]<class E>() { out += letter<E>; return std::string(1, letter<E>); });
    return out + " last " + last;
}
template<class S, size_t I, size_t n> static std::string parts(S &&sub) {
    static_assert(std::remove_cvref_t<S>::size() == n);
    std::string out;
    [&]<size_t... K>(std::index_sequence<K...>) {
        ((out += (K ? " " : "") + std::to_string(I + K + 1) + ":" + std::to_string(unvalue(sub.template get<K>())) + (addr(sub.template get<K>()) == addr(t->template get<I + K>()) ? "" : " elsewhere")), ...);
    }(std::make_index_sequence<n>{});
    return out;
}
template<class F> static std::string part(size_t i, size_t n, F f) {
    std::string r = "bad part";
    pos(i, [&](auto I) {
        [&]<size_t... K>(std::index_sequence<K...>) { ((K == n ? void([&] { if constexpr (I() + K <= N) r = f(I, std::integral_constant<size_t, K>{}); }()) : void()), ...); }(std::make_index_sequence<N + 1>{});
        return std::string{};
    });
    return r;
}
template<class X> static std::string bind(X &x) {
    std::string out;
    auto see = [&](auto &...e) {
        size_t k = 0;
        (((++k, out += (k > 1 ? " " : "") + std::to_string(k) + ":" + std::to_string(unvalue(e)) + element(x, k, addr(e)))), ...);
    };
    if constexpr (N == 1) { auto &[a] = x; see(a); }
    else if constexpr (N == 2) { auto &[a, b_] = x; see(a, b_); }
    else if constexpr (N == 3) { auto &[a, b_, c] = x; see(a, b_, c); }
    else { auto &[a, b_, c, d] = x; see(a, b_, c, d); }
    return out;
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { t.reset(); t.emplace(); };
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        std::string r;
        if (op == "default") { t.reset(); alignas(Tup) static unsigned char junk[sizeof(Tup)]; std::memset(junk, 0x5a, sizeof junk); auto *q = new (junk) Tup(); t.emplace(std::move(*q)); q->~Tup(); }
        else if (op == "make") { t.reset(); t.emplace(make(c.s(1), c.s(2))); }
#if defined(UNIFORM)
        else if (op == "uniform") { t.reset(); t.emplace(dtl::uniform_construct, Any{int(c.i(1))}); }
#endif
        else if (op == "set") pos(size_t(c.i(1)), [&](auto K) { t->template get<K()>() = value<El<K()>>(int(c.i(2))); return ""; });
        else if (op == "get") r = pos(size_t(c.i(1)), [&](auto K) {
            return cat(*t, c.s(2), [&]<class S>(S &&x) -> std::string {
                using R = decltype(std::forward<S>(x).template get<K()>());
                static_assert(same_cat<R, S &&> && std::is_same_v<std::remove_cvref_t<R>, El<K()>>);
                R e = std::forward<S>(x).template get<K()>();
                void *a = addr(e);
                if constexpr (unique_<K()>) {
                    static_assert(std::is_same_v<decltype(std::forward<S>(x).template get<El<K()>>()), R>);
                    if (c.s(3) == "type") a = addr(static_cast<El<K()> const &>(std::forward<S>(x).template get<El<K()>>()));
                }
                bool inside = static_cast<char *>(a) >= static_cast<char *>(addr(*t)) && static_cast<char *>(a) + sizeof(e) <= static_cast<char *>(addr(*t)) + sizeof(Tup);
                return std::to_string(K() + 1) + ":" + std::to_string(unvalue(*static_cast<El<K()> *>(a))) + (inside ? "" : " outside") + (a == addr(e) ? "" : " different elements");
            });
        });
        else if (op == "take") r = pos(size_t(c.i(1)), [&](auto K) {
            if constexpr (unique_<K()>) if (c.s(2) == "type") { auto e = std::move(*t).template get<El<K()>>(); return std::to_string(K() + 1) + ":" + std::to_string(unvalue(e)); }
            auto e = std::move(*t).template get<K()>();
            return std::to_string(K() + 1) + ":" + std::to_string(unvalue(e));
        });
#if defined(COPY)
        else if (op == "copy") { Tup u = c.s(1) == "copy" ? Tup(std::as_const(*t)) : Tup(*t); r = read(u); }
#endif
        else if (op == "move") { Tup u(std::move(*t)); r = read(u); }
        else if (op == "assign") {
            Tup u = make(c.s(1), "ind");
#if defined(COPY)
            if (c.s(2) == "copy") { auto &x = (*t = std::as_const(u)); if (&x != &*t) r = "another object"; if (read(u) != read(*t)) r = "source changed"; } else
#endif
            { auto &x = (*t = std::move(u)); if (&x != &*t) r = "another object"; }
        }
        else if (op == "cmp") {
            Tup u = make(c.s(1), "ind");
            auto o = *t <=> u;
            r = o < 0 ? "<" : o > 0 ? ">" : o == 0 ? "=" : "?";
            auto p = u <=> *t;
            if ((*t == u) != (r == "=") || (*t != u) == (r == "=") || (*t < u) != (r == "<") || (*t >= u) != (r == "=" || r == ">") || (p < 0) != (r == ">") || (p > 0) != (r == "<")) r += " inconsistent";
        }
        else if (op == "bind") r = c.s(1) == "ref" ? bind(*t) : bind(std::as_const(*t));
        else if (op == "layout") [&]<size_t... K>(std::index_sequence<K...>) {
            void *a[] = {addr(t->template get<K>())...};
            size_t n[] = {sizeof(El<K>)...}, al[] = {alignof(El<K>)...};
            r = a[0] == addr(*t) ? "increasing" : "first element not at the start";
            for (size_t k = 0; k + 1 < N; ++k) if (static_cast<char *>(a[k]) + n[k] > static_cast<char *>(a[k + 1])) r = "overlapping";
            for (size_t k = 0; k < N; ++k) if (reinterpret_cast<uintptr_t>(a[k]) % al[k]) r = "misaligned";
            if (static_cast<char *>(a[N - 1]) + n[N - 1] > static_cast<char *>(addr(*t)) + sizeof(Tup)) r = "outside";
        }(Seq{});
        else if (op == "sub") r = part(size_t(c.i(1)), size_t(c.i(2)), [&](auto I, auto n) {
            return cat(*t, c.s(3), [&]<class S>(S &&x) {
                using R = decltype(std::forward<S>(x).template subtuple<I(), n()>());
                static_assert(same_cat<R, S &&>);
                return parts<R, I(), n()>(std::forward<S>(x).template subtuple<I(), n()>());
            });
        });
        else if (op == "subset") part(size_t(c.i(1)), size_t(c.i(2)), [&](auto I, auto n) {
            auto &sub = t->template subtuple<I(), n()>();
            pos(size_t(c.i(3)), [&](auto K) { if constexpr (K() >= I() && K() < I() + n()) sub.template get<K() - I()>() = value<El<K()>>(int(c.i(4))); return ""; });
            return "";
        });
        else if (op == "each" || op == "eachthrow" || op == "fold" || op == "typefold" || op == "typeeach") {
            if (c.s(1) == "slt") r = algo(*t, c);
            else { Std s = to_std(*t); r = algo(s, c); from_std(s); }
        }
        else throw mbt::HarnessError{"op " + op};
        return r + "|" + read(*t);
    };
    h.finish = [] { t.reset(); return alive ? std::to_string(alive) + " elements alive" : std::string{}; };
    return mbt::run(argc, argv, h);
}
