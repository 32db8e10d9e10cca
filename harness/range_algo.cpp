// Replays histories of specs/RangeAlgo.tla on the range algorithms: element type EL, every way to call them.
#include "mbt.hpp"
#include <dice/template-library/ranges.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <limits>
#include <memory>
#include <span>
#include <sstream>
#include <string>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;

struct LessOnly { int v; bool operator==(LessOnly const &o) const { return v == o.v; } auto operator<=>(LessOnly const &) const = default; };
struct HashOnly { int v; bool operator==(HashOnly const &o) const { return v == o.v; } };
struct Clash { int v; auto operator<=>(Clash const &) const = default; }; // all elements have the same hash
template<> struct std::hash<HashOnly> { size_t operator()(HashOnly const &x) const { return static_cast<size_t>(x.v) * 7; } };
template<> struct std::hash<Clash> { size_t operator()(Clash const &) const { return 5; } };

template<class E> E make(int d) { return E{d}; }
template<> std::string make<std::string>(int d) { return std::string(20, static_cast<char>('0' + d)); }
template<> double make<double>(int d) { return d == 3 ? std::numeric_limits<double>::quiet_NaN() : d; }
template<class E> int back(E const &e) { return e.v; }
inline int back(int e) { return e; }
inline int back(std::string const &e) { return e[0] - '0'; }
inline int back(double e) { return e == e ? static_cast<int>(e) : 3; }

#ifndef EL
#define EL int
#endif
using E = EL;
constexpr bool ordered = !std::is_same_v<E, HashOnly>;
constexpr bool hashed = !std::is_same_v<E, LessOnly>;

// a single-pass source: all iterators read the same shared position; CP: its iterators can be copied
template<bool CP> struct Once {
    std::vector<E> const *v;
    mutable size_t pos = 0;
    struct it {
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        using iterator_category = std::input_iterator_tag;
        using pointer = E const *;
        using reference = E const &;
        Once const *o = nullptr;
        it() = default;
        explicit it(Once const *x) : o(x) {}
        it(it &&) = default;
        it &operator=(it &&) = default;
        it(it const &) requires CP = default;
        it &operator=(it const &) requires CP = default;
        E const &operator*() const { return o->v->at(o->pos); }
        it &operator++() { if (o->pos >= o->v->size()) std::abort(); ++o->pos; return *this; }
        void operator++(int) { ++*this; }
        friend bool operator==(it const &a, std::default_sentinel_t) { return a.o->pos == a.o->v->size(); }
    };
    it begin() const { return it{this}; }
    std::default_sentinel_t end() const { return {}; }
};
static_assert(std::ranges::input_range<Once<true>> && !std::ranges::forward_range<Once<true>>);
static_assert(std::input_iterator<Once<false>::it>);

// a single-pass source with room for one element, like a stream: a reference refers to whatever was read last
struct Buffered {
    std::vector<E> const *v;
    mutable size_t pos = 0;
    mutable E cur = make<E>(1);
    struct it {
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        Buffered const *o;
        it(it &&) = default;
        it &operator=(it &&) = default;
        explicit it(Buffered const *x) : o(x) { o->read(); }
        E const &operator*() const { return o->cur; }
        it &operator++() { if (o->pos >= o->v->size()) std::abort(); ++o->pos; o->read(); return *this; }
        void operator++(int) { ++*this; }
        friend bool operator==(it const &a, std::default_sentinel_t) { return a.o->pos == a.o->v->size(); }
    };
    void read() const { if (pos < v->size()) cur = (*v)[pos]; }
    it begin() const { return it{this}; }
    std::default_sentinel_t end() const { return {}; }
};
static_assert(std::ranges::input_range<Buffered>);

static std::vector<E> elems(std::string const &w) {
    std::vector<E> v;
    if (w != "_") for (char c : w) v.push_back(make<E>(c - '0'));
    return v;
}

// collects the results of all the ways to call something: they must agree
struct Agree {
    std::string r;
    bool first = true;
    void operator()(std::string const &x, char const *how) {
        if (first) { r = x; first = false; }
        else if (r != x && r.find("but") == std::string::npos) r = r + " but " + x + " for " + how;
    }
    void operator()(bool x, char const *how) { (*this)(cat(x), how); }
};

// calls f(range factory...) for every kind of range; multi-pass only if M
template<bool M = false, class F> static void kinds(std::vector<E> const &v, F &&f) {
    std::list<E> l(v.begin(), v.end());
    std::forward_list<E> fl(v.begin(), v.end());
    std::deque<E> d(v.begin(), v.end());
    f(v, "vector const&");
    { auto w = v; f(w, "vector&"); }
    f(l, "list");
    f(fl, "forward_list");
    f(d, "deque");
    { std::span<E const> sp(v); f(sp, "span"); }
    { auto flt = l | std::views::filter([](E const &) { return true; }); f(flt, "filter view"); }
    { auto tr = v | std::views::transform([](E const &e) { return e; }); f(tr, "transform view (prvalues)"); }
    { auto tr = v | std::views::reverse | std::views::reverse; f(tr, "reverse view"); }
    if constexpr (!M) {
        { Once<true> o{&v}; f(o, "single-pass range"); }
        { Once<false> o{&v}; f(o, "single-pass range with move-only iterators"); }
        { Buffered o{&v}; f(o, "single-pass range with a buffer"); }
    }
}

template<class A, class... P> static std::string call(std::vector<E> const &v, A const &algo, P... p) {
    Agree a;
    kinds(v, [&](auto &r, char const *how) {
        if constexpr (requires { r.pos; }) {
            a(algo(r, p...), how); r.pos = 0;
            a(algo(r.begin(), r.end(), p...), how); r.pos = 0;
            a(r | algo(p...), how); r.pos = 0;
        } else {
            a(algo(r, p...), how);
            a(algo(std::ranges::begin(r), std::ranges::end(r), p...), how);
            a(r | algo(p...), how);
            auto pipe = algo(p...);
            a(r | pipe, how);
            a(std::ranges::subrange(std::ranges::begin(r), std::ranges::end(r)) | pipe, how);
        }
    });
    a(algo(std::vector<E>(v), p...), "rvalue");
    return a.r;
}
template<class R> static std::string list_of(R &&r) { std::string s; for (auto &&e : r) s += static_cast<char>('0' + back(e)); return s.empty() ? "_" : s; }

static int pj(std::string const &pr, int v) { return pr == "id" ? v : pr == "neg" ? -v : v / 2; }
template<class C> static std::string ord(C c) {
    if constexpr (std::is_same_v<C, std::partial_ordering>) if (c == std::partial_ordering::unordered) return "un";
    return c < 0 ? "lt" : c > 0 ? "gt" : "eq";
}
template<class... P> static std::string lex(std::vector<E> const &x, std::vector<E> const &y, P... p) {
    Agree a;
    auto const &algo = dtl::lexicographical_compare_three_way;
    std::list<E> yl(y.begin(), y.end());
    kinds(x, [&](auto &r, char const *how) {
        auto again = [&] { if constexpr (requires { r.pos; }) r.pos = 0; };
        a(ord(algo(r, y, p...)), how); again();
        a(ord(algo(r, yl, p...)), how); again();
        a(ord(algo(std::ranges::begin(r), std::ranges::end(r), y.begin(), y.end(), p...)), how); again();
        a(ord(algo(std::ranges::begin(r), std::ranges::end(r), yl.begin(), yl.end(), p...)), how); again();
        Once<true> o{&y};
        a(ord(algo(r, o, p...)), how); again();
        Once<false> o2{&y};
        a(ord(algo(std::ranges::begin(r), std::ranges::end(r), o2.begin(), o2.end(), p...)), how);
    });
    return a.r;
}

static std::string exec1(Cmd const &c) {
    auto &op = c.op();
    auto v = elems(c.s(1));
    if (op == "empty") {
        Agree a;
        kinds<true>(v, [&](auto &r, char const *how) {
            a(cat(dtl::empty(r), dtl::non_empty(r)), how);
            a(cat(dtl::empty(std::ranges::begin(r), std::ranges::end(r)), dtl::non_empty(std::ranges::begin(r), std::ranges::end(r))), how);
            a(cat(r | dtl::empty, r | dtl::non_empty), how);
        });
        return a.r;
    }
    if (op == "all_of" || op == "any_of" || op == "none_of") {
        auto const &p = c.s(2);
        auto pred = [p](E const &e) { int x = back(e); return p == "ge2" ? x >= 2 : p == "is1" ? x == 1 : p == "odd" ? x % 2 == 1 : p == "yes"; };
        return op == "all_of" ? call(v, dtl::all_of, pred) : op == "any_of" ? call(v, dtl::any_of, pred) : call(v, dtl::none_of, pred);
    }
    auto eqp = [](std::string const &p) {
        return [p](E const &x, E const &y) { int d = back(x) - back(y); return p == "eq" ? x == y : p == "par" ? d % 2 == 0 : p == "near" ? d >= -1 && d <= 1 : false; };
    };
    if (op == "all_equal") {
        Agree a;
        if (c.s(2) == "eq") a(call(v, dtl::all_equal), "default predicate");
        a(call(v, dtl::all_equal, eqp(c.s(2))), "predicate");
        if (c.s(2) == "eq") {
            Buffered x{&v}, y{&v};
            a(std::views::zip(x, y) | dtl::all_equal(), "zipped single-pass ranges");
            a(std::views::zip(v, v) | dtl::all_equal(), "zipped ranges");
            auto pair = [](E const &e) { return std::pair<E, int>(e, 0); };
            a(v | std::views::transform(pair) | dtl::all_equal(), "pairs");
        }
        return a.r;
    }
    if (op == "all_distinct") {
        Agree a;
        if (c.s(2) == "eq") a(call(v, dtl::all_distinct), "default predicate");
        if constexpr (hashed) a(call(v, dtl::all_distinct, eqp(c.s(2))), "predicate");
        else if (c.s(2) == "never") a(true, "");
        return a.r;
    }
    if (op == "unique") {
        Agree a;
        kinds(v, [&](auto &r, char const *how) {
            if constexpr (requires { r.pos; }) {
                a(list_of(r | dtl::unique), how); r.pos = 0;
                a(list_of(dtl::unique(r)), how);
            } else {
                a(list_of(r | dtl::unique), how);
                a(list_of(dtl::unique(r)), how);
                auto u = dtl::unique(r);
                std::string one = list_of(u), two = list_of(u);
                if (one != two) two = "different on the second traversal: " + two;
                a(two, how);
                a(list_of(r | dtl::unique | dtl::unique), how);
                a(list_of(r | dtl::unique | std::views::transform([](E const &e) { return e; })), how);
            }
        });
        a(list_of(std::vector<E>(v) | dtl::unique), "rvalue");
        return a.r;
    }
    if (op == "remove") {
        Agree a;
        E x = make<E>(static_cast<int>(c.i(2)));
        kinds(v, [&](auto &r, char const *how) {
            auto again = [&] { if constexpr (requires { r.pos; }) r.pos = 0; };
            if (c.s(3) == "eq") { if constexpr (requires { std::ranges::equal_to{}(x, x); }) a(list_of(r | dtl::remove_element(x)), how); again(); }
            a(list_of(r | dtl::remove_element(x, eqp(c.s(3)))), how); again();
            auto pipe = dtl::remove_element(x, eqp(c.s(3)));
            a(list_of(r | pipe), how);
        });
        return a.r;
    }
    if (op == "sorted") {
        Agree a;
        auto pr = c.s(3);
        auto proj = [pr](E const &e) { return pj(pr, back(e)); };
        auto go = [&](auto cmp) {
            if constexpr (ordered) if (pr == "id") a(call(v, dtl::is_sorted_unique, cmp), "comparator");
            a(call(v, dtl::is_sorted_unique, cmp, proj), "comparator and projection");
        };
        if (c.s(2) == "less") {
            if constexpr (ordered) if (pr == "id") a(call(v, dtl::is_sorted_unique), "defaults");
            go(std::ranges::less{});
        } else go(std::ranges::greater{});
        return a.r;
    }
    if (op == "lex") {
        auto y = elems(c.s(2));
        auto p1 = c.s(4), p2 = c.s(5);
        auto f1 = [p1](E const &e) { return pj(p1, back(e)); };
        auto f2 = [p2](E const &e) { return pj(p2, back(e)); };
        Agree a;
        if (c.s(3) == "std") {
            if constexpr (std::three_way_comparable<E>) if (p1 == "id" && p2 == "id") { a(lex(v, y), "defaults"); a(lex(v, y, std::compare_three_way{}), "comparator"); }
            if constexpr (!std::is_same_v<E, double>) a(lex(v, y, std::compare_three_way{}, f1, f2), "projections");
        } else {
            if constexpr (!std::is_same_v<E, double>) a(lex(v, y, [](int x, int z) { return z <=> x; }, f1, f2), "projections");
            if constexpr (std::three_way_comparable<E>) if (p1 == "id" && p2 == "id") a(lex(v, y, [](E const &x, E const &z) { return std::weak_order(back(z), back(x)); }), "weak comparator");
        }
        return a.r;
    }
    throw mbt::HarnessError{op};
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = exec1;
    return mbt::run(argc, argv, h);
}
