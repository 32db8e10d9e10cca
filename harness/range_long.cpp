// Replays histories of specs/RangeLong.tla on the range algorithms.
#include "mbt.hpp"
#include <dice/template-library/ranges.hpp>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;
struct LessOnly { int v; bool operator==(LessOnly const &o) const = default; auto operator<=>(LessOnly const &) const = default; };
struct HashOnly { int v; bool operator==(HashOnly const &o) const = default; };
template<> struct std::hash<HashOnly> { size_t operator()(HashOnly const &x) const { return static_cast<size_t>(x.v); } };
using E = EL;
template<class X = E> static X make(int x) { if constexpr (std::is_same_v<X, std::string>) return "an element with a long text " + std::to_string(x); else return X{x}; }
template<class X> static int back(X const &e) { if constexpr (std::is_same_v<X, int>) return e; else if constexpr (std::is_same_v<X, std::string>) return std::stoi(e.substr(28)); else return e.v; }
static std::vector<E> elems(Cmd const &c, size_t w) {
    std::vector<E> v;
    auto const &p = c.s(w);
    int n = int(c.i(w + 1));
    for (int k = 1; k <= n; ++k) v.push_back(make(k == c.i(w + 2) ? int(c.i(w + 3)) : p == "inc" ? k : p == "dec" ? n + 1 - k : p == "same" ? 7 : k * 7 % 13));
    return v;
}
struct Agree {
    std::string r;
    bool first = true;
    void operator()(std::string const &x, char const *how) {
        if (first) { r = x; first = false; }
        else if (r != x && r.find("but") == std::string::npos) r = r + " but " + x + " for " + how;
    }
    void operator()(bool x, char const *how) { (*this)(cat(x), how); }
};
template<class R> static std::string show(R &&r) {
    std::vector<long> v;
    for (auto &&e : r) v.push_back(back(e));
    long h = 0;
    for (size_t k = v.size(); k-- > 0;) h = (h * 31 + v[k]) % 65521;
    return cat(v.size(), "#", h);
}
template<class F> static std::string each(std::vector<E> const &v, F f) {
    Agree a;
    f(v, a, "vector");
    std::list<E> l(v.begin(), v.end());
    f(l, a, "list");
    std::deque<E> d(v.begin(), v.end());
    f(d, a, "deque");
    auto tr = v | std::views::transform([](E const &e) { return e; });
    f(tr, a, "transform view");
    auto fl = l | std::views::filter([](E const &) { return true; });
    f(fl, a, "filter view");
    return a.r;
}
static std::string ord(std::strong_ordering c) { return c < 0 ? "lt" : c > 0 ? "gt" : "eq"; }
static std::string exec(Cmd const &c) {
    auto const &op = c.op();
    auto v = elems(c, 1);
    return each(v, [&](auto &r, Agree &a, char const *how) {
        if (op == "all_not" || op == "any_is" || op == "none_is") {
            int x = int(c.i(5));
            auto is = [x](E const &e) { return back(e) == x; };
            auto isnt = [x](E const &e) { return back(e) != x; };
            if (op == "all_not") { a(dtl::all_of(r, isnt), how); a(r | dtl::all_of(isnt), how); }
            else if (op == "any_is") { a(dtl::any_of(r, is), how); a(r | dtl::any_of(is), how); }
            else { a(dtl::none_of(r, is), how); a(r | dtl::none_of(is), how); }
        }
        else if (op == "remove") a(show(r | dtl::remove_element(make(int(c.i(5))))), how);
        else if (op == "all_equal") { a(dtl::all_equal(r), how); a(r | dtl::all_equal(), how); a(dtl::all_equal(r, [](E const &x, E const &y) { return x == y; }), how); }
        else if (op == "all_distinct") { a(dtl::all_distinct(r), how); a(dtl::all_distinct(r.begin(), r.end()), how); a(r | dtl::all_distinct(), how); }
        else if (op == "unique") { a(show(r | dtl::unique), how); auto u = dtl::unique(r); show(u); a(show(u), how); }
        else if (op == "sorted") {
            if constexpr (std::is_same_v<E, int> || std::is_same_v<E, LessOnly>) {
                if (c.s(5) == "less") a(dtl::is_sorted_unique(r), how); else a(dtl::is_sorted_unique(r, std::ranges::greater{}), how);
            } else { // by number
                auto p = r | std::views::transform(back<E>);
                if (c.s(5) == "less") a(dtl::is_sorted_unique(p), how); else a(dtl::is_sorted_unique(p, std::ranges::greater{}), how);
            }
        }
        else if (op == "lex") {
            auto w = elems(c, 5);
            std::list<E> l(w.begin(), w.end());
            auto cmp = [](E const &x, E const &y) { return back(x) <=> back(y); };
            a(ord(dtl::lexicographical_compare_three_way(r, w, cmp)), how);
            a(ord(dtl::lexicographical_compare_three_way(r, l, cmp)), how);
            a(ord(dtl::lexicographical_compare_three_way(r.begin(), r.end(), w.begin(), w.end(), cmp)), how);
            if constexpr (std::is_same_v<E, int> || std::is_same_v<E, LessOnly>) a(ord(dtl::lexicographical_compare_three_way(r, w)), how);
        }
        else throw mbt::HarnessError("op " + op);
    });
}
int main(int argc, char **argv) {
    mbt::Harness H;
    H.reset = [] {};
    H.exec = exec;
    return mbt::run(argc, argv, H);
}
