// Replays histories of specs/OptMinMax.tla on opt_min, opt_max, opt_minmax and the element functions.
#include "mbt.hpp"
#include <dice/template-library/opt_minmax.hpp>
#include <compare>
#include <forward_list>
#include <list>
#include <memory>
#include <optional>
#include <span>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;

struct K { // compared by key only; carries its position and a payload which must come back unaltered
    int key = 0, pos = 0;
    std::string payload;
    K(int k, int p) : key(k), pos(p), payload(30, static_cast<char>('a' + p)) {}
    auto operator<=>(K const &o) const { return key <=> o.key; }
    bool operator==(K const &o) const { return key == o.key; }
};
using O = std::optional<K>;
static std::string show(O const &o) {
    if (!o) return "none";
    if (o->payload != std::string(30, static_cast<char>('a' + o->pos))) return "altered";
    return cat(o->key, "@", o->pos);
}
template<class R> static std::string showmm(R const &r) { return r ? show(O(r->min)) + "," + show(O(r->max)) : std::string("none"); }

template<class E, bool CP> struct Once { // single pass; CP: copyable iterators
    std::vector<E> const *v;
    mutable size_t pos = 0;
    struct it {
        using value_type = E; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
        Once const *o = nullptr;
        it() = default;
        explicit it(Once const *x) : o(x) {}
        it(it &&) = default;
        it &operator=(it &&) = default;
        it(it const &) requires CP = default;
        it &operator=(it const &) requires CP = default;
        E const &operator*() const { return o->v->at(o->pos); }
        it &operator++() { ++o->pos; return *this; }
        void operator++(int) { ++*this; }
        friend bool operator==(it const &a, std::default_sentinel_t) { return a.o->pos == a.o->v->size(); }
    };
    it begin() const { return it{this}; }
    std::default_sentinel_t end() const { return {}; }
};
struct Agree {
    std::string r;
    bool first = true;
    void operator()(std::string const &x, char const *how) {
        if (first) { r = x; first = false; }
        else if (r != x && r.find("but") == std::string::npos) r = r + " but " + x + " for " + how;
    }
};

enum Which { Min, Max, MinMax };
template<Which W> static auto const &algo() {
    if constexpr (W == Min) return dtl::opt_min_element;
    else if constexpr (W == Max) return dtl::opt_max_element;
    else return dtl::opt_minmax_element;
}
template<Which W, class R> static std::string sh(R const &r) { if constexpr (W == MinMax) return showmm(r); else return show(r); }

template<Which W, class E, class... C> static void elements(Agree &a, std::vector<E> const &v, C... c) {
    auto const &f = algo<W>();
    auto one = [&](auto &r, char const *how) {
        auto again = [&] { if constexpr (requires { r.pos; }) r.pos = 0; };
        a(sh<W>(f(r, c...)), how); again();
        a(sh<W>(f(std::ranges::begin(r), std::ranges::end(r), c...)), how); again();
        a(sh<W>(r | f(c...)), how);
    };
    one(v, "vector const&");
    { auto w = v; one(w, "vector&"); for (size_t k = 0; k < w.size(); ++k) if (w[k] != v[k]) a("source changed", "vector&"); }
    { std::list<E> l(v.begin(), v.end()); one(l, "list"); }
    { std::forward_list<E> l(v.begin(), v.end()); one(l, "forward_list"); }
    { auto t = v | std::views::transform([](E const &e) { return e; }); one(t, "transform view"); }
    { auto t = v | std::views::filter([](E const &) { return true; }); one(t, "filter view"); }
    { Once<E, true> o{&v}; one(o, "single-pass range"); }
    { Once<E, false> o{&v}; one(o, "single-pass range with move-only iterators"); }
    a(sh<W>(f(std::vector<E>(v), c...)), "rvalue");
}
template<Which W, class... C> static std::string all(std::vector<O> const &v, C... c) {
    Agree a;
    elements<W>(a, v, c...);
    bool full = true;
    for (auto const &o : v) full = full && o;
    if (full) { // also for elements that are not optional
        std::vector<K> p;
        for (auto const &o : v) p.push_back(*o);
        elements<W>(a, p, c...);
    }
    auto list = [&](std::initializer_list<O> il) {
        if constexpr (W == Min) a(sh<W>(dtl::opt_min<K>(il, c...)), "initializer list");
        else if constexpr (W == Max) a(sh<W>(dtl::opt_max<K>(il, c...)), "initializer list");
        else a(sh<W>(dtl::opt_minmax<K>(il, c...)), "initializer list");
    };
    if (v.size() == 0) list({});
    if (v.size() == 1) list({v[0]});
    if (v.size() == 3) list({v[0], v[1], v[2]});
    if (v.size() == 4) list({v[0], v[1], v[2], v[3]});
    if (v.size() == 2) {
        list({v[0], v[1]});
        auto const &x = v[0];
        auto const &y = v[1];
        if constexpr (W == Min) a(sh<W>(dtl::opt_min(x, y, c...)), "two arguments");
        else if constexpr (W == Max) a(sh<W>(dtl::opt_max(x, y, c...)), "two arguments");
        else a(sh<W>(dtl::opt_minmax(x, y, c...)), "two arguments");
        if (x && y) {
            if constexpr (W == Min) a(sh<W>(dtl::opt_min<K>(*x, *y, c...)), "two plain arguments");
            else if constexpr (W == Max) a(sh<W>(dtl::opt_max<K>(*x, *y, c...)), "two plain arguments");
            else a(sh<W>(dtl::opt_minmax<K>(*x, *y, c...)), "two plain arguments");
        }
        if (x && !y) {
            if constexpr (W == Min) a(sh<W>(dtl::opt_min<K>(*x, std::nullopt, c...)), "value and nullopt");
            else if constexpr (W == Max) a(sh<W>(dtl::opt_max<K>(*x, std::nullopt, c...)), "value and nullopt");
            else a(sh<W>(dtl::opt_minmax<K>(*x, std::nullopt, c...)), "value and nullopt");
        }
    }
    return a.r;
}
template<Which W> static std::string go(std::vector<O> const &v, std::string const &c) {
    if (c == "std") return all<W>(v);
    if (c == "less") return all<W>(v, [](K const &x, K const &y) { return x.key < y.key; });
    if (c == "greater") return all<W>(v, [](K const &x, K const &y) { return x.key > y.key; });
    return all<W>(v, [](K const &x, K const &y) { return x.key % 2 < y.key % 2; });
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) {
        std::vector<O> v;
        int p = 0;
        if (c.s(1) != "_") for (char ch : c.s(1)) { ++p; if (ch == '0') v.push_back(std::nullopt); else v.push_back(K{ch - '0', p}); }
        return c.op() == "min" ? go<Min>(v, c.s(2)) : c.op() == "max" ? go<Max>(v, c.s(2)) : go<MinMax>(v, c.s(2));
    };
    return mbt::run(argc, argv, h);
}
