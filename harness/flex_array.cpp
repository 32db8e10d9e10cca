// MODE 0 static, 1 limited, 2 dynamic; NN extent/maximum; ELEM element type
#include <dice/template-library/flex_array.hpp>
#include "mbt.hpp"
#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <ranges>
#include <sstream>
#include <utility>
namespace dtl = dice::template_library;

struct Obj { // non-trivial element owning memory
    std::unique_ptr<int> p = std::make_unique<int>(9);
    Obj() = default;
    Obj(int v) : p(new int(v)) {}
    Obj(Obj const &o) : p(new int(o.p ? *o.p : 8)) {}
    Obj(Obj &&o) noexcept : p(std::move(o.p)) {}
    Obj &operator=(Obj const &o) { p.reset(new int(o.p ? *o.p : 8)); return *this; }
    Obj &operator=(Obj &&o) noexcept { p = std::move(o.p); return *this; }
    int v() const { return p ? *p : 8; }
    bool operator==(Obj const &o) const { return v() == o.v(); }
    auto operator<=>(Obj const &o) const { return v() <=> o.v(); }
};
using E = ELEM;
template<class X = E> X tok(int k) {
    if constexpr (std::is_same_v<X, double>) return k == 3 ? std::numeric_limits<double>::quiet_NaN() : double(k);
    else return X(k);
}
template<class X> int untok(X const &e) {
    if constexpr (std::is_same_v<X, double>) return e != e ? 3 : int(e);
    else if constexpr (std::is_same_v<X, Obj>) return e.v();
    else return int(e);
}
constexpr size_t dyn = std::dynamic_extent;
using St = dtl::flex_array<E, NN>;
using Li = dtl::flex_array<E, dyn, NN>;
using Dy = dtl::flex_array<E, dyn>;
using LiBig = dtl::flex_array<E, dyn, NN + 2>;
#if MODE == 0
using FA = St;
static_assert(FA::mode == dtl::flex_array_mode::direct_static_size && !FA::has_dynamic_extent && FA::has_max_extent && FA::extent == NN);
#elif MODE == 1
using FA = Li;
static_assert(FA::mode == dtl::flex_array_mode::direct_dynamic_limited_size && FA::has_dynamic_extent && FA::has_max_extent && FA::max_size() == NN);
#else
using FA = Dy;
static_assert(FA::mode == dtl::flex_array_mode::dynamic_size && FA::has_dynamic_extent && !FA::has_max_extent);
#endif

template<class R, class G> R list_of(std::vector<E> const &v, G g) {
    switch (v.size()) {
        case 0: return g(std::initializer_list<E>{});
        case 1: return g({v[0]});
        case 2: return g({v[0], v[1]});
        case 3: return g({v[0], v[1], v[2]});
        case 4: return g({v[0], v[1], v[2], v[3]});
        case 5: return g({v[0], v[1], v[2], v[3], v[4]});
        case 6: return g({v[0], v[1], v[2], v[3], v[4], v[5]});
        case 7: return g({v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
    }
    throw mbt::HarnessError("list too long");
}
// C++17 input iterator: single pass
struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const *; using reference = E const &;
    struct St { std::vector<E> const *v; size_t pos; int *over; };
    St *st = nullptr;
    size_t end = 0;
    bool done() const { return !st || st->pos >= st->v->size(); }
    reference operator*() const { if (st->pos >= st->v->size()) { ++*st->over; return st->v->front(); } return (*st->v)[st->pos]; }
    InIt &operator++() { if (st->pos >= st->v->size()) ++*st->over; ++st->pos; return *this; }
    struct Proxy { E e; E operator*() { return e; } };
    Proxy operator++(int) { Proxy p{**this}; ++*this; return p; }
    bool operator==(InIt const &o) const { return done() && o.done(); }
};
// C++20 input iterator: move-only, post-increment returns nothing
struct StIt {
    using value_type = E; using difference_type = std::ptrdiff_t;
    InIt i;
    explicit StIt(InIt x) : i(x) {}
    StIt(StIt &&) = default;
    StIt &operator=(StIt &&) = default;
    E const &operator*() const { return *i; }
    StIt &operator++() { ++i; return *this; }
    void operator++(int) { ++i; }
    friend bool operator==(StIt const &a, std::default_sentinel_t) { return a.i.done(); }
};
static_assert(std::input_iterator<InIt> && std::input_iterator<StIt>);

int main(int argc, char **argv) {
    std::unique_ptr<FA> s[3];
    auto str = [](auto const &r) { std::string o; for (auto const &e : r) o += std::to_string(untok(e)); return o.empty() ? std::string("-") : o; };
    auto dflt = [&](int k) {
        s[k] = std::make_unique<FA>();
        if (MODE == 0) for (auto &e : *s[k]) e = tok(1);
    };
    auto all = [&](FA &x) -> std::string {
        FA const &c = x;
        size_t n = c.size();
        std::vector<E> ref(c.begin(), c.end());
        if (ref.size() != n || c.empty() != (n == 0)) return "size/empty";
        auto same = [&](auto b, auto e) { size_t i = 0; for (; b != e; ++b, ++i) if (i >= n || untok(*b) != untok(ref[i]) || &*b != c.data() + i) return false; return i == n; };
        auto back = [&](auto b, auto e) { size_t i = n; for (; b != e; ++b, --i) if (i == 0 || &*b != c.data() + i - 1) return false; return i == 0; };
        if (!same(x.begin(), x.end()) || !same(c.begin(), c.end()) || !same(c.cbegin(), c.cend())) return "begin/end";
        if (!back(x.rbegin(), x.rend()) || !back(c.rbegin(), c.rend()) || !back(c.crbegin(), c.crend())) return "rbegin/rend";
        for (size_t i = 0; i < n; ++i) if (&x[i] != x.data() + i || &c[i] != c.data() + i) return "[]";
        constexpr size_t ext = FA::has_dynamic_extent ? dyn : FA::extent;
        std::span<E, ext> sp = x;
        std::span<E const, ext> cs = c;
        if (sp.size() != n || cs.size() != n || (n && (sp.data() != x.data() || cs.data() != c.data()))) return "span";
        if (MODE != 2) { // stored inside the object
            auto *o = reinterpret_cast<unsigned char const *>(&c);
            auto *d = reinterpret_cast<unsigned char const *>(c.data());
            if (n && (d < o || d + n * sizeof(E) > o + sizeof(FA))) return "elements outside of the object";
        }
        return "ok ";
    };
    mbt::Harness H;
    H.reset = [&] { dflt(1); dflt(2); };
    H.finish = [&] { s[1].reset(); s[2].reset(); return std::string(); };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        std::string note = "ok ";
        auto content = [&](size_t w) { std::vector<E> v; if (c.s(w) != "-") for (char ch : c.s(w)) v.push_back(tok(ch - '0')); return v; };
        if (op == "cmp") {
            FA const &a = *s[1], &b = *s[2];
            auto o = a <=> b;
            int r = o == 0 ? 0 : o < 0 ? 1 : o > 0 ? 2 : 3;
            if ((a == b) != (r == 0) || (a != b) == (r == 0) || (a < b) != (r == 1) || (a > b) != (r == 2) || (a <= b) != (r < 2) || (a >= b) != (r == 0 || r == 2)) return "operators disagree with <=>";
            return std::to_string(r);
        }
        if (op == "swap") swap(*s[1], *s[2]);
        else {
            int k = int(c.i(1));
            if (op == "def") dflt(k);
            else if (op == "copy") s[k] = std::make_unique<FA>(std::as_const(*s[c.i(2)]));
            else if (op == "asg") { if (&(*s[k] = std::as_const(*s[c.i(2)])) != s[k].get()) return "= returns another object"; }
            else if (op == "move" || op == "masg") {
                int o = int(c.i(2));
                if (op == "move") s[k] = std::make_unique<FA>(std::move(*s[o]));
                else if (&(*s[k] = std::move(*s[o])) != s[k].get()) return "= returns another object";
                if (s[o]->size() > NN && MODE == 1) return "moved-from size";
                dflt(o);
            } else if (op == "resize") {
#if MODE != 0
                {
                    size_t n = size_t(c.i(2)), old = s[k]->size();
                    try { s[k]->resize(n); for (size_t i = old; i < n && i < s[k]->size(); ++i) (*s[k])[i] = tok(1); }
                    catch (std::invalid_argument const &) { note = "invalid_argument "; }
                }
#endif
            } else if (op == "all") note = all(*s[k]);
            else if (c.n() == 4) {
                size_t p = size_t(c.i(2));
                E t = tok(int(c.i(3)));
                FA &x = *s[k];
                if (op == "ix") x[p] = t;
                else if (op == "it") *(x.begin() + std::ptrdiff_t(p)) = t;
                else if (op == "rit") *(x.rbegin() + std::ptrdiff_t(x.size() - 1 - p)) = t;
                else if (op == "data") x.data()[p] = t;
                else if (op == "span") { std::span<E, FA::has_dynamic_extent ? dyn : FA::extent> sp = x; sp[p] = t; }
                else { size_t i = 0; for (auto &e : x) if (i++ == p) e = t; }
            } else {
                auto v = content(2);
                size_t const n = v.size();
                std::unique_ptr<FA> x;
                int over = 0;
                try {
                    if (op == "list") x = list_of<std::unique_ptr<FA>>(v, [](std::initializer_list<E> l) { return std::unique_ptr<FA>(new FA(l)); });
                    else if (op == "input") { InIt::St st{&v, 0, &over}; x.reset(new FA(InIt{&st}, InIt{})); }
                    else if (op == "stream") { InIt::St st{&v, 0, &over}; x.reset(new FA(StIt{InIt{&st}}, std::default_sentinel)); }
                    else if (op == "fwd") { std::forward_list<E> l(v.begin(), v.end()); x.reset(new FA(l.begin(), l.end())); }
                    else if (op == "bidi") { std::list<E> l(v.begin(), v.end()); x.reset(new FA(l.cbegin(), l.cend())); }
                    else if (op == "ra") x.reset(new FA(v.begin(), v.end()));
                    else if (op == "ptr") { std::unique_ptr<E[]> a(new E[n]); std::copy(v.begin(), v.end(), a.get()); x.reset(new FA(static_cast<E const *>(a.get()), static_cast<E const *>(a.get()) + n)); }
                    else if (op == "counted") x.reset(new FA(std::counted_iterator(v.begin(), std::ptrdiff_t(n)), std::default_sentinel));
#if MODE == 0
                    else if (op == "conv-limited") { LiBig l(v.begin(), v.end()); x.reset(new FA(l)); }
                    else if (op == "conv-dynamic") { Dy l(v.begin(), v.end()); x.reset(new FA(l)); }
#else
                    else if (op == "conv-static") {
                        auto go = [&]<size_t K>(std::integral_constant<size_t, K>) { if (n == K) { dtl::flex_array<E, K> l(v.begin(), v.end()); x.reset(new FA(l)); } };
                        [&]<size_t... K>(std::index_sequence<K...>) { (go(std::integral_constant<size_t, K>{}), ...); }(std::make_index_sequence<NN + 1>{});
                    }
#endif
                    else throw mbt::HarnessError("op " + op);
                    s[k] = std::move(x);
                } catch (std::length_error const &) { note = "length_error "; }
                if (over) return "reads beyond the end of the range";
            }
        }
        return note + str(*s[1]) + "|" + str(*s[2]);
    };
    return mbt::run(argc, argv, H);
}
