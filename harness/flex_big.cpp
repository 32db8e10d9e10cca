// Replays histories of specs/FlexBig.tla. MODE 0 static, 1 limited, 2 dynamic; NN extent/maximum
#include "mbt.hpp"
#include <dice/template-library/flex_array.hpp>
namespace dtl = dice::template_library;
constexpr size_t dyn = std::dynamic_extent;
using E = uint64_t;
using Dy = dtl::flex_array<E, dyn>;
#if MODE == 0
using FA = dtl::flex_array<E, NN>;
#elif MODE == 1
using FA = dtl::flex_array<E, dyn, NN>;
#else
using FA = Dy;
#endif
static E pat(int e, size_t i) { return E(e) << 40 | 2 * i; }
static std::string show(FA const &a) {
    size_t n = a.size();
    if (a.empty() != (n == 0) || size_t(a.end() - a.begin()) != n) return "size/empty/end";
    if (!n) return "0:";
    int e = int(a[0] >> 40);
    std::string plus;
    size_t k = 0;
    for (E const &x : a) {
        if (x != a[k] || &x != a.data() + k) return "iteration";
        if (x != pat(e, k)) { if (x == pat(e, k) + 1 && plus.empty()) plus = mbt::cat("+", k); else return mbt::cat("element ", k, " is wrong"); }
        ++k;
    }
    return mbt::cat(n, ":", e, plus);
}
struct InIt { // single pass
    using iterator_category = std::input_iterator_tag;
    using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const *; using reference = E;
    E const *p = nullptr; E const *const *end = nullptr;
    E operator*() const { return *p; }
    InIt &operator++() { ++p; return *this; }
    InIt operator++(int) { auto t = *this; ++p; return t; }
    bool operator==(InIt const &o) const { return p == o.p; }
};
int main(int argc, char **argv) {
    std::unique_ptr<FA> s[3];
    auto dflt = [&](int k) {
        s[k] = std::make_unique<FA>();
        if (MODE == 0) { size_t i = 0; for (auto &e : *s[k]) e = pat(1, i++); }
    };
    int seed[3] = {1, 1, 1};
    mbt::Harness H;
    H.reset = [&] { dflt(1); dflt(2); seed[1] = seed[2] = 1; };
    H.finish = [&] { s[1].reset(); s[2].reset(); return std::string(); };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        std::string note = "ok";
        int k = c.n() > 1 ? int(c.i(1)) : 1, o = 3 - k;
        try {
            if (op == "swap") { swap(*s[1], *s[2]); std::swap(seed[1], seed[2]); }
            else if (op == "cmp") {
                FA const &a = *s[1], &b = *s[2];
                auto r = a <=> b;
                note = r < 0 ? "less" : r > 0 ? "greater" : "equal";
                if ((a == b) != (r == 0) || (a < b) != (r < 0) || (a <= b) == (r > 0)) note = "operators disagree";
            }
            else if (op == "copy") { s[k] = std::make_unique<FA>(std::as_const(*s[o])); seed[k] = seed[o]; }
            else if (op == "asg") { *s[k] = std::as_const(*s[o]); seed[k] = seed[o]; }
            else if (op == "move") { s[k] = std::make_unique<FA>(std::move(*s[o])); seed[k] = seed[o]; dflt(o); seed[o] = 1; }
            else if (op == "masg") { *s[k] = std::move(*s[o]); seed[k] = seed[o]; dflt(o); seed[o] = 1; }
            else if (op == "resize") {
#if MODE != 0
                size_t old = s[k]->size(), n = size_t(c.i(2));
                s[k]->resize(n);
                for (size_t i = old; i < s[k]->size(); ++i) (*s[k])[i] = pat(seed[k], i);
#endif
            }
            else if (op == "ix" || op == "rit" || op == "span") {
                size_t p = size_t(c.i(2));
                std::span<E, FA::has_dynamic_extent ? dyn : size_t(FA::extent)> sp = *s[k];
                if (sp.size() != s[k]->size()) return "span has another size";
                E &e = op == "ix" ? (*s[k])[p] : op == "span" ? sp[p] : *(s[k]->rbegin() + std::ptrdiff_t(s[k]->size() - 1 - p));
                e += c.s(3) == "up" ? 1 : -1;
            } else {
                size_t n = size_t(c.i(3));
                int e = int(c.i(2));
                std::vector<E> v(n);
                for (size_t i = 0; i < n; ++i) v[i] = pat(e, i);
                std::unique_ptr<FA> x;
                if (op == "ptr") x = std::make_unique<FA>(v.data(), v.data() + n);
                else if (op == "input") x = std::make_unique<FA>(InIt{v.data()}, InIt{v.data() + n});
                else if (op == "fwd") { std::forward_list<E> l(v.begin(), v.end()); x = std::make_unique<FA>(l.begin(), l.end()); }
                else if (op == "ra") { std::deque<E> l(v.begin(), v.end()); x = std::make_unique<FA>(l.begin(), l.end()); }
                else if (op == "counted") x = std::make_unique<FA>(std::counted_iterator(v.begin(), std::ptrdiff_t(n)), std::default_sentinel);
#if MODE == 0
                else if (op == "conv-limited") { auto l = std::make_unique<dtl::flex_array<E, dyn, 70001>>(v.data(), v.data() + n); x = std::make_unique<FA>(*l); }
                else if (op == "conv-dynamic") { Dy l(v.data(), v.data() + n); x = std::make_unique<FA>(l); }
#endif
                else throw mbt::HarnessError("op " + op);
                s[k] = std::move(x);
                seed[k] = e;
            }
        } catch (std::length_error const &) { note = "length_error"; }
        catch (std::invalid_argument const &) { note = "invalid_argument"; }
        auto sh = [&](int i) { auto r = show(*s[i]); return r == "0:" ? mbt::cat("0:", seed[i]) : r; };
        return note + " " + sh(1) + " " + sh(2);
    };
    return mbt::run(argc, argv, H);
}
