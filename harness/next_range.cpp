// Replays histories of specs/NextRange.tla on next_to_iter, next_to_range and next_to_view.
#include "mbt.hpp"
#include <dice/template-library/next_to_range.hpp>
#include <memory>
#include <optional>
#include <ranges>
using namespace dice::template_library;
using mbt::Cmd; using mbt::cat;
#ifndef COPY
#define COPY 1
#endif
#ifndef NTH
#define NTH 1
#endif
#ifndef NI
#define NI 2
#endif

struct Limit { // an argument that can tell that it was moved from
    int n;
    explicit Limit(int k) : n(k) {}
    Limit(Limit const &) = default;
    Limit(Limit &&o) noexcept : n(std::exchange(o.n, 0)) {}
};
struct Under { // elements lo+1 .. hi
    using value_type = int;
    int lo, hi;
#if !COPY
    std::unique_ptr<int> own = std::make_unique<int>(1);
#endif
    explicit Under(Limit n) : lo(0), hi(n.n) {}
    std::optional<int> next() { if (lo >= hi) return std::nullopt; return ++lo; }
    std::optional<int> next_back() { if (lo >= hi) return std::nullopt; return hi--; }
#if NTH
    std::optional<int> nth(size_t off) { if (off >= static_cast<size_t>(hi - lo)) { lo = hi; return std::nullopt; } lo += static_cast<int>(off); return next(); }
    std::optional<int> nth_back(size_t off) { if (off >= static_cast<size_t>(hi - lo)) { hi = lo; return std::nullopt; } hi -= static_cast<int>(off); return next_back(); }
#endif
    size_t remaining() const noexcept { return static_cast<size_t>(hi - lo); }
};
using Fwd = next_to_iter<Under>;
using Bwd = next_back_to_reverse_iter<Under>;
using Rng = next_to_range<Under>;
static_assert(std::input_iterator<Fwd> && std::input_iterator<Bwd>);
static_assert(std::ranges::input_range<Rng const>);
#if COPY
using Vw = next_to_view<Under>;
static_assert(std::ranges::view<Vw> && std::ranges::input_range<Vw>);
static std::optional<Vw> view;
#endif

static std::optional<Rng> rng, rng2;
static std::unique_ptr<Fwd> fw[NI + 1];
static std::unique_ptr<Bwd> bw[NI + 1];

template<class It> static std::string cur(It &it) {
    bool const e1 = it == std::default_sentinel, e2 = std::default_sentinel == it;
    if (e1 != e2 || (it != std::default_sentinel) == e1) return "inconsistent";
    if (e1) return "end";
    It const &ci = it;
    if (&*it != it.operator->() || &*ci != &*it) return "inconsistent reference";
    return std::to_string(*it);
}
static std::string show() {
    std::string r;
    for (int j = 1; j <= NI; ++j) r += " " + (fw[j] ? cur(*fw[j]) : bw[j] ? cur(*bw[j]) : std::string("-"));
    return r;
}
static void make(int n) {
    rng.emplace(Limit{n});
    Limit keep{n};
    if (rng2.emplace(keep); keep.n != n) std::abort(); // an lvalue is left alone
#if COPY
    view.emplace(Limit{n});
#endif
    for (int j = 1; j <= NI; ++j) { fw[j].reset(); bw[j].reset(); }
}
template<class R> static std::string list(R &&r) { std::string s; for (int x : r) s += cat(x, ","); return s; }
template<class I, class S> static std::string list(I i, S e) { std::string s; for (; i != e; ++i) s += cat(*i, ","); return s; }

template<class It> static std::string ops(std::unique_ptr<It> (&sl)[NI + 1], int j, Cmd const &c) {
    auto &op = c.op();
    It &it = *sl[j];
    if (op == "inc") { It &r = ++it; return &r == &it ? "ok" : "++ returned something else"; }
    if (op == "post") {
#if COPY
        auto old = it++;
        return cur(old);
#else
        it++;
        return "ok";
#endif
    }
    if (op == "peek") { auto const &p = it.peek(); return p ? std::to_string(*p) : "none"; }
    if (op == "write") { *it = 99; return "ok"; }
#if NTH
    if (op == "add") { It &r = (it += static_cast<size_t>(c.i(2))); return &r == &it ? "ok" : "+= returned something else"; }
#endif
    int l = static_cast<int>(c.i(1));
    std::unique_ptr<It> res;
#if COPY
#if NTH
    if (op == "plus") res = std::make_unique<It>(std::as_const(it) + static_cast<size_t>(c.i(3)));
#endif
    if (op == "copy") { if (sl[l]) { *sl[l] = it; return "ok"; } It t(it); res = std::make_unique<It>(std::as_const(t)); }
#endif
    if (op == "move") { if (sl[l]) { *sl[l] = std::move(it); sl[j].reset(); return "ok"; } res = std::make_unique<It>(std::move(it)); sl[j].reset(); }
    if (!res) throw mbt::HarnessError{op};
    fw[l].reset(); bw[l].reset();
    sl[l] = std::move(res);
    return "ok";
}

static std::string exec1(Cmd const &c) {
    auto &op = c.op();
    if (op == "make") { make(static_cast<int>(c.i(1))); return "ok"; }
    if (op == "whole") {
        auto const &r = *rng;
        std::string a = list(r), b = list(r.reversed());
        if (list(*rng2) != a) return "a range made from an lvalue disagrees";
        if (list(r.cbegin(), r.cend()) != a || list(r.begin(), r.end()) != a || list(r.rbegin(), r.rend()) != b || list(r.crbegin(), r.crend()) != b) return "cbegin/rbegin disagree";
        std::string o = a + "/" + b;
#if COPY
        o += cat(" ", r.size(), r.empty(), static_cast<bool>(r));
        auto const &v = *view;
        a = list(v); b = list(v.reversed());
        if (list(v.cbegin(), v.cend()) != a || list(v.begin(), v.end()) != a || list(v.rbegin(), v.rend()) != b || list(v.crbegin(), v.crend()) != b) return "cbegin/rbegin of the view disagree";
        if (list(v | std::views::transform([](int x) { return x; })) != a) return "piped view disagrees";
        auto w = v;
        if (list(w) != a) return "copied view disagrees";
        o += " " + a + "/" + b + cat(" ", v.size(), v.empty(), static_cast<bool>(v));
        if (!v.empty()) o += cat(v.front(), ".", v.back());
#if NTH
        o += "[";
        for (size_t k = 0; k < v.size(); ++k) o += cat(v[k], ",");
#endif
#endif
        return o;
    }
#if COPY && NTH
    if (op == "advance") { auto &r = view->advance(static_cast<size_t>(c.i(1))); return &r == &*view ? "ok" : "advance returned something else"; }
#endif
    int j = static_cast<int>(c.i(1));
    if (op == "begin") {
        fw[j].reset(); bw[j].reset();
        auto go = [&](auto const &o) {
            if (c.s(2) == "f") fw[j] = std::make_unique<Fwd>(o.begin());
            else if (c.s(2) == "b") bw[j] = std::make_unique<Bwd>(o.rbegin());
            else { auto rv = o.reversed(); bw[j] = std::make_unique<Bwd>(rv.begin()); }
        };
#if COPY
        if (c.s(3) == "v") go(*view); else go(*rng);
#else
        go(*rng);
#endif
        return "ok";
    }
    if (op == "plus" || op == "copy" || op == "move") j = static_cast<int>(c.i(2));
    return fw[j] ? ops(fw, j, c) : ops(bw, j, c);
}

int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { make(0); };
    h.exec = [](Cmd const &c) { auto r = exec1(c); return r + show(); };
    return mbt::run(argc, argv, h);
}
