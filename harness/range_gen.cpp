// Replays histories of specs/RangeGen.tla on range() for a value type TT and a step type SS.
#include "mbt.hpp"
#include <dice/template-library/ranges.hpp>
#include <limits>
#include <stdexcept>
using namespace dice::template_library;
using mbt::Cmd; using mbt::cat;
#ifndef TT
#define TT int
#endif
#ifndef SS
#define SS int
#endif
using T = TT;
using S = SS;
using Big = __int128;
static constexpr Big Q = Big{1} << (sizeof(T) * 8 - 2);

static Big num(std::string const &w) {
    auto c = w.find(':');
    return Big{std::stoll(w.substr(0, c))} * Q + std::stoll(w.substr(c + 1));
}
static std::string show(Big v) {
    Big a = v >= 0 ? (v + Q / 2) / Q : -((-v + Q / 2) / Q), o = v - a * Q;
    return cat(static_cast<long long>(a), ":", static_cast<long long>(o));
}
template<class R> static std::string list(R &&r, int max = 20) {
    std::string s;
    for (T x : r) { if (max-- == 0) return s + "..."; s += show(x) + ","; }
    return s;
}
template<class V> static std::string about(V const &v) {
    std::string fw = list(v), bw = list(v.reversed());
    size_t n = v.size();
    if (v.empty() != (n == 0) || static_cast<bool>(v) != (n != 0)) return "size and empty disagree";
    if (list(std::ranges::subrange(v.cbegin(), v.cend())) != fw || list(std::ranges::subrange(v.rbegin(), v.rend())) != bw) return "begin/rbegin disagree";
    if (n > 0 && n < 20) {
        if (show(v.front()) + "," != fw.substr(0, fw.find(',') + 1) || show(v.back()) + "," != bw.substr(0, bw.find(',') + 1)) return "front or back disagree";
        std::string ix;
        for (size_t k = 0; k < n; ++k) ix += show(v[k]) + ",";
        if (ix != fw) return "indexing gives " + ix;
    }
    std::string f, b;
    for (size_t k = 0; k <= 3 && k <= n + 1; ++k) {
        auto w = v;
        w.advance(k);
        std::string l = list(w);
        if (w.size() != (k > n ? 0 : n - k)) return "size after advance";
        if (w.size() > 0 && list(w.reversed()) != bw.substr(0, bw.size() - (fw.size() - l.size()))) return "reversed after advance: " + list(w.reversed());
        f += ">" + l;
        auto i = v.begin();
        i += k;
        if (list(std::ranges::subrange(i, v.end())) != l || list(std::ranges::subrange(v.begin() + k, v.end())) != l) return "begin() + n disagrees";
        auto r = v.rbegin();
        r += k;
        b += ">" + list(std::ranges::subrange(r, v.rend()));
    }
    return cat(n, " ", fw, " ", bw, " ", f, " ", b);
}

static std::string exec1(Cmd const &c) {
    auto &op = c.op();
    T x = static_cast<T>(num(c.s(1)));
    if (op == "range1") { if constexpr (std::is_same_v<T, S>) return about(range<T>(x)); }
    T y = static_cast<T>(num(c.s(op == "range1" ? 1 : 2)));
    if (op == "range2") return about(range<T>(x, y));
    if (op == "range1") return about(range<T>(y));
    if (op == "zero") {
        try { auto v = range<T, S>(x, y, S{}); return "accepted"; }
        catch (std::invalid_argument const &) { return "invalid_argument"; }
    }
    S st = static_cast<S>(num(c.s(3)));
    auto v = range<T, S>(x, y, st);
    if (op == "range") return about(v);
    size_t n = v.size();
    if (v.empty() || !v) return "empty";
    auto take = [](auto &&r, int k) { std::string s; for (T e : r) { if (k-- == 0) break; s += show(e) + ","; } return s; };
    std::string f = take(v, 3), b = take(v.reversed(), 3);
    if (show(v[0]) + "," + show(v[1]) + "," + show(v[2]) + "," != f) return "indexing disagrees at the front";
    if (show(v[n - 1]) + "," + show(v[n - 2]) + "," + show(v[n - 3]) + "," != b) return "indexing disagrees at the back: " + show(v[n - 1]);
    if (v.front() != v[0] || v.back() != v[n - 1]) return "front or back disagree";
    auto w = v;
    w.advance(5);
    if (w.size() != n - 5) return "size after advance";
    if (take(w.reversed(), 3) != b) return "reversed after advance";
    auto i = v.begin();
    i += 5;
    if (*i != w.front()) return "begin() + 5";
    auto r = v.rbegin();
    r += 5;
    return cat(show(Big(n)), " ", f, " ", b, " ", take(w, 2), " ", take(std::ranges::subrange(r, v.rend()), 2));
}
// also usable at compile time
static_assert([] { int s = 0; for (int x : range<int>(1, 10, 3)) s = s * 10 + x; return s; }() == 147);
static_assert(std::ranges::view<decltype(range<T, S>(T{}, T{}, S{1}))>);

int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = exec1;
    return mbt::run(argc, argv, h);
}
