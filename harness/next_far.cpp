// Replays histories of specs/NextFar.tla; SCALE is the K of the model.
#include "mbt.hpp"
#include <dice/template-library/next_to_range.hpp>
#include <cstdint>
#include <optional>
using namespace dice::template_library;
using mbt::Cmd;
#ifndef SCALE
#define SCALE 4294967296
#endif
static constexpr std::uint64_t K = SCALE;

struct Count { // the numbers lo .. hi-1
    using value_type = std::uint64_t;
    std::uint64_t lo = 0, hi;
    explicit Count(std::uint64_t n) : hi(n) {}
    std::optional<std::uint64_t> next() { if (lo >= hi) return std::nullopt; return lo++; }
    std::optional<std::uint64_t> next_back() { if (lo >= hi) return std::nullopt; return --hi; }
    std::optional<std::uint64_t> nth(size_t off) { if (off >= hi - lo) { lo = hi; return std::nullopt; } lo += off; return next(); }
    std::optional<std::uint64_t> nth_back(size_t off) { if (off >= hi - lo) { hi = lo; return std::nullopt; } hi -= off; return next_back(); }
    size_t remaining() const noexcept { return hi - lo; }
};
static_assert(sizeof(size_t) == 8);

static std::uint64_t in(std::int64_t x) { // model -> code
    std::int64_t const u = (x + 500) / 1000;
    return static_cast<std::uint64_t>(u) * K + static_cast<std::uint64_t>(x - u * 1000);
}
static std::string out(std::uint64_t v) { // code -> model
    std::uint64_t const u = v / K + (v % K > K / 2 ? 1 : 0);
    std::int64_t const d = static_cast<std::int64_t>(v - u * K);
    if (d < -100 || d > 100) return "some other number (" + std::to_string(v) + ")";
    return std::to_string(static_cast<std::int64_t>(u) * 1000 + d);
}
template<class It> static std::string cur(It const &it) { return it == std::default_sentinel ? "end" : out(*it); }
template<class It> static std::string iter(It it, std::uint64_t m, bool peek, std::uint64_t k) {
    std::string r;
    It other = it + m;
    it += m;
    r = cur(it);
    if (cur(other) != r) return "+ and += disagree";
    if (peek) { auto const &p = it.peek(); r += p ? " " + out(*p) : std::string(" none"); }
    other = it + k;
    it += k;
    r += " " + cur(it);
    if (cur(other) != cur(it)) return "+ and += disagree";
    ++it;
    return r + " " + cur(it);
}
static std::string exec1(Cmd const &c) {
    if (c.op() == "view") {
        auto n = in(c.i(1)), m = in(c.i(2)), k = in(c.i(3));
        next_to_view<Count> v{n};
        v.advance(m);
        std::string r = out(v.size());
        if (v.empty() != !v) return "empty and bool disagree";
        if (v.empty()) r += " empty"; else r += " " + out(v.front()) + " " + out(v.back());
        if (k < v.size()) r += " " + out(v[k]);
        return r;
    }
    auto n = in(c.i(2)), m = in(c.i(3)), k = in(c.i(5));
    bool const p = c.s(4) == "1";
    next_to_range<Count> const r{n};
    if (r.size() != n) return "size of the range";
    next_to_view<Count> const v{n};
    auto both = [](std::string const &a, std::string const &b) { return a == b ? a : "range: " + a + " view: " + b; };
    return c.s(1) == "f" ? both(iter(r.begin(), m, p, k), iter(v.begin(), m, p, k)) : both(iter(r.rbegin(), m, p, k), iter(v.rbegin(), m, p, k));
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = exec1;
    return mbt::run(argc, argv, h);
}
