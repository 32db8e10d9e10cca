// Replays histories of specs/RangeClass.tla: range() over value types that are not integral (KIND).
#include "mbt.hpp"
#include <dice/template-library/ranges.hpp>
#include <chrono>
#include <memory>
#include <string>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;
#if KIND == 0   // a class that owns its digits
struct Num {
    std::unique_ptr<int> p;
    Num(int v = 0) : p(std::make_unique<int>(v)) {}
    Num(Num const &o) : p(std::make_unique<int>(*o.p)) {}
    Num(Num &&o) noexcept = default;
    Num &operator=(Num const &o) { p = std::make_unique<int>(*o.p); return *this; }
    Num &operator=(Num &&o) noexcept = default;
    Num &operator+=(Num const &o) { *p += *o.p; return *this; }
    friend Num operator+(Num a, Num const &b) { a += b; return a; }
    friend bool operator==(Num const &a, Num const &b) { return *a.p == *b.p; }
    friend auto operator<=>(Num const &a, Num const &b) { return *a.p <=> *b.p; }
};
using V = Num; using S = Num;
static V val(int i) { return Num(i); }
static S step(int i) { return Num(i); }
static int back(V const &v) { return *v.p; }
#define SAME 1
#elif KIND == 1
using V = double; using S = double;
static V val(int i) { return i; }
static S step(int i) { return i; }
static int back(V v) { return int(v); }
#define SAME 1
#elif KIND == 2 // pointers
static short base[64];
using V = short const *; using S = std::ptrdiff_t;
static V val(int i) { return base + 32 + i; }
static S step(int i) { return i; }
static int back(V v) { return int(v - base) - 32; }
#define SAME 0
#elif KIND == 3 // points in time
using V = std::chrono::sys_seconds; using S = std::chrono::minutes;
static V val(int i) { return V{} + std::chrono::minutes(i); }
static S step(int i) { return S{i}; }
static int back(V v) { return int(std::chrono::duration_cast<S>(v.time_since_epoch()).count()); }
#define SAME 0
#else // halves
using V = double; using S = float;
static V val(int i) { return i * .5; }
static S step(int i) { return float(i) * .5f; }
static int back(V v) { return int(v * 2); }
#define SAME 0
#endif
static std::string about(auto const &v) {
    auto list = [](auto &&r) { std::string s; int k = 0; for (auto const &x : r) { if (++k > 40) return s + "..."; s += cat(back(x), ","); } return s; };
    std::string a = list(v);
    if (list(std::ranges::subrange(v.cbegin(), v.cend())) != a) return "cbegin disagrees";
    auto w = v;
    if (list(w) != a || list(std::move(w)) != a) return "a copied view disagrees";
    if (list(v | std::views::transform([](auto const &x) { return x; })) != a) return "a piped view disagrees";
    int k = 0;
    for (auto it = v.begin(); it != v.end(); it++, ++k) {
        auto at = it;
        if (list(std::ranges::subrange(at, v.end())).size() + 0 > a.size()) return "a copied iterator disagrees";
        if (k > 40) return "endless";
    }
    return a;
}
static std::string exec1(Cmd const &c) {
    auto const &op = c.op();
#if SAME
    if (op == "range1") return about(dtl::range<V>(val(int(c.i(1)))));
    if (op == "range2") return about(dtl::range<V>(val(int(c.i(1))), val(int(c.i(2)))));
#endif
    if (op == "range") {
        try { return about(dtl::range<V, S>(val(int(c.i(1))), val(int(c.i(2))), step(int(c.i(3))))); }
        catch (std::invalid_argument const &) { return "invalid_argument"; }
    }
    throw mbt::HarnessError{op};
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = exec1;
    return mbt::run(argc, argv, h);
}
