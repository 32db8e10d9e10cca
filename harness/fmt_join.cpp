// Replays histories of specs/FmtJoin.tla on fmt_join for element type ET and character type CH.
#include "mbt.hpp"
#include <dice/template-library/fmt_join.hpp>
using mbt::Cmd;
namespace dtl = dice::template_library;
#ifndef ET
#define ET 1
#endif
#ifndef WIDE
#define WIDE 0
#endif
#if WIDE
using CH = wchar_t;
#define S(x) L##x
#else
using CH = char;
#define S(x) x
#endif
using Str = std::basic_string<CH>;
static Str widen(std::string const &s) { return Str(s.begin(), s.end()); }
static std::string show(Str const &s) {
    std::string o = "\"";
    for (CH c : s) { if (c == 0) o += "<0>"; else if (c == '\n') o += "<n>"; else o += char(c); }
    return o + "\"";
}
struct Custom { int v; };
template<> struct std::formatter<Custom, CH> { // remembers its specification
    Str spec;
    constexpr auto parse(auto &ctx) { auto it = ctx.begin(); while (it != ctx.end() && *it != '}') spec += *it++; return it; }
    auto format(Custom const &c, auto &ctx) const { auto out = ctx.out(); *out++ = '['; for (CH x : spec) *out++ = x; *out++ = CH('0' + c.v); *out++ = ']'; return out; }
};
static std::vector<int> const inner[] = {{}, {4}, {5, 60, 7}};
using Inner = decltype(dtl::fmt_join(inner[0], S("+")));
#if ET == 1
using T = int; static T value(int k) { return k == 1 ? 0 : k == 2 ? -7 : 42; }
#elif ET == 2
using T = double; static T value(int k) { return k == 1 ? .5 : k == 2 ? -2. : 1e100; }
#elif ET == 3
using T = Str; static T value(int k) { return k == 1 ? S("") : k == 2 ? S("a, b") : S("{}"); }
#elif ET == 4
using T = CH; static T value(int k) { return k == 1 ? S('a') : k == 2 ? S(',') : S('\0'); }
#elif ET == 5
using T = bool; static T value(int k) { return k != 2; }
#elif ET == 6
using T = Inner; static T value(int k) { return dtl::fmt_join(inner[k - 1], S("+")); }
#else
using T = Custom; static T value(int k) { return {k}; }
#endif
// a single-pass range with a sentinel, which must be read exactly once, element by element
struct Input {
    std::vector<T> v;
    struct it {
        using value_type = T; using difference_type = std::ptrdiff_t;
        Input *p; size_t k;
        it(Input *q, size_t i) : p(q), k(i) {}
        it(it &&) = default; it &operator=(it &&) = default;
        T operator*() const { if (p->at != k) throw std::runtime_error("read after advancing"); if (!p->read.insert(k).second) throw std::runtime_error("element read twice"); return p->v[k]; }
        it &operator++() { ++k; p->at = k; return *this; }
        void operator++(int) { ++*this; }
        bool operator==(std::default_sentinel_t) const { return k == p->v.size(); }
    };
    size_t at = 0; std::set<size_t> read;
    it begin() { return {this, 0}; }
    std::default_sentinel_t end() const { return {}; }
};
static_assert(std::ranges::input_range<Input> && !std::ranges::forward_range<Input>);
static Str fmt(Str const &spec, auto &&j) { // "{:spec}"
    Str f = spec.empty() ? Str(S("{}")) : S("{:") + spec + S("}");
#if WIDE
    return std::vformat(f, std::make_wformat_args(j));
#else
    return std::vformat(f, std::make_format_args(j));
#endif
}
template<class F> static Str with_sep(std::string const &kind, int k, F f) { // separators in all the forms they can be given
    auto by = [&](auto const &lit) -> Str {
        Str const str(lit, std::size(lit) - 1);
        if (kind == "string") return f(str);
        if (kind == "view") return f(std::basic_string_view<CH>(str));
        if (kind == "vector") return f(std::vector<CH>(str.begin(), str.end()));
        if (kind == "pointer") { CH const *p = str.c_str(); (void) p; }
        return f(lit);
    };
    auto ch = [&](auto const &lit) -> Str { if (kind == "char") { CH const c = lit[0]; return f(c); } return by(lit); };
    switch (k) {
    case 1: return by(S(", "));
    case 2: return by(S(""));
    case 3: return ch(S("-"));
    case 4: return ch(S("\0"));
    case 5: return ch(S("\n"));
    case 6: return by(S("{}"));
    case 7: return by(S("%s\\"));
    case 8: return by(S(", , "));
    case 9: return by(S("a\0b"));
    case 10: return ch(S("x"));
    case 11: return ch(S("{"));
    default: return by(S("long separator that does not fit into small buffers"));
    }
}
static std::vector<int> codes(std::string const &w) { std::vector<int> r; if (w != "-") for (char c : w) r.push_back(c - '0'); return r; }
struct Odd { int k; };
template<class Sep> static Str join(std::string const &cont, Str const &spec, std::vector<int> const &q, Sep const &sep) {
    std::deque<T> d; // bool: no std::vector<bool> here
    for (int k : q) d.push_back(value(k));
    if (cont == "deque") return fmt(spec, dtl::fmt_join(d, sep));
    if (cont == "const") return fmt(spec, dtl::fmt_join(std::as_const(d), sep));
    if (cont == "temporary") return fmt(spec, dtl::fmt_join(std::deque<T>(d), sep));
    if (cont == "list") { std::list<T> l(d.begin(), d.end()); return fmt(spec, dtl::fmt_join(l, sep)); }
    if (cont == "forward") { std::forward_list<T> l(d.begin(), d.end()); return fmt(spec, dtl::fmt_join(l, sep)); }
    if (cont == "filter") { // elements that are filtered out in between
        std::vector<int> ks{-1};
        for (int k : q) { ks.push_back(k); ks.push_back(-1); }
        return fmt(spec, dtl::fmt_join(ks | std::views::filter([](int k) { return k > 0; }) | std::views::transform(value), sep));
    }
    if (cont == "transform") return fmt(spec, dtl::fmt_join(q | std::views::transform([](int k) { return value(k); }), sep));
    if (cont == "reverse") { std::deque<T> e(d.rbegin(), d.rend()); return fmt(spec, dtl::fmt_join(e | std::views::reverse, sep)); }
    if (cont == "take") { auto e = d; e.push_back(value(1)); return fmt(spec, dtl::fmt_join(e | std::views::take(std::ptrdiff_t(d.size())), sep)); }
    if (cont == "constview") { auto const j = dtl::fmt_join(d, sep); return fmt(spec, j); }
    if (cont == "sentinel") return fmt(spec, dtl::fmt_join(std::views::iota(size_t{0}) | std::views::take_while([&](size_t i) { return i < q.size(); }) | std::views::transform([&](size_t i) { return value(q[i]); }), sep));
    if (cont == "input") { Input in{{d.begin(), d.end()}}; return fmt(spec, dtl::fmt_join(in, sep)); }
    if (cont == "inputtmp") return fmt(spec, dtl::fmt_join(Input{{d.begin(), d.end()}}, sep));
    if (cont == "initlist") {
#if ET == 5 // the documented overload copies into a vector
        using X = char; (void) sizeof(X);
        return join<Sep>("deque", spec, q, sep);
#else
        if (q.size() == 1) return fmt(spec, dtl::fmt_join({d[0]}, sep));
        if (q.size() == 2) return fmt(spec, dtl::fmt_join({d[0], d[1]}, sep));
        return fmt(spec, dtl::fmt_join({d[0], d[1], d[2]}, sep));
#endif
    }
    std::vector<T> v(d.begin(), d.end());
    if (cont == "vectorbool" || cont == "vector") return fmt(spec, dtl::fmt_join(v, sep));
#if ET != 5
    if (cont == "span") return fmt(spec, dtl::fmt_join(std::span<T const>(v), sep));
#else
    if (cont == "span") { auto a = std::make_unique<bool[]>(v.size() + 1); std::copy(v.begin(), v.end(), a.get()); return fmt(spec, dtl::fmt_join(std::span<bool>(a.get(), v.size()), sep)); }
#endif
#if ET == 1 && !WIDE
    if (cont == "istream") { std::istringstream is; std::string t; for (int x : v) t += std::to_string(x) + " "; is.str(t); return fmt(spec, dtl::fmt_join(std::views::istream<int>(is), sep)); }
#endif
#if ET == 4
    if (cont == "text") { Str t(v.begin(), v.end()); return fmt(spec, dtl::fmt_join(t, sep)); }
#endif
    throw mbt::HarnessError{"container " + cont};
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        auto spec = [](std::string const &w) { return w == "-" ? Str{} : widen(w); };
        if (op == "join") {
            auto q = codes(c.s(5));
            return show(with_sep(c.s(2), int(c.i(3)), [&](auto const &sep) { return join(c.s(1), spec(c.s(4)), q, sep); }));
        }
        std::deque<T> a, b_;
        if (op == "dynamic") {
#if ET == 1
            for (int k : codes(c.s(1))) a.push_back(value(k));
            return show(std::format(S("{:{}}"), dtl::fmt_join(a, S(", ")), 5));
#endif
        }
        for (int k : codes(c.s(op == "via" ? 3 : 2))) a.push_back(value(k));
        if (op == "around") return show(with_sep("literal", int(c.i(1)), [&](auto const &sep) { return std::format(S("<{}>{{{}}}{}"), dtl::fmt_join(a, sep), dtl::fmt_join(a, sep), 7); }));
        if (op == "two") {
            for (int k : codes(c.s(3))) b_.push_back(value(k));
            return show(with_sep("string", int(c.i(1)), [&](auto const &sep) { return std::format(S("a{1}{0}b{1}"), dtl::fmt_join(b_, S(';')), dtl::fmt_join(a, sep)); }));
        }
        if (op == "via") return show(with_sep("literal", int(c.i(2)), [&](auto const &sep) -> Str {
            auto const &w = c.s(1);
            if (w == "format_to") { // into a buffer of exactly the formatted size
                size_t n = std::formatted_size(S("{}"), dtl::fmt_join(a, sep));
                auto buf = std::make_unique<CH[]>(n);
                CH *e = std::format_to(buf.get(), S("{}"), dtl::fmt_join(a, sep));
                return e == buf.get() + n ? Str(buf.get(), n) : S("another size");
            }
            if (w == "backins") { std::list<CH> l; std::format_to(std::back_inserter(l), S("{}"), dtl::fmt_join(a, sep)); return Str(l.begin(), l.end()); }
            if (w == "vformat") return fmt({}, dtl::fmt_join(a, sep));
            auto j = dtl::fmt_join(a, sep);
            if (w == "stored") return std::format(S("{}"), j);
            if (w == "copied") { auto k = j; return std::format(S("{}"), std::move(k)); }
            if (w == "const") return std::format(S("{}"), std::as_const(j));
            Str x = std::format(S("{}"), j);
            return x + std::format(S("{0}"), j);
        }));
        throw mbt::HarnessError{"op " + op};
    };
    return mbt::run(argc, argv, h);
}
