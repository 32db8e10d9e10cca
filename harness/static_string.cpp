#include <dice/template-library/static_string.hpp>
#include "mbt.hpp"
#include <algorithm>
#include <compare>
#include <iomanip>
#include <optional>
#include <sstream>
namespace dtl = dice::template_library;
#ifndef SCALE
#define SCALE 1 // characters per symbol of the specification
#endif

template<class C> struct CiTraits : std::char_traits<C> {
    static C lo(C c) { return c == C('A') ? C('a') : c; }
    static bool eq(C a, C b) { return lo(a) == lo(b); }
    static bool lt(C a, C b) { return std::char_traits<C>::lt(lo(a), lo(b)); }
    static int compare(C const *a, C const *b, size_t n) { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
    static C const *find(C const *p, size_t n, C const &c) { for (; n--; ++p) if (eq(*p, c)) return p; return nullptr; }
};
#ifdef CI
using C = CHAR;
using Tr = CiTraits<C>;
#else
using C = CHAR;
using Tr = std::char_traits<C>;
#endif
using Str = dtl::basic_static_string<C, Tr>;
using View = std::basic_string_view<C, Tr>;

static C sym(int k) {
    if (k == 0) return C(0);
    if (k == 1) return C('a');
#ifdef CI
    return C('A');
#else
    if constexpr (sizeof(C) == 1) return C(0xE9);
    else if constexpr (sizeof(C) == 2) return C(0xFEFD);
    else return C(0x1F601F);
#endif
}
static std::string enc(C const *p, size_t n) {
    if (n == 0) return "-";
    std::string r;
    for (size_t i = 0; i < n;) {
        size_t j = i;
        while (j < n && p[j] == p[i]) ++j;
        int k = p[i] == sym(0) ? 0 : p[i] == sym(1) ? 1 : p[i] == sym(2) ? 2 : 9;
        if (!r.empty()) r += ".";
        r += (j - i) % SCALE ? mbt::cat(k, "*", j - i, "/", SCALE) : mbt::cat(k, "*", (j - i) / SCALE);
        i = j;
    }
    return r;
}
static std::basic_string<C, Tr> dec(std::string const &e) {
    std::basic_string<C, Tr> r;
    if (e == "-") return r;
    size_t p = 0;
    while (p < e.size()) {
        size_t d = e.find('.', p);
        if (d == std::string::npos) d = e.size();
        auto part = e.substr(p, d - p);
        r.append(size_t(std::stol(part.substr(2))) * SCALE, sym(part[0] - '0'));
        p = d + 1;
    }
    return r;
}

int main(int argc, char **argv) {
    std::optional<Str> s[3];
    auto plain = [&](Str const &x) { View v = x; return v.size() != x.size() ? std::string("bad-size") : enc(v.data(), v.size()); };
    auto all = [&](Str &x) -> std::string {
        Str const &c = x;
        std::basic_string<C, Tr> ref{View(c)};
        size_t n = ref.size();
        if (c.size() != n || c.empty() != (n == 0)) return "size/empty";
        for (size_t i = 0; i < n; ++i) if (c[i] != ref[i] || &x[i] != &x[0] + i || std::to_address(c.data())[i] != ref[i]) return "[]/data";
        if (n && (c.front() != ref[0] || c.back() != ref[n - 1] || &x.front() != &x[0] || &x.back() != &x[n - 1])) return "front/back";
        auto seq = [&](auto b, auto e) { return std::basic_string<C, Tr>(b, e) == ref && size_t(std::distance(b, e)) == n; };
        auto rev = [&](auto b, auto e) { std::basic_string<C, Tr> r(b, e); std::reverse(r.begin(), r.end()); return r.size() == n && std::equal(r.begin(), r.end(), ref.begin()); };
        if (!seq(c.begin(), c.end()) || !seq(x.begin(), x.end()) || !seq(c.cbegin(), c.cend())) return "begin/end";
        if (!rev(c.rbegin(), c.rend()) || !rev(x.rbegin(), x.rend()) || !rev(c.crbegin(), c.crend())) return "rbegin/rend";
        if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) {
            std::basic_ostringstream<C, Tr> os;
            os << C('<') << c << C('>');
            std::basic_string<C, Tr> want = std::basic_string<C, Tr>(1, C('<')) + ref + C('>');
            if (os.str().size() != want.size() || !std::equal(want.begin(), want.end(), os.str().begin())) return "stream output";
            std::basic_ostringstream<C, Tr> o2, o3;
            o2 << std::setw(int(n) + 3) << std::setfill(C('#')) << std::left << c << C('!');
            o3 << std::setw(int(n) + 3) << std::setfill(C('#')) << std::left << View(ref) << C('!');
            if (o2.str().size() != n + 4 || o2.str() != o3.str()) return "padded stream output";
        }
        return enc(ref.data(), n);
    };
    mbt::Harness H;
    H.reset = [&] { s[1].emplace(); s[2].emplace(); };
    H.finish = [&] { s[1].reset(); s[2].reset(); return std::string(); };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "cmp") {
            Str const &a = *s[1], &b = *s[2];
            View va = a, vb = b;
            std::basic_string<C, Tr> ca(va), cb(vb); // independent copies
            View wa = ca, wb = cb;
            auto code = [](auto o) { return o == 0 ? 0 : o < 0 ? 1 : 2; };
            int r = code(a <=> b);
            if (code(a <=> wb) != r || code(wa <=> b) != r) return "string/view <=> disagrees";
            if ((a == b) != (r == 0) || (a != b) != (r != 0) || (a < b) != (r == 1) || (a <= b) != (r != 2) || (a > b) != (r == 2) || (a >= b) != (r != 1)) return "operators disagree with <=>";
            if ((a == wb) != (r == 0) || (wa == b) != (r == 0) || (a < wb) != (r == 1) || (wa < b) != (r == 1) || (a > wb) != (r == 2) || (wa >= b) != (r != 1)) return "view operators disagree";
            return std::to_string(r);
        }
        if (op == "swap") swap(*s[1], *s[2]);
        else {
            int k = int(c.i(1));
            if (op == "make") { auto t = dec(c.s(2)); s[k].emplace(View(t)); std::fill(t.begin(), t.end(), sym(2)); }
            else if (op == "def") s[k].emplace();
            else if (op == "copy") s[k].emplace(std::as_const(*s[c.i(2)]));
            else if (op == "asg") { Str &r = (*s[k] = std::as_const(*s[c.i(2)])); if (&r != &*s[k]) return "= returns another object"; }
            else if (op == "move" || op == "masg") {
                auto &o = s[c.i(2)];
                if (op == "move") s[k].emplace(std::move(*o));
                else { Str &r = (*s[k] = std::move(*o)); if (&r != &*s[k]) return "= returns another object"; }
                (void) plain(*o);
                *o = Str{};
            } else if (op == "write") {
                size_t const p0 = size_t(c.i(3)) * SCALE, p = c.s(2) == "back" ? p0 + SCALE - 1 : p0;
                C ch = sym(int(c.i(4)));
                auto &f = c.s(2);
                Str &x = *s[k];
                if (f == "ix") x[p] = ch;
                else if (f == "it") *(x.begin() + std::ptrdiff_t(p)) = ch;
                else if (f == "rit") *(x.rbegin() + std::ptrdiff_t(x.size() - 1 - p)) = ch;
                else if (f == "data") std::to_address(x.data())[p] = ch;
                else if (f == "front") x.front() = ch;
                else x.back() = ch;
                for (size_t i = 0; i < SCALE; ++i) if (p0 + i != p) x[p0 + i] = ch; // the rest of the symbol
            } else if (op == "all") { std::string a = all(*s[k]), o = plain(*s[3 - k]); return k == 1 ? a + "|" + o : o + "|" + a; }
            else throw mbt::HarnessError("op " + op);
        }
        return plain(*s[1]) + "|" + plain(*s[2]);
    };
    return mbt::run(argc, argv, H);
}
