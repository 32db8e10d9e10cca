// Replays histories of specs/OStream.tla on operator<< for formattable types, for characters of type CH.
#include "mbt.hpp"
#include <dice/template-library/format_to_ostream.hpp>
#include <dice/template-library/fmt_join.hpp>
using mbt::Cmd;
using mbt::cat;
namespace dtl = dice::template_library;
#ifndef SEEK
#define SEEK 0
#endif
#ifndef WIDE
#define WIDE 0
#endif
#if WIDE
using CH = wchar_t;
using Other = char;
#define S(x) L##x
#else
using CH = char;
using Other = wchar_t;
#define S(x) x
#endif
using Str = std::basic_string<CH>;
using Os = std::basic_ostream<CH>;
static Str widen(std::string const &s) { return Str(s.begin(), s.end()); }

// a buffer that takes a limited number of characters
struct Buf : std::basic_streambuf<CH> {
    std::string text;
    size_t cap = 0;
    int syncs = 0;
    int_type overflow(int_type c) override {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (cap == 0) return traits_type::eof();
        --cap;
        text += char(c);
        return c;
    }
    int sync() override { ++syncs; return 0; }
#if SEEK // like a file
    pos_type seekoff(off_type, std::ios::seekdir, std::ios::openmode) override { return pos_type(off_type(text.size())); }
    pos_type seekpos(pos_type, std::ios::openmode) override { return pos_type(off_type(text.size())); }
#endif
};

struct Global { Str t; };
namespace user { struct Type { Str t; }; }
enum class Enum { x = 1, ab = 2 };
struct Derived : Global {};
struct Conv { Str t; };
struct Arg { Str t; };
struct Plain {};                    // no formatter
struct Elsewhere {};                // a formatter for the other character type only
struct Friend { friend Os &operator<<(Os &os, Friend const &) { return os.put(CH('o')); } };
namespace user { struct Adl {}; inline Os &operator<<(Os &os, Adl const &) { return os.put(CH('o')); } struct Both : Adl { }; }
struct Member { operator CH() const { return CH('o'); } };
struct Base : Friend {};
template<class T> struct text_formatter { // writes the text character by character
    constexpr auto parse(auto &ctx) { return ctx.begin(); }
    auto format(T const &v, auto &ctx) const { auto o = ctx.out(); for (CH c : v.t) *o++ = c; return o; }
};
struct wrong_formatter { constexpr auto parse(auto &ctx) { return ctx.begin(); } auto format(auto const &, auto &ctx) const { auto o = ctx.out(); *o++ = CH('w'); return o; } };
template<> struct std::formatter<Global, CH> : text_formatter<Global> {};
template<> struct std::formatter<user::Type, CH> : text_formatter<user::Type> {};
template<> struct std::formatter<Arg, CH> : std::formatter<Str, CH> { auto format(Arg const &v, auto &ctx) const { return std::formatter<Str, CH>::format(v.t, ctx); } };
template<> struct std::formatter<Derived, CH> : text_formatter<Global> {};
template<> struct std::formatter<Conv, CH> { // formats its parts
    constexpr auto parse(auto &ctx) { return ctx.begin(); }
    auto format(Conv const &v, auto &ctx) const { return std::format_to(ctx.out(), S("{}{}"), v.t.substr(0, 1), v.t.substr(1)); }
};
template<> struct std::formatter<Enum, CH> : std::formatter<Str, CH> { auto format(Enum e, auto &ctx) const { return std::formatter<Str, CH>::format(e == Enum::x ? S("x") : S("ab"), ctx); } };
template<> struct std::formatter<Elsewhere, Other> : wrong_formatter {};
template<> struct std::formatter<Friend, CH> : wrong_formatter {};
template<> struct std::formatter<user::Adl, CH> : wrong_formatter {};
template<> struct std::formatter<user::Both, CH> : wrong_formatter {};
template<> struct std::formatter<Member, CH> : wrong_formatter {};
template<> struct std::formatter<Base, CH> : wrong_formatter {};

template<class T> concept writable = requires(Os &os, T const &t) { os << t; };
namespace { // which types had << before
template<class T> std::string trait() { return cat(writable<T>, dtl::is_ostreamable_v<T, CH, std::char_traits<CH>>); }
}
static std::unique_ptr<Buf> buf;
static std::unique_ptr<Os> os;
static std::unique_ptr<Buf> tbuf;
static std::unique_ptr<Os> tied;

static std::string report(Str const &v, std::string const &how, auto f) {
    (void) v; (void) how;
    int const tsync = tbuf->syncs, sync = buf->syncs;
    auto const before = os->rdstate();
    std::string r;
    try { Os &o = f(*os); if (&o != os.get()) return "another stream"; }
    catch (std::ios_base::failure const &) { r = "failure "; }
    r += "[" + buf->text + "]";
    auto st = os->rdstate();
    if (st & std::ios::badbit) st &= ~std::ios::failbit; // allowed to be set when writing to a stream that is not good
    else if (before != std::ios::goodbit && st == (before | std::ios::failbit)) st = before;
    if (st != os->rdstate()) os->clear(st);
    if (st & std::ios::eofbit) r += "e";
    if (st & std::ios::failbit) r += "f";
    if (st & std::ios::badbit) r += "b";
    if (tbuf->syncs > tsync) r += " tied flushed";
    if (buf->syncs > sync && os->good()) r += " flushed";
    return r;
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.leak_check = false;
    size_t const max_cap = 4;
    h.reset = [] {
        buf = std::make_unique<Buf>(); tbuf = std::make_unique<Buf>();
        buf->cap = max_cap; tbuf->cap = 100;
        os = std::make_unique<Os>(buf.get()); tied = std::make_unique<Os>(tbuf.get());
    };
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        using I = std::ios;
        if (op == "clear") { os->clear(); return ""; }
        if (op == "set") { os->setstate(c.s(1) == "e" ? I::eofbit : c.s(1) == "f" ? I::failbit : I::badbit); return ""; }
        if (op == "exceptions") { os->exceptions((c.s(1)[0] == 'f' ? I::failbit : I::goodbit) | (c.s(1)[1] == 'b' ? I::badbit : I::goodbit)); return ""; }
        if (op == "tie") { os->tie(tied.get()); return ""; }
        if (op == "untie") { os->tie(nullptr); return ""; }
        if (op == "unitbuf") { *os << std::unitbuf; return ""; }
        if (op == "nounitbuf") { *os << std::nounitbuf; return ""; }
        if (op == "reset") { buf->text.clear(); buf->cap = max_cap; return ""; }
        if (op == "shrink") { --buf->cap; return ""; }
        if (op == "trait") {
            auto const &t = c.s(1);
            if (t == "global") return trait<Global>();
            if (t == "namespace") return trait<user::Type>();
            if (t == "enum") return trait<Enum>();
            if (t == "join") return trait<decltype(dtl::fmt_join(std::declval<std::vector<int> &>(), S('x')))>();
            if (t == "friend") return trait<Friend>();
            if (t == "adl") return trait<user::Adl>();
            if (t == "both") return trait<user::Both>();
            if (t == "base") return trait<Base>();
            if (t == "int") return trait<int>();
            if (t == "pointer") return trait<void *>();
            if (t == "string") return trait<Str>();
            if (t == "plain") return trait<Plain>();
            if (t == "othercharacter") return trait<Elsewhere>();
        }
        if (op == "long") { // into a string stream
            Global g{Str(size_t(c.i(1)), CH('y'))};
            for (size_t k = 0; k < g.t.size(); k += 97) g.t[k] = k % 2 ? CH(0) : CH('\n');
            std::basic_ostringstream<CH> o;
            o << g;
            if (o.str() != g.t) return "another text";
            o << g;
            if (o.str() != g.t + g.t) return "another text";
            return cat(o.good() ? "good " : "not good ", g.t.size());
        }
        if (op == "chain") return report({}, {}, [&](Os &o) -> Os & { return o << Global{widen(c.s(1))} << user::Type{widen(c.s(2))}; });
        if (op == "manip") {
            Global const g{S("ab")};
            auto const &m = c.s(1);
            auto fill = os->fill();
            if (m == "width") os->width(7);
            if (m == "hex") *os << std::hex << std::showbase << std::uppercase << std::left;
            if (m == "boolalpha") *os << std::boolalpha << std::internal;
            if (m == "fill") { os->fill(CH('*')); os->width(5); }
            if (m == "precision") { os->precision(1); os->width(3); }
            if (m == "locale") os->imbue(std::locale::classic());
            auto r = report({}, {}, [&](Os &o) -> Os & { return o << g; });
            os->width(0); os->fill(fill);
            return r;
        }
        if (op == "own") return report({}, {}, [&](Os &o) -> Os & {
            auto const &t = c.s(1);
            if (t == "friend") return o << Friend{};
            if (t == "adl") return o << user::Adl{};
            if (t == "both") return o << user::Both{};
            if (t == "base") return o << Base{};
            if (t == "member" || t == "char") return o << CH('o');
            if (t == "literal") return o << S("o");
            if (t == "pointer") { CH const *p = S("o"); return o << p; }
            return o << (sizeof(int) == 4 ? S("o") : S("x"));
        });
        if (op != "put") throw mbt::HarnessError{"op " + op};
        auto v = c.s(2) == "-" ? Str{} : widen(c.s(2));
        return report({}, {}, [&](Os &o) -> Os & {
            auto const &t = c.s(1);
            if (t == "global") return o << Global{v};
            if (t == "namespace") return o << user::Type{v};
            if (t == "enum") return o << (v == S("x") ? Enum::x : Enum::ab);
            if (t == "derived") return o << Derived{{v}};
            if (t == "conv") return o << Conv{v};
            if (t == "arg") return o << Arg{v};
            if (t == "join") { std::vector<CH> q(v.begin(), v.end()); return o << dtl::fmt_join(q, Str{}); }
            if (t == "lvalue") { Global g{v}; return o << g; }
            Global g{v};
            return o << std::move(g);
        });
    };
    return mbt::run(argc, argv, h);
}
