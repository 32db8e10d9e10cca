// Replays histories of specs/ChannelSeq.tla on channel / exchange_channel in one thread.
#include "mbt.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
#ifndef EXCHANGE
#define EXCHANGE 0
#endif
#ifndef MOVEONLY
#define MOVEONLY 0
#endif
#define NIT 2
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;

static int live = 0, copies = 0;
struct El {
    std::string text;
    explicit El(int v) : text(std::string(30, 'e') + std::to_string(v)) { ++live; }
    El(El &&o) noexcept : text(std::exchange(o.text, "moved")) { ++live; }
    El &operator=(El &&o) noexcept { if (this != &o) text = std::exchange(o.text, "moved"); return *this; }
#if !MOVEONLY
    El(El const &o) : text(o.text) { ++live; ++copies; }
    El &operator=(El const &o) { text = o.text; ++copies; return *this; }
#endif
    ~El() { text = "dead"; --live; }
    std::string id() const { return text.size() == 31 ? text.substr(30) : "?" + text; }
};
#if EXCHANGE
using Chan = dtl::exchange_channel<El>;
static Chan *make() { return new Chan(); }
#else
using Chan = dtl::channel<El>;
static Chan *make() { return new Chan(64); }
#endif
using It = Chan::iterator;
static_assert(std::input_iterator<It> && std::sentinel_for<Chan::sentinel, It>);
static_assert(!std::is_copy_constructible_v<Chan> && !std::is_move_constructible_v<Chan> && !std::is_copy_assignable_v<Chan> && !std::is_move_assignable_v<Chan>);
static_assert(std::is_same_v<Chan::value_type, El> && std::is_same_v<std::iter_value_t<It>, El> && std::is_same_v<std::iter_reference_t<It>, El &>);
static std::unique_ptr<Chan> ch;
static std::unique_ptr<It> it[NIT + 1];

static std::string show() {
    std::string r;
    for (int i = 1; i <= NIT; ++i) {
        r += " ";
        if (!it[i]) { r += "-"; continue; }
        bool e1 = *it[i] == ch->end(), e2 = ch->end() == std::as_const(*it[i]), e3 = *it[i] != std::default_sentinel;
        if (e1 != e2 || e1 == e3) { r += "inconsistent"; continue; }
        if (e1) { r += "end"; continue; }
        It const &c = *it[i];
        if (&**it[i] != &*c || c.operator->() != &*c || it[i]->operator->() != &*c) r += "another reference";
        else r += c->id();
    }
    return r;
}
static std::string got(std::optional<El> const &o) { return o ? o->id() : "end"; }
static std::string exec1(Cmd const &c) {
    auto const &op = c.op();
    if (op == "push") {
        auto w = c.s(1);
        int v = int(c.i(2));
        copies = 0;
        bool ok = false;
        bool tr = w.starts_with("try");
        if (tr) w = w.substr(3);
        if (w == "emplace") {
#if !EXCHANGE
            if (tr) ok = ch->try_emplace(v); else
#endif
                ok = ch->emplace(v);
        } else {
            El e{v};
            if (w == "rvalue") {
#if !EXCHANGE
                if (tr) ok = ch->try_push(std::move(e)); else
#endif
                    ok = ch->push(std::move(e));
                if (!ok && e.id() != std::to_string(v)) return "a rejected element was moved from";
            } else {
#if !MOVEONLY
                El const &k = e;
#if !EXCHANGE
                if (tr) { if (w == "lvalue") ok = ch->try_push(e); else ok = ch->try_push(k); } else
#endif
                { if (w == "lvalue") ok = ch->push(e); else ok = ch->push(k); }
                (void) k;
                if (e.id() != std::to_string(v)) return "an lvalue was changed";
#endif
            }
        }
        return cat(ok, " copies=", copies);
    }
    if (op == "pop" || op == "try_pop") {
        copies = 0;
        std::string r;
        if (op == "pop") { auto o = ch->pop(); static_assert(std::is_same_v<decltype(o), std::optional<El>>); r = got(o); }
        else { auto o = ch->try_pop(); r = got(o); }
        return r + (copies ? " copied" : "");
    }
    if (op == "close") { ch->close(); return "ok"; }
    if (op == "closed") return cat(std::as_const(*ch).closed());
    if (op == "new") { for (auto &x : it) x.reset(); ch.reset(make()); return "ok"; }
    if (op == "loop") {
        std::string r;
        auto put = [&](El const &e) { r += e.id() + ","; };
        if (c.s(1) == "for") { for (El &e : *ch) put(e); }
        else if (c.s(1) == "transform") { for (auto const &x : std::ranges::subrange(ch->begin(), ch->end()) | std::views::transform([](El &e) { return e.id(); })) r += x + ","; }
        else {
#if !MOVEONLY
            std::vector<El> v;
            std::ranges::copy(ch->begin(), ch->end(), std::back_inserter(v));
            for (auto &e : v) put(e);
#endif
        }
        return r;
    }
    int i = int(c.i(1));
    if (op == "begin") { if (it[i]) it[i].reset(); it[i] = std::make_unique<It>(ch->begin()); return "ok"; }
    if (op == "inc") {
        if (c.s(2) == "post") { (*it[i])++; return "ok"; }
        It &r = ++*it[i];
        return &r == it[i].get() ? "ok" : "++ returned something else";
    }
    if (op == "take") { El e = std::move(**it[i]); it[i].reset(); return e.id(); }
    if (op == "write") { **it[i] = El{int(c.i(2))}; return "ok"; }
    int j = int(c.i(2));
#if !MOVEONLY
    if (op == "copy") { it[i] = std::make_unique<It>(std::as_const(*it[j])); return "ok"; }
    if (op == "assign") { *it[i] = std::as_const(*it[j]); return "ok"; }
#endif
    if (op == "move") { it[i] = std::make_unique<It>(std::move(*it[j])); it[j].reset(); return "ok"; }
    if (op == "massign") { *it[i] = std::move(*it[j]); it[j].reset(); return "ok"; }
    if (op == "swap") { std::swap(*it[i], *it[j]); return "ok"; }
    throw mbt::HarnessError{op};
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { for (auto &x : it) x.reset(); ch.reset(make()); };
    h.finish = [] { for (auto &x : it) x.reset(); ch.reset(); return live == 0 ? std::string{} : cat(live, " elements too many"); };
    h.exec = [](Cmd const &c) { auto r = exec1(c); return r + show(); };
    return mbt::run(argc, argv, h);
}
