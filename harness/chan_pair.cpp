// Replays histories of specs/ChannelPair.tla on two channels / exchange_channels in one thread.
#include "mbt.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/exchange_channel.hpp>
namespace dtl = dice::template_library;
using mbt::Cmd; using mbt::cat;
#if MOVEONLY
struct El {
    std::unique_ptr<std::string> t;
    explicit El(std::string s) : t{std::make_unique<std::string>(std::move(s))} {}
    std::string id() const { return t ? *t : "moved"; }
};
#else
struct El {
    std::string t;
    explicit El(std::string s) : t{std::move(s)} {}
    std::string id() const { return t; }
};
#endif
#if EXCHANGE
using Chan = dtl::exchange_channel<El>;
static Chan *make() { return new Chan(); }
#else
using Chan = dtl::channel<El>;
static Chan *make() { return new Chan(8); }
#endif
using It = Chan::iterator;
static std::unique_ptr<Chan> ch[3];
static std::unique_ptr<It> it[3];
static int num[3];
static std::string show(int i) {
    if (!it[i]) return "-";
    if (*it[i] == ch[1]->end()) return "end";
    return (*it[i])->id();
}
static void exec1(Cmd const &c) {
    auto const &op = c.op();
    int i = int(c.i(1)), j = 3 - i;
    if (op == "push") { if (!ch[i]->emplace(cat(i, ".", num[i]))) throw std::runtime_error("an open channel rejects"); num[i] = 1 - num[i]; return; }
    if (op == "close") return ch[i]->close();
    if (op == "begin") { it[i] = std::make_unique<It>(ch[c.i(2)]->begin()); return; }
    if (op == "inc") { ++*it[i]; return; }
    if (op == "drop") { it[i].reset(); return; }
#if !MOVEONLY
    if (op == "copy") { it[i] = std::make_unique<It>(*it[j]); return; }
    if (op == "assign") { *it[i] = std::as_const(*it[j]); return; }
#endif
    if (op == "move") { it[i] = std::make_unique<It>(std::move(*it[j])); it[j].reset(); return; }
    if (op == "massign") { *it[i] = std::move(*it[j]); it[j].reset(); return; }
    if (op == "swap") { std::ranges::swap(*it[i], *it[j]); return; }
    throw mbt::HarnessError{op};
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { for (int i = 1; i <= 2; ++i) { it[i].reset(); ch[i].reset(make()); num[i] = 0; } };
    h.finish = [] { for (int i = 1; i <= 2; ++i) { it[i].reset(); ch[i].reset(); } return std::string{}; };
    h.exec = [](Cmd const &c) { exec1(c); return show(1) + " " + show(2); };
    return mbt::run(argc, argv, h);
}
