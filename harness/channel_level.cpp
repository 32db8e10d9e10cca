// Replays histories of specs/ChannelLevel.tla: large capacities and many elements, one thread.
#include "mbt.hpp"
#include <dice/template-library/channel.hpp>
namespace dtl = dice::template_library;
using Chan = dtl::channel<uint64_t>;
static std::unique_ptr<Chan> ch;
static uint64_t in = 0, out = 0; // numbers of the next elements
static bool put(std::string const &w) {
    uint64_t v = in;
    bool ok = w == "push" ? ch->push(v) : w == "try" ? ch->try_push(v) : w == "emplace" ? ch->emplace(in) : ch->try_emplace(in);
    if (ok) ++in;
    return ok;
}
// the number of the element taken, or nothing
static std::optional<uint64_t> take(std::string const &w) {
    if (w == "pop") return ch->pop();
    if (w == "try_pop") return ch->try_pop();
    auto it = ch->begin();
    if (it == ch->end()) return std::nullopt;
    return *it;
}
static std::string exec(mbt::Cmd const &c) {
    auto const &op = c.op();
    ::alarm(100); // an operation that waits although it should not
    if (op == "new") { in = out = 0; ch.reset(); ch = std::make_unique<Chan>(std::stoull(c.s(1))); return "ok"; }
    if (op == "fill") {
        for (long long k = 0, n = c.i(2); k < n; ++k) if (!put(c.s(1))) return mbt::cat("rejected after ", k);
        return "all in";
    }
    if (op == "over") return put(c.s(1)) ? "T" : "F";
    if (op == "drain") {
        long long n = c.i(2), k = 0;
        if (c.s(1) == "iterator") { // one iterator all the way
            for (auto it = ch->begin(); ; ++it) {
                if (it == ch->end()) return mbt::cat("end after ", k);
                if (*it != out++) return mbt::cat("element ", k, " is ", *it);
                if (++k == n) break;
            }
            return "in order";
        }
        for (; k < n; ++k) {
            auto v = take(c.s(1));
            if (!v) return mbt::cat("nothing after ", k);
            if (*v != out++) return mbt::cat("element ", k, " is ", *v);
        }
        return "in order";
    }
    if (op == "cycle") {
        for (long long k = 0; k < c.i(1); ++k) {
            if (!put(k % 2 ? "try" : "push")) return mbt::cat("rejected after ", k);
            auto v = take(k % 3 ? "pop" : "try_pop");
            if (!v || *v != out++) return mbt::cat("wrong element after ", k);
        }
        return "in order";
    }
    if (op == "empty") return take(c.s(1)) ? "something" : "nothing";
    if (op == "close") { ch->close(); return "ok"; }
    throw mbt::HarnessError("op " + op);
}
int main(int argc, char **argv) {
    mbt::Harness H;
    H.reset = [] { in = out = 0; ch.reset(); ch = std::make_unique<Chan>(1); };
    H.exec = exec;
    H.finish = [] { ::alarm(0); ch.reset(); return std::string(); };
    return mbt::run(argc, argv, H);
}
