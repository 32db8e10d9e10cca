// Generic driver: replays plans generated from the TLA+ specifications on the real code.
#ifndef VERIF_MBT_HPP
#define VERIF_MBT_HPP
#include <bits/stdc++.h> // the harnesses do not rely on what the library happens to include
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif

namespace mbt {
inline long live_blocks = 0; // malloc'ed blocks currently alive (only with ASan)

struct Cmd {
    std::vector<std::string> w;
    std::string const &op() const { return w.at(0); }
    std::string const &s(size_t k) const { return w.at(k); }
    long long i(size_t k) const { return std::stoll(w.at(k)); }
    size_t n() const { return w.size(); }
};

struct Step { Cmd cmd; std::string obs; };
using Trace = std::vector<Step>;

inline std::string cat() { return {}; }
template<class A, class... R> std::string cat(A const &a, R const &...r) {
    std::string s;
    if constexpr (std::is_same_v<A, bool>) s = a ? "T" : "F";
    else if constexpr (std::is_same_v<A, char>) s = std::string(1, a);
    else if constexpr (std::is_arithmetic_v<A>) s = std::to_string(a);
    else s = std::string(a);
    return s + cat(r...);
}

// the harness implements these
struct Harness {
    std::function<void()> reset;
    std::function<std::string(Cmd const &)> exec;
    std::function<std::string()> finish = [] { return std::string{}; }; // tears down, "" if balanced
    bool leak_check = true;
};

struct HarnessError : std::exception {
    std::string m;
    explicit HarnessError(std::string s) : m(std::move(s)) {}
    char const *what() const noexcept override { return m.c_str(); }
};

inline int run(int argc, char **argv, Harness const &h) {
    if (argc < 4) { std::fprintf(stderr, "usage: %s PLAN PROGRESS RESULT\n", argv[0]); return 4; }
    std::vector<Trace> traces;
    {
        std::ifstream in(argv[1]);
        std::string l;
        while (std::getline(in, l)) {
            if (l == "!") { traces.emplace_back(); continue; }
            auto t = l.find('\t');
            Step st;
            st.obs = l.substr(t + 1);
            std::string op = l.substr(0, t), w;
            for (char c : op) { if (c == ' ') { st.cmd.w.push_back(w); w.clear(); } else w += c; }
            st.cmd.w.push_back(w);
            traces.back().push_back(std::move(st));
        }
    }
    int fd = ::open(argv[2], O_RDWR);
    auto *prog = static_cast<uint64_t volatile *>(::mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (prog == MAP_FAILED) return 4;
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) { ++live_blocks; },
                                              [](const volatile void *p) { if (p) --live_blocks; });
#endif
    auto fail = [&](std::string const &got) {
        std::ofstream(argv[3]) << got;
        return 3;
    };
    auto run_one = [&](Trace const &tr, std::string &got) -> bool {
        prog[1] = 0;
        h.reset();
        size_t k = 0;
        for (auto const &st : tr) {
            prog[1] = k++;
            std::string g;
            try { g = h.exec(st.cmd); }
            catch (HarnessError const &) { throw; }
            catch (std::exception const &e) { g = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); }
            catch (...) { g = "unexpected exception"; }
            if (g != st.obs) { got = g; return false; }
        }
        prog[1] = k;
        auto f = h.finish();
        if (!f.empty()) { got = f; return false; }
        return true;
    };
    try {
        uint64_t n = 0;
        for (auto const &tr : traces) {
            prog[0] = n++;
            std::string got;
            long before = live_blocks;
            if (!run_one(tr, got)) return fail(got);
            if (h.leak_check && live_blocks > before) {
                int bad = 1;
                long delta = 0;
                for (int r = 0; r < 3; ++r) { // lazily created library state does not repeat
                    before = live_blocks;
                    if (!run_one(tr, got)) return fail(got);
                    delta = live_blocks - before;
                    if (delta > 0) ++bad;
                }
                if (bad == 4) return fail(cat(delta, " memory block(s) leaked"));
            }
        }
    } catch (HarnessError const &e) {
        std::fprintf(stderr, "harness error: %s\n", e.what());
        return 4;
    }
    return 0;
}
} // namespace mbt
#endif
