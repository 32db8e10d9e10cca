// Explores schedules of scenarios and writes the distinct histories (invocations, returns, quiescence) as JSON lines.
#ifndef VERIF_EXPLORE_HPP
#define VERIF_EXPLORE_HPP
#include "vsched.hpp"

namespace ex {
struct Ev { char k; int t; std::string a, b; }; // i: invoke, r: return, q: quiescent, x: forbidden event
inline std::vector<Ev> H;
inline int tid() { return vs::S.cur < 0 ? vs::MAXT - 1 : vs::S.cur; }
inline void inv(std::string op, std::string arg = "0") { if (vs::S.cur >= 0) vs::S.point(); H.push_back({'i', tid(), std::move(op), std::move(arg)}); }
inline void ret(std::string r, std::string v = "0") { H.push_back({'r', tid(), std::move(r), std::move(v)}); }
inline void bad(std::string const &what) { for (auto &e : H) if (e.k == 'x' && e.a == what) return; H.push_back({'x', tid(), what, "0"}); }
inline void quiesce() {
    H.push_back({'q', 0, "", "0"}); // blocked threads are those with a pending invocation
}

struct Scenario {
    std::string id, head;
    std::vector<std::vector<std::string>> threads;
};
inline std::vector<std::string> split(std::string const &s, char c) {
    std::vector<std::string> r; std::string w;
    for (char x : s) { if (x == c) { r.push_back(w); w.clear(); } else w += x; }
    r.push_back(w);
    return r;
}
inline void canon_sort() { // invocations next to each other commute, as do returns
    auto &h = H;
    for (size_t i = 0; i < h.size();) {
        size_t j = i;
        while (j < h.size() && h[j].k == h[i].k) ++j;
        if (h[i].k == 'i' || h[i].k == 'r') std::sort(h.begin() + i, h.begin() + j, [](Ev const &a, Ev const &b) { return a.t < b.t; });
        i = j;
    }
}
inline std::string text() {
    std::string s = "[";
    for (size_t i = 0; i < H.size(); ++i) {
        auto &e = H[i];
        if (i) s += ",";
        s += std::string("[\"") + e.k + "\"," + std::to_string(e.t) + ",\"" + e.a + "\"," + e.b + "]";
    }
    return s + "]";
}
// Two histories with the same operations and results: the one with more precedence constraints
// (returned before invoked) is the stronger test; the other one need not be looked at.
using Mask = std::bitset<1024>;
struct Hist { Mask m; std::vector<Ev> h; std::string path; };
inline bool covers(Mask const &a, Mask const &b) { return (b & ~a).none(); }
inline void signature(std::string &sig, Mask &m) {
    std::vector<std::string> per(vs::MAXT + 1);
    std::vector<std::pair<int, int>> returned; // (thread, how many operations returned)
    int nret[vs::MAXT] = {}, ninv[vs::MAXT] = {};
    for (auto &e : H) {
        if (e.k == 'i') {
            per[size_t(e.t)] += e.a + e.b + "(";
            int k = ninv[e.t]++;
            // precedence: how many operations of every other thread had returned (unary coding, 8 threads * 8 ops * ...)
            if (e.t != vs::MAXT - 1 && k < 4)
                for (int u = 0; u < 4; ++u) for (int c = 0; c < std::min(nret[u], 8); ++c) m.set(size_t(((e.t * 4 + k) * 4 + u) * 8 + c) % 1024);
            if (e.t != vs::MAXT - 1 && (k >= 4 || e.t >= 4 )) { for (int u = 0; u < vs::MAXT; ++u) per[size_t(e.t)] += "<" + std::to_string(nret[u]); }
        } else if (e.k == 'r') { per[size_t(e.t)] += e.a + e.b + ")"; ++nret[e.t]; }
        else if (e.k == 'q') { for (int u = 0; u < vs::MAXT; ++u) per[vs::MAXT] += "q" + std::to_string(nret[u]) + "/" + std::to_string(ninv[u]); }
        else per[vs::MAXT] += "x" + e.a;
    }
    for (auto &p : per) sig += p + ";";
}
inline uint64_t *prog = nullptr;

// body(scenario): sets up the object, spawns fibers (S.spawn), runs, tears down; called once per schedule
inline int main_loop(int argc, char **argv, std::function<void(Scenario const &)> body) {
    if (argc < 7) { std::fprintf(stderr, "usage: SCENARIOS PROGRESS OUT max_runs random_runs seed [preempt_bound]\n"); return 4; }
    std::ifstream in(argv[1]);
    int fd = ::open(argv[2], 2);
    prog = static_cast<uint64_t *>(::mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (prog == MAP_FAILED) return 4;
    std::ofstream out(argv[3]);
    uint64_t max_runs = std::stoull(argv[4]), rand_runs = std::stoull(argv[5]), seed = std::stoull(argv[6]);
    int pb = argc > 7 ? std::stoi(argv[7]) : 2;
    vs::S.on_event = [](std::string const &e) { bad(e); };
    std::string line;
    uint64_t nsc = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        auto p = split(line, ';');
        Scenario sc;
        sc.id = p[0]; sc.head = p[1];
        for (size_t i = 2; i < p.size(); ++i) sc.threads.push_back(split(p[i], ' '));
        prog[0] = nsc++;
        std::unordered_map<std::string, std::vector<Hist>> seen;
        uint64_t runs = 0, overruns = 0;
        bool complete = true;
        int reached = -1;
        auto one = [&] {
            H.clear();
            vs::S.begin_run();
            prog[1] = runs++;
            body(sc);
            if (vs::S.overrun) {
                ++overruns;
                if (!vs::S.random) return;  // an unfair schedule can spin, a random one cannot
                bad("livelock");
            }
            canon_sort();
            std::string sig;
            Mask m;
            signature(sig, m);
            auto &v = seen[sig];
            for (auto &x : v) if (covers(x.m, m)) return;
            std::string path;
            if (vs::S.random) path = "random"; else for (auto &c : vs::S.path) path += std::to_string(c.pick) + ",";
            std::erase_if(v, [&](Hist const &x) { return covers(m, x.m); });
            v.push_back({m, H, path});
        };
        vs::S.random = false;
        for (int bound = 0; bound <= pb && complete; ++bound) {
            vs::S.preempt_bound = bound;
            vs::S.path.clear();
            uint64_t stop = runs + max_runs;
            do {
                one();
                if (runs >= stop) { complete = false; break; }
            } while (vs::S.advance());
            if (complete) reached = bound;
        }
        vs::S.random = true;
        uint64_t dfs = runs;
        for (uint64_t k = 0; k < rand_runs; ++k) {
            vs::S.rng.seed(seed * 1000003 + k * 7919 + nsc);
            vs::S.path.clear();
            one();
        }
        size_t nh = 0;
        for (auto &[sig, v] : seen) for (auto &x : v) {
            ++nh;
            H = x.h;
            out << "{\"sc\":\"" << sc.id << "\",\"head\":\"" << sc.head << "\",\"h\":" << text() << ",\"path\":\"" << x.path << "\"}\n";
        }
        out << "{\"stat\":\"" << sc.id << "\",\"dfs\":" << dfs << ",\"random\":" << rand_runs << ",\"histories\":" << nh
            << ",\"overruns\":" << overruns << ",\"bound\":" << reached << "}\n";
    }
    out.flush();
    return 0;
}
} // namespace ex
#endif
