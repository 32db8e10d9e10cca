// limit_allocator (synchronized) under the deterministic scheduler
#include "explore.hpp"
#define std vstd
#include <dice/template-library/limit_allocator.hpp>
#undef std
namespace dtl = dice::template_library;
using vs::S;

static size_t up_live = 0, limit = 0;
static bool fail_next[vs::MAXT];
static std::map<void *, size_t> blocks;
struct Boom : std::bad_alloc {};
template<class T> struct Up {
    using value_type = T;
    Up() = default;
    template<class U> Up(Up<U> const &) noexcept {}
    T *allocate(size_t n) {
        S.point();
        if (fail_next[ex::tid()]) { fail_next[ex::tid()] = false; throw Boom{}; }
        up_live += n * sizeof(T);
        if (up_live > limit) ex::bad("more bytes live than the limit");
        void *p = std::malloc(n * sizeof(T) + 1);
        blocks[p] = n * sizeof(T);
        S.point();
        return static_cast<T *>(p);
    }
    void deallocate(T *p, size_t n) {
        S.point();
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != n * sizeof(T)) ex::bad("block returned with another size");
        else blocks.erase(it);
        up_live -= n * sizeof(T);
        std::free(p);
        S.point();
    }
    bool operator==(Up const &) const = default;
};
using A1 = dtl::limit_allocator<char, Up>;
using A4 = dtl::limit_allocator<std::array<char, 4>, Up>;

int main(int argc, char **argv) {
    struct B { char *p1 = nullptr; std::array<char, 4> *p4 = nullptr; size_t n = 0; };
    static B slots[vs::MAXT][4];
    return ex::main_loop(argc, argv, [&](ex::Scenario const &sc) {
        limit = std::stoul(sc.head);
        up_live = 0;
        for (auto &[p, n] : blocks) std::free(p);
        blocks.clear();
        for (auto &b : fail_next) b = false;
        for (auto &t : slots) for (auto &b : t) b = B{};
        A1 root{limit};
        auto exec = [&](std::string const &op, A1 &a1, A4 &a4) {
            int t = ex::tid();
            auto a = ex::split(op, ',');
            int g = std::stoi(a[1]);
            B &b = slots[t][g];
            if (a[0] == "d") {
                if (!b.p1 && !b.p4) return; // that allocation failed
                ex::inv("dealloc", std::to_string(b.n));
                if (b.p1) a1.deallocate(b.p1, b.n); else a4.deallocate(b.p4, b.n / 4);
                b = B{};
                ex::ret("ok");
                return;
            }
            size_t n = std::stoul(a[2]);
            bool fail = a[0][0] == 'f';
            ex::inv(fail ? "allocf" : "alloc", std::to_string(n));
            fail_next[t] = fail;
            std::string r = "ok";
            try {
                if (a[0][1] == '4') { b.p4 = a4.allocate(n / 4); b.n = n; } else { b.p1 = a1.allocate(n); b.n = n; }
            } catch (Boom const &) { r = "upstream"; b = B{}; }
            catch (std::bad_alloc const &) { r = "limit"; b = B{}; }
            fail_next[t] = false;
            ex::ret(r);
        };
        S.nthreads = int(sc.threads.size());
        for (int t = 0; t < S.nthreads; ++t)
            S.spawn(t, [&, t] { A1 a1 = root; A4 a4{root}; for (auto const &o : sc.threads[size_t(t)]) if (!o.empty()) exec(o, a1, a4); });
        S.run();
        if (S.overrun) return;
        ex::quiesce();
        // what is left can be allocated, no more
        size_t left = limit - std::min(limit, up_live);
        A4 r4{root};
        exec("a1,0," + std::to_string(left + 1), root, r4);
        exec("a1,1," + std::to_string(left), root, r4);
        exec("d,1", root, r4);
        exec("d,0", root, r4);
    });
}
