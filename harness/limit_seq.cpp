#include <dice/template-library/limit_allocator.hpp>
#include "mbt.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;

#ifndef UNIT
#define UNIT 1 // bytes per byte of the specification; with larger ones the upstream hands out tokens
#endif
static bool fail_next = false;
static std::map<void *, size_t> blocks;
static int errors = 0;
struct Boom : std::bad_alloc {};
template<class T> struct Up {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::true_type;
    using propagate_on_container_move_assignment = std::false_type;
    using propagate_on_container_swap = std::true_type;
    int id = 7;
    Up() = default;
    Up(int i) : id(i) {}
    Up(int a, int b) : id(a + b) {}
    template<class U> Up(Up<U> const &o) noexcept : id(o.id) {}
    T *allocate(size_t n) {
        if (fail_next) { fail_next = false; throw Boom{}; }
        if (UNIT == 1 && n > SIZE_MAX / 2 / sizeof(T)) throw std::bad_array_new_length{}; // the token upstream leaves the limit to its user
        void *p = std::malloc(UNIT == 1 ? n * sizeof(T) + 1 : 1);
        blocks[p] = n * sizeof(T);
        return static_cast<T *>(p);
    }
    void deallocate(T *p, size_t n) {
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != n * sizeof(T)) { ++errors; return; }
        blocks.erase(it);
        std::free(p);
    }
    bool operator==(Up const &) const = default;
};
#ifndef SYNC
#define SYNC sync
#endif
using A1 = dtl::limit_allocator<char, Up, dtl::limit_allocator_syncness::SYNC>;
using E4 = std::array<char, 4>;
using A4 = typename std::allocator_traits<A1>::template rebind_alloc<E4>;
static_assert(std::allocator_traits<A1>::propagate_on_container_copy_assignment::value);
static_assert(!std::allocator_traits<A1>::propagate_on_container_move_assignment::value);
static_assert(std::allocator_traits<A1>::propagate_on_container_swap::value);
static_assert(!std::allocator_traits<A1>::is_always_equal::value);

int main(int argc, char **argv) {
    std::optional<A1> h[4];
    struct B { char *p = nullptr; size_t n = 0; int sz = 0; } b[3];
    std::map<void *, size_t> *bl = &blocks;
    auto clear = [&] {
        for (auto &x : b) { if (x.p) { blocks.erase(x.p); std::free(x.p); } x = B{}; }
        for (auto &x : h) x.reset();
    };
    mbt::Harness H;
    H.reset = [&] { clear(); fail_next = false; errors = 0; for (auto &[p, n] : *bl) std::free(p); blocks.clear(); h[1].emplace(size_t{FIRST} * UNIT); h[2].emplace(*h[1]); h[3].emplace(*h[1]); };
    H.finish = [&] { clear(); return std::string(errors || !blocks.empty() ? "upstream unbalanced" : ""); };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        int k = int(c.i(1));
        std::string r = "ok";
        auto fresh = [&](auto &&...a) { h[k].emplace(std::forward<decltype(a)>(a)...); };
        int up = h[k] ? h[k]->upstream_allocator().id : 0;
        if (op == "new") fresh(size_t(c.i(2)) * UNIT);
        else if (op == "newu") { Up<char> u{5}; fresh(size_t(c.i(2)) * UNIT, std::as_const(u)); if (h[k]->upstream_allocator().id != 5) r = "wrong upstream"; }
        else if (op == "newm") { fresh(size_t(c.i(2)) * UNIT, Up<char>{6}); if (h[k]->upstream_allocator().id != 6) r = "wrong upstream"; }
        else if (op == "newi") { fresh(size_t(c.i(2)) * UNIT, std::in_place, 4, 4); if (h[k]->upstream_allocator().id != 8) r = "wrong upstream"; }
        else if (op == "copy" || op == "move" || op == "asg" || op == "masg" || op == "reb" || op == "rebm" || op == "soccc") {
            auto &j = h[c.i(2)];
            int ju = j->upstream_allocator().id;
            if (op == "copy") fresh(std::as_const(*j));
            else if (op == "move") fresh(std::move(*j));
            else if (op == "asg") *h[k] = std::as_const(*j);
            else if (op == "masg") *h[k] = std::move(*j);
            else if (op == "reb") { A4 t{*j}; fresh(t); }
            else if (op == "rebm") { A4 t{*j}; A4 t2{std::move(t)}; A4 t3{t}; t3 = std::move(t2); fresh(A1{t2}); if (!(t3 == t)) r = "rebound allocators differ"; }
            else fresh(std::allocator_traits<A1>::select_on_container_copy_construction(*j));
            if (h[k]->upstream_allocator().id != ju || j->upstream_allocator().id != ju) r = "wrong upstream";
        } else if (op == "swap") {
            auto &j = h[c.i(2)];
            int ju = j->upstream_allocator().id;
            swap(*h[k], *j);
            if (h[k]->upstream_allocator().id != ju || j->upstream_allocator().id != up) r = "wrong upstream";
        } else if (op == "eq") {
            bool e = *h[k] == *h[c.i(2)];
            if (e == (*h[k] != *h[c.i(2)])) return "== and != agree";
            return e ? "T" : "F";
        } else if (op == "al" || op == "alf") {
            auto &x = b[c.i(2)];
            size_t n = size_t(c.i(3)) * UNIT;
            fail_next = op == "alf";
            size_t before = blocks.size();
            try {
                if (c.i(4) == 1) x.p = h[k]->allocate(n);
                else { A4 a{*h[k]}; x.p = reinterpret_cast<char *>(a.allocate(n)); }
                x.n = n; x.sz = int(c.i(4));
                if (!blocks.count(x.p) || blocks[x.p] != n * size_t(x.sz)) r = "upstream was asked for another size";
                else if (UNIT == 1) std::memset(x.p, 0x5a, n * size_t(x.sz));
            } catch (Boom const &) { r = "upstream"; }
            catch (std::bad_alloc const &) { r = "limit"; }
            if (r != "ok" && blocks.size() != before) r = "leak";
            fail_next = false;
        } else if (op == "huge") {
            A4 a{*h[k]};
            for (size_t n : {SIZE_MAX / 4 + 2, SIZE_MAX, SIZE_MAX / 4 + 1}) {
                try { auto *p = a.allocate(n); if (p) return "succeeded"; } catch (std::bad_alloc const &) {}
            }
            return "fail";
        } else if (op == "de") {
            auto &x = b[c.i(2)];
            if (x.sz == 1) h[k]->deallocate(x.p, x.n);
            else { A4 a{*h[k]}; a.deallocate(reinterpret_cast<E4 *>(x.p), x.n); }
            x = B{};
        } else if (op == "vec") {
            try {
                std::vector<char, A1> v(*h[k]);
                v.resize(size_t(c.i(2)));
                std::vector<char, A1> w(std::move(v));
                v.clear();
                v.get_allocator();
                w = std::vector<char, A1>(*h[k]);
            } catch (std::bad_alloc const &) { r = "limit"; }
        } else throw mbt::HarnessError("op " + op);
        if (errors) r += " upstream got a wrong block or size back";
        return r;
    };
    return mbt::run(argc, argv, H);
}
