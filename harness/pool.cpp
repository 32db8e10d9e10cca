#include <dice/template-library/pool_allocator.hpp>
#include "mbt.hpp"
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <vector>
namespace dtl = dice::template_library;

// ---- the upstream: operator new, recorded while a pool function runs
static bool in_pool = false, exhausted = false;
struct Chunk { char *p; size_t n; };
static Chunk taken[64];
static char *given[64];
static int n_taken = 0, n_given = 0, refused = 0;
static void *get(size_t n) noexcept {
    if (in_pool) {
        if (exhausted || n > (size_t(1) << 40)) { ++refused; return nullptr; }
        if (n_taken < 64) taken[n_taken].n = n;
    }
    void *p = std::malloc(n > (size_t(1) << 30) ? 1 : n ? n : 1); // blocks of that size are not touched
    if (in_pool && n_taken < 64) taken[n_taken++].p = static_cast<char *>(p);
    return p;
}
static void put(void *p) noexcept { if (in_pool && p && n_given < 64) given[n_given++] = static_cast<char *>(p); std::free(p); }
void *operator new(size_t n) { if (void *p = get(n)) return p; throw std::bad_alloc{}; }
void *operator new[](size_t n) { if (void *p = get(n)) return p; throw std::bad_alloc{}; }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return get(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
struct InPool { InPool() { n_taken = n_given = refused = 0; in_pool = true; } ~InPool() { in_pool = false; } };

template<class T> using PA = dtl::pool_allocator<T, BUCKETS>;
using PC = PA<char>;
using Pool = dtl::pool<BUCKETS>;
static_assert(std::max({BUCKETS}) < 200);
struct Big { char c[4096]; };
static constexpr size_t buckets[] = {BUCKETS};
static int bucket_of(size_t n) { for (size_t i = 0; i < std::size(buckets); ++i) if (n <= buckets[i]) return int(i); return -1; }

struct Block { char *p; size_t n; unsigned char tag; Pool *pool; };
struct Arena { char *lo, *hi; Pool *pool; int bucket; };
static std::vector<Arena> arenas;                        // chunks seen, and which bucket they serve
static std::map<std::pair<Pool *, int>, long> idle;      // freed and not yet reused
static std::string trouble;

template<class T> char *raw_alloc(PC &a, size_t bytes) { PA<T> t(a); InPool g; return reinterpret_cast<char *>(t.allocate(bytes / sizeof(T))); }
template<class T> void raw_free(PC &a, char *p, size_t bytes) { PA<T> t(a); InPool g; t.deallocate(reinterpret_cast<T *>(p), bytes / sizeof(T)); }
static char *do_alloc(PC &a, std::string const &f, size_t n) {
    if (f == "char") return raw_alloc<char>(a, n);
    if (f == "int") return raw_alloc<int>(a, n);
    if (f == "long") return raw_alloc<long>(a, n);
    InPool g;
    return static_cast<char *>(a.underlying_pool()->allocate(n));
}
static void do_free(PC &a, std::string const &f, char *p, size_t n) {
    if (f == "char") raw_free<char>(a, p, n);
    else if (f == "int") raw_free<int>(a, p, n);
    else if (f == "long") raw_free<long>(a, p, n);
    else { InPool g; a.underlying_pool()->deallocate(p, n); }
}
// checks where the block came from; returns the observation
static std::string classify(Pool *pool, char *p, size_t n) {
    if (!p) return "null";
    int b = bucket_of(n);
    int nt = n_taken;
    if (b < 0) return nt == 1 && taken[0].p == p && taken[0].n >= n ? "new" : "not served by operator new";
    auto &free_blocks = idle[{pool, b}];
    for (int i = 0; i < nt; ++i) {
        if (free_blocks > 0) return "the arena grows although it has a freed block";
        arenas.push_back({taken[i].p, taken[i].p + taken[i].n, pool, b});
    }
    for (auto &a : arenas) if (p >= a.lo && p < a.hi) {
        if (p + std::max(n, buckets[b]) > a.hi) return "block exceeds its arena";
        if (a.pool != pool || a.bucket != b) return "served from the arena of another bucket";
        if (free_blocks > 0) --free_blocks;
        return mbt::cat("pool", buckets[b]);
    }
    return "not served from an arena";
}
static void fill(Block const &b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = char(b.tag + i); }
static bool intact(Block const &b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != char(b.tag + i)) return false; return true; }
static bool overlap(Block const &a, Block const &b) { return a.p < b.p + std::max<size_t>(b.n, 1) && b.p < a.p + std::max<size_t>(a.n, 1); }

int main(int argc, char **argv) {
    std::optional<PC> h[8];
    std::optional<Block> blk[8];
    unsigned char tag = 1;
    auto forget = [&](Pool *p) { // a pool is gone: its addresses may come back
        std::erase_if(arenas, [&](Arena const &a) { return a.pool == p; });
        std::erase_if(idle, [&](auto const &e) { return e.first.first == p; });
    };
    auto sweep = [&](std::vector<Pool *> const &before) {
        for (auto *p : before) {
            bool alive = false;
            for (int k = 1; k <= NH; ++k) alive |= h[k]->underlying_pool().get() == p;
            if (!alive) forget(p);
        }
    };
    auto check_blocks = [&]() -> std::string {
        for (int i = 1; i <= NB; ++i) if (blk[i]) {
            if (!intact(*blk[i])) return mbt::cat(" block ", i, " was modified");
            for (int j = i + 1; j <= NB; ++j) if (blk[j] && overlap(*blk[i], *blk[j])) return mbt::cat(" blocks ", i, " and ", j, " overlap");
        }
        return "";
    };
    auto freed = [&](Pool *pool, char *p, size_t n) -> std::string {
        int b = bucket_of(n);
        if (b < 0) return n_given == 1 && given[0] == p ? "ok" : "not returned to operator delete";
        if (n_given) return "a bucket block went to operator delete";
        ++idle[{pool, b}];
        return "ok";
    };
    mbt::Harness H;
    H.reset = [&] {
        for (auto &b : blk) b.reset();
        for (auto &x : h) x.reset();
        arenas.clear(); idle.clear(); in_pool = exhausted = false;
        h[1].emplace();
        for (int k = 2; k <= NH; ++k) h[k].emplace(*h[1]);
    };
    H.finish = [&] {
        std::string r;
        for (int i = 1; i <= NB; ++i) if (blk[i]) {
            for (int k = 1; k <= NH; ++k) if (h[k]->underlying_pool().get() == blk[i]->pool) {
                do_free(*h[k], "char", blk[i]->p, blk[i]->n);
                auto f = freed(blk[i]->pool, blk[i]->p, blk[i]->n);
                if (f != "ok") r = f;
                break;
            }
            blk[i].reset();
        }
        for (auto &x : h) x.reset();
        arenas.clear(); idle.clear(); arenas.shrink_to_fit();
        return r;
    };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto const &op = c.op();
        std::string r = "ok";
        if (op == "alloc") {
            int k = int(c.i(1));
            PC &a = *h[c.i(2)];
            size_t n = size_t(c.i(4));
            char *p = do_alloc(a, c.s(3), n);
            r = classify(a.underlying_pool().get(), p, n);
            if (p) { blk[k] = Block{p, n, tag += 37, a.underlying_pool().get()}; auto e = check_blocks(); (void) e; fill(*blk[k]); }
        } else if (op == "free") {
            auto e = check_blocks();
            int k = int(c.i(1));
            PC &a = *h[c.i(2)];
            Block b = *blk[k];
            blk[k].reset();
            do_free(a, c.s(3), b.p, b.n);
            r = freed(b.pool, b.p, b.n) + e;
        } else if (op == "bulk") {
            PC &a = *h[c.i(1)];
            size_t n = size_t(c.i(2));
            auto *pool = a.underlying_pool().get();
            std::vector<Block> v;
            size_t const cnt = bucket_of(n) < 0 ? 5 : c.s(3) == "many" ? 1500 : 80;
            std::set<char *> starts;
            for (size_t i = 0; i < cnt; ++i) {
                char *p = do_alloc(a, "char", n);
                r = classify(pool, p, n);
                v.push_back({p, n, tag += 37, pool});
                if (r.rfind("pool", 0) != 0 && r != "new") return r;
                fill(v.back());
                if (!starts.insert(p).second) return "same block handed out twice";
                // every 7th is freed and allocated again
                if (i % 7 == 6) { do_free(a, "raw", v[i / 2].p, n); if (auto f = freed(pool, v[i / 2].p, n); f != "ok") return f; starts.erase(v[i / 2].p); char *np = do_alloc(a, "raw", n); auto rr = classify(pool, np, n); if (rr != r) return rr; if (!starts.insert(np).second) return "same block handed out twice"; v[i / 2].p = np; fill(v[i / 2]); }
            }
            char *prev = nullptr;
            for (auto *p : starts) { if (prev && prev + std::max<size_t>(n, 1) > p) return "bulk blocks overlap"; prev = p; }
            for (auto &b : v) { if (!intact(b)) return "bulk block was modified"; for (int i = 1; i <= NB; ++i) if (blk[i] && overlap(*blk[i], b)) return "bulk block overlaps another one"; }
            auto kill = [&](Block &b) { do_free(a, "char", b.p, n); return freed(pool, b.p, n) == "ok"; };
            bool ok = true;
            if (c.s(3) == "fwd") for (size_t i = 0; i < v.size(); ++i) ok &= kill(v[i]);
            else if (c.s(3) == "rev") for (size_t i = v.size(); i-- > 0;) ok &= kill(v[i]);
            else { for (size_t i = 0; i < v.size(); i += 2) ok &= kill(v[i]); for (size_t i = 1; i < v.size(); i += 2) ok &= kill(v[i]); }
            if (!ok) return "bulk block not returned";
        } else if (op == "try!") {
            PC &a = *h[c.i(1)];
            size_t n = size_t(c.i(2));
            auto *pool = a.underlying_pool().get();
            exhausted = true;
            char *p = nullptr;
            bool thrown = false;
            try { p = do_alloc(a, "char", n); } catch (std::bad_alloc const &) { thrown = true; }
            exhausted = false;
            if (bucket_of(n) < 0) r = thrown && refused == 1 ? "bad_alloc" : "no bad_alloc";
            else if (thrown) r = !refused ? "bad_alloc without need" : idle[{pool, bucket_of(n)}] > 0 ? "bad_alloc although the bucket has a freed block" : "consistent";
            else { r = classify(pool, p, n); if (r.rfind("pool", 0) == 0) { Block b{p, n, 3, pool}; for (int i = 1; i <= NB; ++i) if (blk[i] && overlap(*blk[i], b)) return "overlap"; fill(b); do_free(a, "char", p, n); freed(pool, p, n); r = "consistent"; } }
        } else if (op == "huge") {
            PC &a = *h[c.i(1)];
            auto go = [&]<class T>(T *) -> std::string {
                size_t const lim = size_t(-1) / sizeof(T);
                auto &w = c.s(3);
                size_t n = w == "wrap0" ? lim + 1 : w == "wrap1" ? lim + 2 : w == "wrapmax" ? size_t(-1) : lim;
                try { PA<T> t(a); InPool g; T *p = t.allocate(n); (void) p; return "returned a block"; } catch (std::bad_alloc const &) { return "bad_alloc"; }
            };
            auto &f = c.s(2);
            r = f == "char" ? go((char *) nullptr) : f == "int" ? go((int *) nullptr) : f == "long" ? go((long *) nullptr) : go((Big *) nullptr);
        } else if (op == "large") { // a byte size that needs more than 32 bits
            PC &a = *h[c.i(1)];
            auto go = [&]<class T>(T *) -> std::string {
                size_t const n = ((size_t(1) << 32) + (c.s(3) == "some" ? 8 * sizeof(T) : 0)) / sizeof(T);
                PA<T> t(a);
                T *p = nullptr;
                { InPool g; p = t.allocate(n); }
                if (n_taken != 1 || taken[0].p != reinterpret_cast<char *>(p)) return "not served by operator new";
                if (taken[0].n < n * sizeof(T)) return "the block is too small";
                { InPool g; t.deallocate(p, n); }
                return n_given == 1 && given[0] == reinterpret_cast<char *>(p) ? "new" : "not returned to operator delete";
            };
            auto &f = c.s(2);
            r = f == "char" ? go((char *) nullptr) : f == "int" ? go((int *) nullptr) : f == "long" ? go((long *) nullptr) : go((Big *) nullptr);
        } else if (op == "eq") {
            PC &a = *h[c.i(1)], &b = *h[c.i(2)];
            bool e = a == b;
            if ((b == a) != e || (a != b) == e || (PA<long>(a) == PA<long>(b)) != e || (PC(PA<long>(a)) == b) != e || (a.underlying_pool() == b.underlying_pool()) != e) return "comparisons disagree";
            r = e ? "T" : "F";
        } else if (op == "map") {
            PC a; // a pool of its own, shared by several containers
            std::list<long, PA<long>> l{PA<long>(a)};
            std::vector<int, PA<int>> v{PA<int>(a)};
            std::map<int, int, std::less<int>, PA<std::pair<int const, int>>> m{PA<std::pair<int const, int>>(a)};
            for (int i = 0; i < 20; ++i) { l.push_back(i); v.push_back(i); m[i] = i; }
            auto l2 = l; auto v2 = std::move(v); auto m2 = m;
            l.clear(); m.erase(3); v = v2;
            long s = 0;
            for (auto x : l2) s += x;
            for (auto x : v2) s += x;
            for (auto x : v) s += x;
            for (auto &[k, x] : m2) s += x;
            bool eq = PC(l2.get_allocator()) == a && PC(v2.get_allocator()) == a && PC(v.get_allocator()) == a && PC(m2.get_allocator()) == a;
            r = s == 4 * 190 && eq ? "ok" : "container contents";
            l2.clear(); l.clear(); m.clear(); m2.clear();
        } else {
            std::vector<Pool *> before;
            for (int k = 1; k <= NH; ++k) before.push_back(h[k]->underlying_pool().get());
            int k = int(c.i(1));
            if (op == "fresh") { h[k].reset(); h[k].emplace(); for (auto *&p : before) if (p == h[k]->underlying_pool().get()) { forget(p); } }
            else {
                int o = int(c.i(2));
                PC const &src = *h[o];
                if (op == "copy") h[k].emplace(src);
                else if (op == "move") h[k].emplace(std::move(*h[o]));
                else if (op == "asg") *h[k] = src;
                else if (op == "masg") *h[k] = std::move(*h[o]);
                else if (op == "soccc") h[k].emplace(std::allocator_traits<PC>::select_on_container_copy_construction(src));
                else if (op == "rebind") { typename std::allocator_traits<PC>::template rebind_alloc<long> l(src); h[k].emplace(PC(l)); }
                else if (op == "rebindmove") { PA<long> l(src); PA<int> i(std::move(l)); *h[k] = PC(std::move(i)); if (!(PC(l) == src)) return "moved-from rebind"; }
                else if (op == "under") h[k].emplace(src.underlying_pool());
                else if (op == "shared") { std::shared_ptr<Pool> p = src.underlying_pool(); h[k].emplace(std::move(p)); }
                else if (op == "swap") swap(*h[k], *h[o]);
                else {
                    std::vector<int, PA<int>> v(60, 7, PA<int>(src)), w(70, 8, PA<int>(*h[k])); // too large for the buckets
                    if (op == "vcopy") { auto x = v; *h[k] = PC(x.get_allocator()); }
                    else if (op == "vmove") { auto x = std::move(v); *h[k] = PC(x.get_allocator()); v.assign(60, 1); }
                    else if (op == "vasg") { w = v; *h[k] = PC(w.get_allocator()); }
                    else if (op == "vmasg") { w = std::move(v); v.assign(60, 4); *h[k] = PC(w.get_allocator()); }
                    else if (op == "vswap") { v.swap(w); *h[k] = PC(w.get_allocator()); }
                    else throw mbt::HarnessError("op " + op);
                    if (w.size() + v.size() > 140) return "container contents";
                }
            }
            sweep(before);
        }
        return r + check_blocks();
    };
    return mbt::run(argc, argv, H);
}
