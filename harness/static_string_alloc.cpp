// A: allocator with identity, propagation traits, failure injection and a registry of all buffers
#include <dice/template-library/static_string.hpp>
#include "mbt.hpp"
#include <map>
#include <new>
#include <optional>
#ifdef FANCY
#include <boost/interprocess/offset_ptr.hpp>
#endif
namespace dtl = dice::template_library;
using C = CHAR;
struct Block { size_t n; int id; };
static std::map<void const *, Block> live;
static std::string trouble;
static int fail_next = 0;
static long allocs = 0;

template<class T> struct A {
    using value_type = T;
#ifdef FANCY
    using pointer = boost::interprocess::offset_ptr<T>;
#else
    using pointer = T *;
#endif
    using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
    using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
    using propagate_on_container_swap = std::bool_constant<POCS>;
    using is_always_equal = std::bool_constant<AE>;
    template<class U> struct rebind { using other = A<U>; };
    int id;
    explicit A(int i) : id(i) {}
    A(A const &) = default;
    A &operator=(A const &) = default;
    template<class U> A(A<U> const &o) : id(o.id) {}
    pointer allocate(size_t n) {
        if (n == 0) trouble += "allocate(0) ";
        if (fail_next) { fail_next = 0; throw std::bad_alloc{}; }
        ++allocs;
        T *p = static_cast<T *>(std::malloc(n * sizeof(T)));
        live[p] = Block{n, id};
        return pointer(p);
    }
    void deallocate(pointer q, size_t n) {
        T *p = std::to_address(q);
        auto it = live.find(p);
        if (it == live.end()) { trouble += "deallocation of an unknown or already freed buffer "; return; }
        if (it->second.n != n) trouble += mbt::cat("buffer of size ", it->second.n, " deallocated with size ", n, " ");
        if (!AE && it->second.id != id) trouble += mbt::cat("buffer of allocator ", it->second.id, " deallocated by allocator ", id, " ");
        live.erase(it);
        std::free(p);
    }
    bool operator==(A const &o) const { return AE || id == o.id; }
};
using Str = dtl::basic_static_string<C, std::char_traits<C>, A<C>>;
using View = std::basic_string_view<C>;

static C sym(int v, size_t i) { return C((v == 1 ? 'a' : 'k') + int(i % 5)); }
static std::basic_string<C> text(size_t n, int v) { std::basic_string<C> r(n, C()); for (size_t i = 0; i < n; ++i) r[i] = sym(v, i); return r; }

int main(int argc, char **argv) {
    alignas(Str) static unsigned char mem[3][sizeof(Str)];
    auto S = [&](int k) -> Str & { return *std::launder(reinterpret_cast<Str *>(mem[k])); };
    bool unk[3]{};
    auto kill = [&](int k) { S(k).~Str(); };
    auto renew = [&](int k, int a) { new (mem[k]) Str(A<C>(a)); unk[k] = false; };
    mbt::Harness H;
    H.reset = [&] { renew(1, 1); renew(2, 1); fail_next = 0; trouble.clear(); };
    auto one = [&](int k) -> std::string {
        Str const &x = S(k);
        View v = x;
        auto const *p = std::to_address(x.data());
        if (v.size() != x.size() || x.empty() != v.empty()) return "size and view disagree";
        if (x.empty()) { if (p && live.count(p)) return "empty string owns a buffer"; return unk[k] ? "?" : "0"; }
        auto it = live.find(p);
        if (it == live.end()) return "contents are not in a live buffer";
        if (it->second.n != x.size()) return "buffer size differs from size()";
        for (int t : {1, 2}) if (text(v.size(), t) == v) return unk[k] ? std::string("?") : AE ? mbt::cat(v.size(), ".", t) : mbt::cat(v.size(), ".", t, "@", it->second.id);
        return unk[k] ? std::string("?") : std::string("wrong contents");
    };
    auto both = [&]() -> std::string {
        std::string r = one(1) + "|" + one(2);
        size_t own = size_t(!S(1).empty()) + size_t(!S(2).empty());
        if (!S(1).empty() && !S(2).empty() && std::to_address(S(1).data()) == std::to_address(S(2).data())) r += " shared buffer";
        if (live.size() != own) r += mbt::cat(" ", live.size(), " buffers for ", own, " non-empty strings");
        if (!trouble.empty()) r += " " + trouble;
        return r;
    };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        auto op = c.op();
        bool f = op.back() == '!';
        if (f) op.pop_back();
        fail_next = f;
        if (op == "swap") {
            auto *a = std::to_address(S(1).data()), *b = std::to_address(S(2).data());
            allocs = 0;
            swap(S(1), S(2));
            bool t = std::to_address(S(1).data()) == b && std::to_address(S(2).data()) == a && allocs == 0;
            return (t ? "taken " : "copied ") + both();
        }
        int k = int(c.i(1));
        std::string note = "ok ";
        if (op == "make") {
            auto t = text(size_t(c.i(2)), int(c.i(3)));
            int a = int(c.i(4));
            kill(k);
            unk[k] = false;
            try { new (mem[k]) Str(View(t), A<C>(a)); } catch (std::bad_alloc const &) { note = "bad_alloc "; renew(k, a); }
        } else if (op == "renew") { kill(k); renew(k, int(c.i(2))); }
        else {
            int o = int(c.i(2));
            if (op == "copy") {
                kill(k);
                unk[k] = false;
                try { new (mem[k]) Str(std::as_const(S(o))); } catch (std::bad_alloc const &) { note = "bad_alloc "; renew(k, 1); }
            } else if (op == "asg") {
                try { S(k) = std::as_const(S(o)); unk[k] = unk[o]; } catch (std::bad_alloc const &) { note = "bad_alloc "; unk[k] = true; }
            } else {
                auto *p = std::to_address(S(o).data());
                size_t n = S(o).size();
                allocs = 0;
                try {
                    if (op == "move") { kill(k); new (mem[k]) Str(std::move(S(o))); }
                    else S(k) = std::move(S(o));
                    note = n == 0 ? "ok " : allocs == 0 && std::to_address(S(k).data()) == p ? "taken " : "copied ";
                    unk[k] = false;
                } catch (std::bad_alloc const &) { note = "bad_alloc "; unk[k] = true; }
                unk[o] = true;
            }
        }
        fail_next = 0;
        return note + both();
    };
    H.finish = [&] {
        kill(1); kill(2);
        std::string r = trouble;
        if (!live.empty()) r += mbt::cat(live.size(), " buffers leaked");
        for (auto &[p, b] : live) std::free(const_cast<void *>(p));
        live.clear();
        return r;
    };
    return mbt::run(argc, argv, H);
}
