// Replays histories of specs/TagPair.tla on pointer_tag_pair in configuration CFG.
#include "mbt.hpp"
#include <dice/template-library/pointer_tag_pair.hpp>
#include <cstdint>
#include <type_traits>
using namespace dice::template_library;
using mbt::Cmd; using mbt::cat;
#ifndef CFG
#define CFG 1
#endif
struct alignas(8) S8 { int x; };
struct alignas(4096) Page { char c; };
struct Other { long v; virtual ~Other() = default; };
struct alignas(8) Base2 { long w; };
struct Derived : Other, Base2 { long u; };
enum class En : uint8_t {};

#if CFG == 1
using T = S8; using Tag = uint8_t; using Pair = pointer_tag_pair<T, Tag>;
static_assert(Pair::bits_requested == 3);
static S8 obj[2];
static T *P(int k) { return &obj[k]; }
#elif CFG == 2
using T = Base2; using Tag = En; using Pair = pointer_tag_pair<T, Tag, 2>;
static Derived obj[2];
static T *P(int k) { return &obj[k]; }
#elif CFG == 3
using T = void; using Tag = uint64_t; using Pair = pointer_tag_pair<T, Tag, 4>;
alignas(16) static char obj[32];
static T *P(int k) { return obj + 16 * k; }
#elif CFG == 4
using T = S8 const; using Tag = uint16_t; using Pair = pointer_tag_pair<T, Tag, 1>;
static S8 const obj[2] = {};
static T *P(int k) { return &obj[k]; }
#elif CFG == 5
using T = Page; using Tag = uint16_t; using Pair = pointer_tag_pair<T, Tag>;
static_assert(Pair::bits_requested == 12);
static T *P(int k) { return reinterpret_cast<T *>(k == 0 ? uintptr_t{4096} : ~uintptr_t{4095}); } // extreme addresses, never dereferenced
#elif CFG == 6
using T = char; using Tag = uint32_t; using Pair = pointer_tag_pair<T, Tag>; // no bits at all
static T *P(int k) { return reinterpret_cast<T *>(k == 0 ? uintptr_t{1} : ~uintptr_t{0}); }
#elif CFG == 7
using T = char; using Tag = uint64_t; using Pair = pointer_tag_pair<T, Tag, 48>; // nearly everything is tag
static T *P(int k) { return reinterpret_cast<T *>(k == 0 ? uintptr_t{1} << 48 : ~uintptr_t{0} << 48); }
#endif
static_assert(std::is_same_v<Pair::pointer_type, T *> && std::is_same_v<Pair::tag_type, Tag>);
static_assert(Pair{nullptr, Tag{}}.tag() == Tag{} && Pair{}.tag() == Tag{});
static_assert(std::is_trivially_copyable_v<Pair> && sizeof(Pair) == sizeof(void *));

static Pair v[4];

static std::string one(Pair const &x) {
    T *p = x.pointer();
    Tag t = x.tag();
    auto [sp, st] = x;
    static_assert(std::is_same_v<decltype(sp), T *> && std::is_same_v<decltype(st), Tag>);
    if (sp != p || st != t || get<0>(x) != p || get<1>(x) != t) return "structured binding differs";
    std::string n = p == nullptr ? "null" : p == P(0) ? "p" : p == P(1) ? "q" : "another pointer";
    return cat(n, "/", static_cast<unsigned long long>(t));
}
static std::string show() {
    for (int a = 1; a <= 3; ++a)
        for (int b = 1; b <= 3; ++b) {
            bool eq = v[a] == v[b], ne = v[a] != v[b], lt = v[a] < v[b], gt = v[a] > v[b], le = v[a] <= v[b], ge = v[a] >= v[b];
            auto c = v[a] <=> v[b];
            if (eq == ne || lt + gt + eq != 1 || le != (lt || eq) || ge != (gt || eq) || (c == 0) != eq || (c < 0) != lt) return "comparisons are inconsistent";
            if (lt != (v[b] > v[a])) return "ordering is not antisymmetric";
            for (int d = 1; d <= 3; ++d) if (lt && v[b] < v[d] && !(v[a] < v[d])) return "ordering is not transitive";
        }
    auto e = [](int a, int b) { return v[a] == v[b] ? "=" : "#"; };
    return cat(one(v[1]), " ", one(v[2]), " ", one(v[3]), " ", e(1, 2), e(2, 3), e(1, 3));
}
static Pair mk(T *p, Tag t, std::string const &how) {
    if (how == "over") {
#if CFG == 3
        return Pair::from_overaligned<16>(p, t);
#elif CFG == 5
        return Pair::from_overaligned<8192>(p, t);
#elif CFG == 7
        // 2^48 cannot be promised through an unsigned alignment
        return Pair::from_tagged(reinterpret_cast<Pair::tagged_pointer_type>(reinterpret_cast<uintptr_t>(p) | static_cast<uintptr_t>(t)));
#else
        return Pair::from_overaligned<32>(p, t);
#endif
    }
    if (how == "tagged") return Pair::from_tagged(reinterpret_cast<Pair::tagged_pointer_type>(reinterpret_cast<uintptr_t>(p) | static_cast<uintptr_t>(t)));
#if CFG == 2
    if (how == "derived") { Derived *d = p ? static_cast<Derived *>(p) : nullptr; return Pair{d, t}; }
#elif CFG == 4
    if (how == "derived") { S8 *d = const_cast<S8 *>(p); return Pair{d, t}; }
#endif
#if CFG == 3 || CFG == 7
    return mk(p, t, "over");
#else
    return Pair(p, t);
#endif
}

int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] { for (auto &x : v) x = Pair{}; };
    h.exec = [](Cmd const &c) -> std::string {
        auto &op = c.op();
        size_t k = static_cast<size_t>(c.i(1));
        if (op == "new") {
            T *p = c.s(2) == "null" ? nullptr : P(c.s(2) == "q");
            v[k] = mk(p, static_cast<Tag>(std::stoull(c.s(3))), c.s(4));
        } else if (op == "nul") v[k] = Pair{nullptr, static_cast<Tag>(std::stoull(c.s(2)))};
        else if (op == "def") v[k] = Pair{};
        else {
            size_t j = static_cast<size_t>(c.i(2));
            if (op == "copy") { Pair x{v[j]}; v[k] = x; }
            else if (op == "asg") v[k] = v[j];
            else if (op == "move") v[k] = std::move(v[j]);
            else if (op == "tagged") v[k] = Pair::from_tagged(v[j].tagged_pointer());
            else if (op == "swap") swap(v[k], v[j]);
            else if (op == "stdswap") std::swap(v[k], v[j]);
        }
        return show();
    };
    return mbt::run(argc, argv, h);
}
