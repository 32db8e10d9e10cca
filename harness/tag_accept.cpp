// Compares which pointers and tags pointer_tag_pair accepts with specs/TagAccept.tla, and that accepted ones come back.
#include "mbt.hpp"
#include <dice/template-library/pointer_tag_pair.hpp>
#include <cstdint>
using namespace dice::template_library;
using mbt::Cmd;

struct B { char c; };
struct alignas(16) D : B {};
struct alignas(8) S { int x; };
struct Front { long long v; };
struct M : Front, S {};            // S is not at the front
struct alignas(4096) X : S {};
struct Inc;
static_assert(alignof(M) == 8 && alignof(X) == 4096 && sizeof(void *) == 8);
alignas(65536) static char mem[3 * 65536];

template<class T> struct Ty { using t = T; };
template<class F> void with(std::string const &n, F f) {
    if (n == "V") f(Ty<void>{}); else if (n == "cV") f(Ty<void const>{}); else if (n == "c") f(Ty<char>{});
    else if (n == "B") f(Ty<B>{}); else if (n == "cB") f(Ty<B const>{}); else if (n == "D") f(Ty<D>{}); else if (n == "cD") f(Ty<D const>{});
    else if (n == "S") f(Ty<S>{}); else if (n == "cS") f(Ty<S const>{}); else if (n == "X") f(Ty<X>{}); else throw mbt::HarnessError("type");
}
template<class F> void withp(std::string const &n, F f) {
    if (n == "M") f(Ty<M>{}); else if (n == "fn") f(Ty<void()>{}); else with(n, f);
}
template<class F> void withb(int b, F f) {
    [&]<unsigned... I>(std::integer_sequence<unsigned, I...>) { ((b == int(I) ? (f(std::integral_constant<unsigned, I>{}), 0) : 0), ...); }(std::integer_sequence<unsigned, 0, 1, 3, 4, 5, 12, 13>{});
}
template<class F> void witha(int a, F f) {
    [&]<unsigned... I>(std::integer_sequence<unsigned, I...>) { ((a == int(I) ? (f(std::integral_constant<unsigned, I>{}), 0) : 0), ...); }(std::integer_sequence<unsigned, 0, 3, 4, 13>{});
}
// a pointer whose conversion to T * is aligned as strictly as anything asks for
template<class T, class P> P *pick() {
    if constexpr (std::is_same_v<P, M> && std::is_same_v<std::remove_cv_t<T>, S>) {
        M *m = reinterpret_cast<M *>(mem);
        auto off = reinterpret_cast<char *>(static_cast<S *>(m)) - reinterpret_cast<char *>(m);
        return reinterpret_cast<M *>(mem + 65536 - off);
    } else return reinterpret_cast<P *>(mem + 65536);
}
template<class Pair, class T, class P, class Mk> std::string back(Mk mk, unsigned bits) {
    for (P *p : {static_cast<P *>(nullptr), pick<T, P>()})
        for (unsigned t : {0u, 1u, (1u << bits) / 2, (1u << bits) - 1}) {
            if (t >= (1u << bits)) continue;
            Pair x = mk(p, static_cast<uint16_t>(t));
            T *q = p;
            if (x.pointer() != q) return "another pointer comes back";
            if (x.tag() != t) return "another tag comes back";
            auto [a, c] = x;
            if (a != q || c != t) return "structured binding differs";
            if (Pair::from_tagged(x.tagged_pointer()) != x) return "tagged pointer differs";
        }
    return "ok";
}
template<class T, class P, unsigned Bits> std::string ctor() {
    using Pair = pointer_tag_pair<T, uint16_t, Bits>;
    if constexpr (!requires (P *p, uint16_t t) { Pair{p, t}; }) { static_assert(!std::is_constructible_v<Pair, P *, uint16_t>); return "no"; }
    else return back<Pair, T, P>([](P *p, uint16_t t) { return Pair{p, t}; }, Bits);
}
template<class T, class P, unsigned Bits, unsigned A> std::string over() {
    using Pair = pointer_tag_pair<T, uint16_t, Bits>;
    if constexpr (!requires (P *p, uint16_t t) { Pair::template from_overaligned<(1u << A)>(p, t); }) return "no";
    else return back<Pair, T, P>([](P *p, uint16_t t) { return Pair::template from_overaligned<(1u << A)>(p, t); }, Bits);
}
enum EU8 : uint8_t {}; enum class ECU64 : uint64_t {}; enum EB : bool {}; enum EI : int {}; enum class ECI {};
template<class Tag> std::string tag() { return requires { typename pointer_tag_pair<S, Tag>; } ? "ok" : "no"; }
template<class T> std::string pointee() { return requires { typename pointer_tag_pair<T, unsigned, 0>; } ? "ok" : "no"; }

int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        std::string r = "?";
        if (c.op() == "ctor") with(c.s(1), [&]<class T>(Ty<T>) { withp(c.s(2), [&]<class P>(Ty<P>) { withb(c.i(3), [&]<unsigned N>(std::integral_constant<unsigned, N>) { r = ctor<T, P, N>(); }); }); });
        else if (c.op() == "over") with(c.s(1), [&]<class T>(Ty<T>) { withp(c.s(2), [&]<class P>(Ty<P>) { withb(c.i(3), [&]<unsigned N>(std::integral_constant<unsigned, N>) {
            witha(c.i(4), [&]<unsigned A>(std::integral_constant<unsigned, A>) { r = over<T, P, N, A>(); }); }); }); });
        else if (c.op() == "bits") with(c.s(1), [&]<class T>(Ty<T>) { r = mbt::cat(pointer_tag_pair<T, unsigned>::bits_requested); });
        else if (c.op() == "tag") {
            std::map<std::string, std::string> m{{"u8", tag<uint8_t>()}, {"u16", tag<uint16_t>()}, {"u32", tag<uint32_t>()}, {"u64", tag<uint64_t>()}, {"bool", tag<bool>()}, {"char8", tag<char8_t>()}, {"char16", tag<char16_t>()},
                {"i8", tag<int8_t>()}, {"i32", tag<int32_t>()}, {"i64", tag<int64_t>()}, {"float", tag<float>()}, {"struct", tag<S>()}, {"ptr", tag<S *>()}, {"eu8", tag<EU8>()}, {"ecu64", tag<ECU64>()}, {"ebool", tag<EB>()},
                {"ei", tag<EI>()}, {"eci", tag<ECI>()}, {"cu8", tag<uint8_t const>()}};
            r = m.at(c.s(1));
        } else if (c.op() == "pointee") {
            std::map<std::string, std::string> m{{"void", pointee<void>()}, {"int", pointee<int>()}, {"incomplete", pointee<Inc>()}, {"array", pointee<int[3]>()}, {"pointer", pointee<int *>()}, {"fn", pointee<void()>()}, {"fnnoex", pointee<int(int) noexcept>()}};
            r = m.at(c.s(1));
        }
        return r;
    };
    return mbt::run(argc, argv, h);
}
