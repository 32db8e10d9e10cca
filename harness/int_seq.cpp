// Replays histories of specs/IntSeq.tla on the integer sequence generators for type TT.
#include "mbt.hpp"
#include <dice/template-library/integral_sequence.hpp>
#include "points.hpp"
using mbt::Cmd;
namespace dtl = dice::template_library;
template<T... xs> static std::string seq(std::integer_sequence<T, xs...>, bool plain = false) {
    std::string out;
    ((out += (out.empty() ? "" : " ") + (plain ? std::to_string(xs) : show(xs))), ...);
    return out;
}
template<class L> struct lst;
template<T... xs> struct lst<dtl::type_list::type_list<std::integral_constant<T, xs>...>> { using type = std::integer_sequence<T, xs...>; };
template<size_t... xs> static std::string idx(std::integer_sequence<size_t, xs...>) { // not TT: shown as TT
    std::string out;
    ((out += (out.empty() ? "" : " ") + show(static_cast<T>(xs))), ...);
    return out;
}
struct W { int f, l; };
constexpr int mn = std::is_signed_v<T> ? -128 : 0, mx = mn + 255;
constexpr int far = std::is_signed_v<T> ? -300 : 0;
constexpr W wides8[] = {{mn, mx}, {mx, mn}, {mn + 1, mx}, {mx - 1, mn}, {mn, mn + 200}, {mx, mx - 129}}, widesN[] = {{far, far + 600}, {far + 600, far}, {far + 1, far + 257}};
constexpr auto &wides = [] -> auto & { if constexpr (sizeof(T) == 1) return wides8; else return widesN; }();
template<size_t I> static std::string wide() {
    return seq(dtl::make_integer_sequence<T, static_cast<T>(wides[I].f), static_cast<T>(wides[I].l)>{}, true);
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "seq") return pick(size_t(c.i(1)) - 1, [](auto I) { return seq(dtl::make_integer_sequence<T, ranges[I()].first, ranges[I()].last>{}); });
        if (op == "list") return pick(size_t(c.i(1)) - 1, [](auto I) { return seq(typename lst<dtl::make_integral_constant_list<T, ranges[I()].first, ranges[I()].last>>::type{}); });
        if (op == "index") return pick(size_t(c.i(1)) - 1, [](auto I) -> std::string { if constexpr (std::is_unsigned_v<T>) return idx(dtl::make_index_sequence<static_cast<size_t>(ranges[I()].first), static_cast<size_t>(ranges[I()].last)>{}); else return ""; });
        if (op == "wide") return pick(size_t(c.i(1)) - 1, [](auto I) -> std::string { if constexpr (I() < std::size(wides)) return wide<I()>(); else return ""; });
        throw mbt::HarnessError{"op " + op};
    };
    return mbt::run(argc, argv, h);
}
