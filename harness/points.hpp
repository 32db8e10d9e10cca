// The numbers and ranges of specs/Ranges.tla for the type TT.
#ifndef VERIF_POINTS_HPP
#define VERIF_POINTS_HPP
#include "mbt.hpp"
#ifndef TT
#define TT int
#endif
using T = TT;
using U = std::make_unsigned_t<T>;
constexpr U Q = static_cast<U>(U{1} << (sizeof(T) * 8 - 2));
constexpr T P(int a, int o) { return static_cast<T>(static_cast<U>(static_cast<U>(static_cast<U>(a) * Q) + static_cast<U>(o))); }
constexpr T Min = std::numeric_limits<T>::min(), Max = std::numeric_limits<T>::max();
constexpr int M = std::is_signed_v<T> ? 0 : 2;
static std::string show(T x) { // a:o, as in the specification: next to the end of the type, or next to the nearest multiple of Q
    if constexpr (std::is_signed_v<T>) {
        if (x >= static_cast<T>(Max - 31)) return "2:" + std::to_string(static_cast<int>(x - Max) - 1);
        for (int a = -2; a < 2; ++a) { auto d = static_cast<__int128>(x) - static_cast<__int128>(P(a, 0)); if (d >= -24 && d < 24) return std::to_string(a) + ":" + std::to_string(static_cast<int>(d)); }
    } else {
        if (x >= static_cast<T>(Max - 31)) return "4:" + std::to_string(-static_cast<int>(Max - x) - 1);
        for (int a = 0; a < 4; ++a) { auto d = static_cast<__int128>(x) - static_cast<__int128>(P(a, 0)); if (d >= -24 && d < 24) return std::to_string(a) + ":" + std::to_string(static_cast<int>(d)); }
    }
    return "value " + std::to_string(x);
}
static T num(std::string const &w) {
    auto c = w.find(':');
    return P(std::stoi(w.substr(0, c)), std::stoi(w.substr(c + 1)));
}
struct R { T first, last; };
constexpr R ranges[] = {
    {P(M, 0), P(M, 5)}, {P(M, 5), P(M, 0)}, {P(M, 3), P(M, 4)}, {P(M, 4), P(M, 3)}, {P(M, 2), P(M, 2)}, {P(M, -3), P(M, 4)},
    {P(M, 4), P(M, -3)}, {Min, T(Min + 3)}, {T(Min + 3), Min}, {T(Max - 3), Max}, {Max, T(Max - 3)}, {Min, Min},
    {Max, Max}, {Min, T(Min + 1)}, {Max, T(Max - 1)}, {P(M, -1), P(M, 1)}, {P(M, 1), P(M, -9)}, {P(M, -9), P(M, 1)}};
constexpr size_t NR = std::size(ranges);
template<class F> static std::string pick(size_t i, F f) {
    std::string r;
    [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? void(r = f(std::integral_constant<size_t, I>{})) : void()), ...); }(std::make_index_sequence<NR>{});
    return r;
}
#endif
