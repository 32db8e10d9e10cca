// Replays histories of specs/Ipow.tla on ipow for result type TT and exponent type EE.
#include "mbt.hpp"
#include <dice/template-library/ipow.hpp>
#include <charconv>
#include <limits>
#include <stdexcept>
using mbt::Cmd;
#ifndef TT
#define TT int
#endif
#ifndef EE
#define EE int
#endif
using T = TT;
using E = EE;
template<class X> static X num(std::string const &w) {
    if (w == "max") return std::numeric_limits<X>::max();
    if (w == "max-1") return static_cast<X>(std::numeric_limits<X>::max() - 1);
    if (w == "min") return std::numeric_limits<X>::min();
    if (auto at = w.find("2^"); at != std::string::npos) { // [-]2^k(+|-)d
        auto sign = w.find_first_of("+-", at);
        long long const d = std::stoll(w.substr(sign));
        unsigned __int128 const m = (static_cast<unsigned __int128>(1) << std::stoi(w.substr(at + 2, sign - at - 2))) + static_cast<unsigned __int128>(d);
        X const x = static_cast<X>(w[0] == '-' ? -static_cast<__int128>(m) : static_cast<__int128>(m));
        if (static_cast<__int128>(x) != (w[0] == '-' ? -static_cast<__int128>(m) : static_cast<__int128>(m))) throw mbt::HarnessError{"exponent " + w};
        return x;
    }
    X x{};
    auto r = std::from_chars(w.data(), w.data() + w.size(), x);
    if (r.ec != std::errc{} || r.ptr != w.data() + w.size()) throw mbt::HarnessError{"number " + w};
    return x;
}
static_assert(std::is_same_v<decltype(dice::template_library::ipow(T{2}, E{3})), T>);
static_assert(dice::template_library::ipow(T{2}, E{3}) == 8);
int main(int argc, char **argv) {
    mbt::Harness h;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string {
        T b = num<T>(c.s(1));
        E e = num<E>(c.s(2));
        try { return std::to_string(dice::template_library::ipow(b, e)); }
        catch (std::overflow_error const &) { return "overflow_error"; }
        catch (std::underflow_error const &) { return "underflow_error"; }
    };
    return mbt::run(argc, argv, h);
}
