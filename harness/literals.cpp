// Replays specs/Literals.tla on the literals of stdint.hpp.
#include "mbt.hpp"
#include <dice/template-library/stdint.hpp>
using mbt::Cmd;
using namespace dice::template_library::literals;
#define NUMBERS(X) X(0000000000000000) X(0000000000000001) X(0000000000000005) X(000000000000000f) X(0000000000000070) X(000000000000007f) X(0000000000000080) X(000000000000008f) X(00000000000000f0) X(00000000000000ff) X(0000000000000fff) X(0000000000007000) X(0000000000007fff) X(0000000000008000) X(0000000000008fff) X(000000000000f000) X(000000000000ffff) X(000000000fffffff) X(0000000070000000) X(000000007fffffff) X(0000000080000000) X(000000008fffffff) X(00000000f0000000) X(00000000ffffffff) X(0fffffffffffffff) X(7000000000000000) X(7fffffffffffffff) X(8000000000000000) X(8fffffffffffffff) X(f000000000000000) X(ffffffff00000000) X(ffffffff0fffffff) X(ffffffff70000000) X(ffffffff7fffffff) X(ffffffff80000000) X(ffffffff8fffffff) X(fffffffff0000000) X(ffffffffffff0000) X(ffffffffffff0fff) X(ffffffffffff7000) X(ffffffffffff7fff) X(ffffffffffff8000) X(ffffffffffff8fff) X(fffffffffffff000) X(ffffffffffffff00) X(ffffffffffffff0f) X(ffffffffffffff70) X(ffffffffffffff7f) X(ffffffffffffff80) X(ffffffffffffff8f) X(fffffffffffffff0) X(ffffffffffffffff)
template<class T> std::string type() {
    std::string s;
    if (std::is_same_v<T, uint8_t>) s += "u8 "; if (std::is_same_v<T, int8_t>) s += "i8 "; if (std::is_same_v<T, uint16_t>) s += "u16 "; if (std::is_same_v<T, int16_t>) s += "i16 ";
    if (std::is_same_v<T, uint32_t>) s += "u32 "; if (std::is_same_v<T, int32_t>) s += "i32 "; if (std::is_same_v<T, uint64_t>) s += "u64 "; if (std::is_same_v<T, int64_t>) s += "i64 ";
    if (std::is_same_v<T, size_t>) s += "usize "; if (std::is_same_v<T, ptrdiff_t>) s += "isize "; if (std::is_same_v<T, uintptr_t>) s += "uptr "; if (std::is_same_v<T, intptr_t>) s += "iptr ";
    return s; // all names of the type
}
static std::map<std::string, std::string> table;
template<class T> void enter(std::string const &suffix, std::string const &digits, T v) {
    auto names = type<T>();
    char buf[32];
    std::snprintf(buf, sizeof buf, "%016llx", std::is_signed_v<T> ? (unsigned long long)(long long)(v) : (unsigned long long)(v));
    bool named = (" " + names).find(" " + suffix + " ") != names.npos;
    table[suffix + " " + digits] = (named ? suffix : "another type: " + names) + " " + buf;
}
#define ENTER(n, suffix) { constexpr auto v = 0x##n##_##suffix; static_assert(noexcept(0x##n##_##suffix)); enter(#suffix, #n, v); }
#define ALL(n) ENTER(n, u8) ENTER(n, i8) ENTER(n, u16) ENTER(n, i16) ENTER(n, u32) ENTER(n, i32) ENTER(n, u64) ENTER(n, i64) ENTER(n, usize) ENTER(n, isize) ENTER(n, uptr) ENTER(n, iptr)
int main(int argc, char **argv) {
    NUMBERS(ALL)
    mbt::Harness h;
    h.leak_check = false;
    h.reset = [] {};
    h.exec = [](Cmd const &c) -> std::string { return table.at(c.s(1) + " " + c.s(2)); };
    return mbt::run(argc, argv, h);
}
