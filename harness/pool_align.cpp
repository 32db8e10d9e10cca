// probe of a known limitation: alignment of the blocks
#include <dice/template-library/pool_allocator.hpp>
#include <cstdint>
#include <cstdio>
template<class T, size_t... B> bool misaligned() {
    dice::template_library::pool_allocator<T, B...> a;
    bool bad = false;
    T *p[6];
    for (auto &q : p) { q = a.allocate(1); bad |= reinterpret_cast<uintptr_t>(q) % alignof(T) != 0; }
    for (auto *q : p) a.deallocate(q, 1);
    return bad;
}
struct alignas(64) Wide { char c[64]; };
int main() { return misaligned<long double, 24>() || misaligned<Wide, 8>() || misaligned<Wide, 64>(); }
