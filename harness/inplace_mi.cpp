// probe of a known limitation: the base subobject is not at the start of the derived object
#include <dice/template-library/inplace_polymorphic.hpp>
#include <cstdio>
struct Base { virtual int f() const = 0; virtual ~Base() = default; };
struct Front { virtual int g() const { return 13; } virtual ~Front() = default; long a = 1; };
struct D : Front, Base { int f() const override { return 7; } };
int main() {
    dice::template_library::inplace_polymorphic<Base, D> p{std::in_place_type<D>};
    D d;
    auto off = reinterpret_cast<char *>(static_cast<Base *>(&d)) - reinterpret_cast<char *>(&d);
    auto got = reinterpret_cast<char *>(&p.get()) - reinterpret_cast<char *>(&p);
    std::_Exit(got == off ? 0 : 1);
}
