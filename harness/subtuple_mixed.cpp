// Known finding C26/C27 subtuple-mixed-alignment: exit code 1 while a prefix sub-tuple refers to other memory than the tuple's elements.
#include <dice/template-library/standard_layout_tuple.hpp>
#include <cstdio>
using namespace dice::template_library;
int main() {
    standard_layout_tuple<char, char, long> t{individual_construct, 'a', 'b', 3l};
    auto &s = t.subtuple<0, 2>();
    return !(&s.get<0>() == &t.get<0>() && &s.get<1>() == &t.get<1>());
}
