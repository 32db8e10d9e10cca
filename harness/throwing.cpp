// Replays histories of specs/Throwing.tla: user code that throws while an operation of the library (of property PROP) runs.
#include "mbt.hpp"
#include <dice/template-library/channel.hpp>
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/flex_array.hpp>
#include <dice/template-library/fmt_join.hpp>
#include <dice/template-library/for.hpp>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/limit_allocator.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/next_to_range.hpp>
#include <dice/template-library/opt_minmax.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <dice/template-library/ranges.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/type_list.hpp>
#include <dice/template-library/variant2.hpp>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using mbt::Cmd;
using mbt::cat;
namespace dtl = dice::template_library;

// ---- user code: every call is counted while an operation runs; the armed one throws
struct Boom { int call; }; // not derived from std::exception
static bool running = false;
static int calls = 0, armed = 0, live = 0;
static void user() {
    if (!running) return;
    if (++calls == armed) throw Boom{calls};
}
struct Obj {
    int v = 0;
    Obj() { ++live; }
    Obj(int x) : v(x) { user(); ++live; }
    Obj(Obj const &o) : v(o.v) { user(); ++live; }
    Obj(Obj &&o) : v(o.v) { user(); ++live; }
    Obj &operator=(Obj const &o) { user(); v = o.v; return *this; }
    Obj &operator=(Obj &&o) { user(); v = o.v; return *this; }
    ~Obj() { --live; }
    friend bool operator==(Obj const &a, Obj const &b) { user(); return a.v == b.v; }
    friend std::strong_ordering operator<=>(Obj const &a, Obj const &b) { user(); return a.v <=> b.v; }
};
struct Other : Obj { using Obj::Obj; friend bool operator==(Other const &a, Other const &b) = default; friend std::strong_ordering operator<=>(Other const &, Other const &) = default; };
template<> struct std::hash<Obj> { size_t operator()(Obj const &o) const { user(); return size_t(o.v); } };
template<> struct std::hash<Other> : std::hash<Obj> {};
template<> struct std::formatter<Obj> {
    constexpr auto parse(auto &c) { if (!std::is_constant_evaluated()) user(); auto it = c.begin(); while (it != c.end() && *it != '}') ++it; return it; }
    auto format(Obj const &o, auto &c) const { user(); return std::format_to(c.out(), "{}", o.v); }
};
template<> struct std::formatter<Other> : std::formatter<Obj> {};
template<int N> struct Num : Obj { using Obj::Obj; friend bool operator==(Num const &, Num const &) = default; friend std::strong_ordering operator<=>(Num const &, Num const &) = default; };
struct Under { // elements lo+1 .. hi
    using value_type = int;
    int lo = 0, hi;
    explicit Under(int n) : hi(n) {}
    std::optional<int> next() { user(); if (lo >= hi) return std::nullopt; return ++lo; }
    std::optional<int> next_back() { user(); if (lo >= hi) return std::nullopt; return hi--; }
    std::optional<int> nth(size_t off) { user(); if (off >= size_t(hi - lo)) { lo = hi; return std::nullopt; } lo += int(off); return ++lo; }
    std::optional<int> nth_back(size_t off) { user(); if (off >= size_t(hi - lo)) { hi = lo; return std::nullopt; } hi -= int(off); return hi--; }
    size_t remaining() const noexcept { return size_t(hi - lo); }
};
struct It { // an iterator whose operations are user code
    using value_type = Obj; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
    Obj const *p = nullptr;
    Obj const &operator*() const { user(); return *p; }
    It &operator++() { user(); ++p; return *this; }
    It operator++(int) { user(); It o = *this; ++p; return o; }
    bool operator==(It const &o) const { user(); return p == o.p; }
};
template<class T> struct Alloc { // a user's allocator
    using value_type = T;
    Alloc() = default;
    template<class U> Alloc(Alloc<U> const &) noexcept {}
    T *allocate(size_t n) { user(); return std::allocator<T>{}.allocate(n); }
    void deallocate(T *p, size_t n) noexcept { std::allocator<T>{}.deallocate(p, n); }
    template<class U> bool operator==(Alloc<U> const &) const noexcept { return true; }
};

using F = std::function<void()>;
static std::map<std::string, std::function<void(F const &)>> ops; // an operation sets up, tells that it starts, and runs
static std::map<std::string, bool> claims; // does the type system say that it does not throw?
#define STRIP(...) __VA_ARGS__
#define OP(name, setup, ...) ops[name] = [](F const &start) { STRIP setup; start(); __VA_ARGS__; }

[[maybe_unused]] static void check(bool ok) { if (!ok) throw mbt::HarnessError{"result of the operation"}; }

#if PROP == 9
static void declare() {
    using L = dtl::limit_allocator<int, Alloc>;
    OP("foreign", (L l{size_t(8)}), int *p = l.allocate(2); running = false; l.deallocate(p, 2));
    ops["foreignconstruct"] = [](F const &start) { // the budget is unaffected
        L l{size_t(8)};
        start();
        try { int *p = l.allocate(2); l.deallocate(p, 2); }
        catch (Boom const &) { running = false; int *p = l.allocate(2); l.deallocate(p, 2); throw; }
    };
}
#elif PROP == 11
static void declare() {
    OP("foreign", (dtl::polymorphic_allocator<int, Alloc, std::allocator> p{std::in_place_type<Alloc<int>>}), auto x = p.allocate(2); running = false; p.deallocate(x, 2));
    OP("foreignoffset", (dtl::offset_ptr_stl_allocator<int, Alloc> p{}), auto x = p.allocate(2); running = false; p.deallocate(x, 2));
}
#elif PROP == 13
static void declare() {
    using V = dtl::variant2<Obj, Other>;
#define TWO V a{std::in_place_type<Obj>, 1}; V b{std::in_place_type<Obj>, 1}
    OP("visit", (TWO), check(visit([](auto &o) { user(); return o.v; }, a) == 1));
    OP("visitvoid", (TWO), visit([](auto const &) { user(); }, std::as_const(a)));
    OP("eq", (TWO), check(a == b));
    OP("ne", (TWO), check(!(a != b)));
    OP("order", (TWO), check((a <=> b) == 0));
    OP("less", (TWO), check(!(a < b)));
    OP("format", (TWO), check(std::format("{}", a).contains("1")));
    claims = {{"eq", noexcept(std::declval<V const &>() == std::declval<V const &>())}, {"order", noexcept(std::declval<V const &>() <=> std::declval<V const &>())},
              {"visit", noexcept(visit([](auto &) { user(); }, std::declval<V &>()))}, {"copy", std::is_nothrow_copy_constructible_v<V>}, {"move", std::is_nothrow_move_constructible_v<V>},
              {"assign", std::is_nothrow_copy_assignable_v<V> || std::is_nothrow_move_assignable_v<V>}, {"emplace", noexcept(std::declval<V &>().emplace<Obj>(1))}};
}
#elif PROP == 17
template<class A> static void declare_for(std::string const &m) {
    static std::vector<Obj> const *src; // three elements
    static std::vector<Obj> const three{1, 2, 3};
    src = &three;
#define TWOA A a(src->begin(), src->end()); A b(src->begin(), src->end())
    OP("copy-" + m, (TWOA), A c(a); check(c[2].v == 3));
    OP("assign-" + m, (TWOA), a = b; check(a[0].v == 1));
    OP("eq-" + m, (TWOA), check(a == b));
    OP("ne-" + m, (TWOA), check(!(a != b)));
    OP("order-" + m, (TWOA), check((a <=> b) == 0));
    OP("less-" + m, (TWOA), check(!(a < b)));
    if (m != "dynamic") { OP("swap-" + m, (TWOA), using std::swap; swap(a, b)); } // elements of a vector are not touched
    else { OP("swap-" + m, (TWOA), using std::swap; swap(a, b); user()); }
    OP("list-" + m, (), (A{1, 2, 3}));
    OP("iterators-" + m, (), A(src->begin(), src->end()));
}
static void declare() {
    using S = dtl::flex_array<Obj, 3>; using L = dtl::flex_array<Obj, dtl::dynamic_extent, 4>; using D = dtl::flex_array<Obj, dtl::dynamic_extent>;
    declare_for<S>("static"); declare_for<L>("limited"); declare_for<D>("dynamic");
    OP("todynamic-limited", (S a{1, 2, 3}), L l(a); check(l.size() == 3 && l[2].v == 3));
    OP("todynamic-dynamic", (S a{1, 2, 3}), D l(a); check(l.size() == 3 && l[2].v == 3));
    OP("tostatic", (D a{1, 2, 3}), S l(a); check(l[2].v == 3));
    [&]<class... A>(std::pair<char const *, A *>... p) {
        ((claims[cat("eq-", p.first)] = noexcept(std::declval<A const &>() == std::declval<A const &>()), claims[cat("order-", p.first)] = noexcept(std::declval<A const &>() <=> std::declval<A const &>()),
          claims[cat("copy-", p.first)] = std::is_nothrow_copy_constructible_v<A>, claims[cat("assign-", p.first)] = std::is_nothrow_copy_assignable_v<A>), ...);
    }(std::pair{"static", (S *) nullptr}, std::pair{"limited", (L *) nullptr}, std::pair{"dynamic", (D *) nullptr});
    claims["move-static"] = std::is_nothrow_move_constructible_v<S> || std::is_nothrow_move_assignable_v<S>;
    claims["swap-static"] = std::is_nothrow_swappable_v<S>;
    claims["todynamic"] = std::is_nothrow_constructible_v<D, S const &> || std::is_nothrow_constructible_v<L, S const &>;
    claims["tostatic"] = std::is_nothrow_constructible_v<S, D const &>;
}
#elif PROP == 19
static void declare() {
    using I = dtl::next_to_iter<Under>; using B = dtl::next_back_to_reverse_iter<Under>; using R = dtl::next_to_range<Under>; using V = dtl::next_to_view<Under>;
    OP("begin", (R r(3)), check(*r.begin() == 1));
    OP("walk", (R r(3)), int n = 0; for (int x : r) n += x; check(n == 6));
    OP("postfix", (I i(3)), check(*i++ == 1 && *i == 2));
    OP("peek", (I i(3)), check(i.peek() == 2 && *i == 1));
    OP("reverse", (B i(3)), ++i; check(*i == 2 && i.peek() == 1));
    OP("nth", (I i(9)), i += 3; check(*i == 4));
    OP("front", (V v(Under(3))), check(v.front() == 1));
    OP("back", (V v(Under(3))), check(v.back() == 3));
    OP("index", (V v(Under(3))), check(v[1] == 2));
    OP("viewwalk", (V v(Under(3))), int n = 0; for (int x : v.reversed()) n += x; check(n == 6));
}
#elif PROP == 20
struct Cnt : Obj { // counts up and down
    using Obj::Obj;
    Cnt &operator+=(Cnt const &o) { user(); v += o.v; return *this; }
    friend Cnt operator+(Cnt const &a, Cnt const &b) { user(); Cnt r(a); r.v += b.v; return r; }
    friend bool operator==(Cnt const &, Cnt const &) = default;
    friend std::strong_ordering operator<=>(Cnt const &a, Cnt const &b) { user(); return a.v <=> b.v; }
};
static void declare() {
    OP("make", (Cnt a(1); Cnt b(4); Cnt st(1)), auto r = dtl::range<Cnt>(a, b, st); (void) r);
    OP("walk", (Cnt a(1); Cnt b(4); Cnt st(1); auto r = dtl::range<Cnt>(a, b, st)), int n = 0; for (auto const &x : r) n += x.v; check(n == 6));
    OP("copy", (Cnt a(4); Cnt b(1); Cnt st(-1); auto r = dtl::range<Cnt>(a, b, st)), auto q = r; int n = 0; for (auto i = q.begin(); i != q.end(); ) { auto o = i++; n += o->v; } check(n == 9));
    OP("default", (), auto r = dtl::range<Cnt>(Cnt(3)); int n = 0; for (auto const &x : r) n += x.v; check(n == 3));
}
#elif PROP == 21
static void declare() {
    using Vec = std::vector<Obj>;
    static auto const eq = [](Obj const &a, Obj const &b) { user(); return a.v == b.v; };
    static auto const lt = [](Obj const &a, Obj const &b) { user(); return a.v < b.v; };
    OP("all_equal", (Vec v{1, 1, 1}), check(dtl::all_equal(v)));
    OP("all_distinct", (Vec v{1, 2, 3}), check(dtl::all_distinct(v)));
    OP("all_distinct_sorted", (Vec v{1, 2, 3}), check(dtl::is_sorted_unique(v, lt)));
    OP("is_sorted_unique", (Vec v{1, 2, 3}), check(dtl::is_sorted_unique(v)));
    OP("remove_element", (Vec v{1, 2, 3}; Obj two(2)), int n = 0; for (auto &x : v | dtl::remove_element(two)) n += x.v; check(n == 4));
    OP("unique", (Vec v{1, 2, 1}), int n = 0; for (auto &x : v | dtl::unique) n += x.v; check(n == 3));
    OP("lex", (Vec v{1, 2, 3}; Vec w{1, 2, 3}), check(dtl::lexicographical_compare_three_way(v, w) == 0));
    OP("pipe", (Vec v{1, 1, 1}), check(v | dtl::all_equal(eq)));
    OP("element", (Vec v{1, 1, 1}), check((v | dtl::all_equal()) && (v | dtl::all_of([](Obj const &o) { user(); return o.v == 1; }))));
    OP("hash", (Vec v{1, 2, 3}), check(v | dtl::all_distinct(eq)));
    OP("projection", (Vec v{1, 2, 3}), check(dtl::is_sorted_unique(v, std::less<>{}, [](Obj const &o) { user(); return o.v; })));
    OP("iterator", (Vec v{1, 2, 3}; It f{v.data()}; It l{v.data() + 3}), check(dtl::is_sorted_unique(f, l) && !dtl::all_equal(f, l) && !dtl::empty(std::ranges::subrange(f, l))));
}
#elif PROP == 22
static void declare() {
    using O = std::optional<Obj>;
    static auto const lt = [](Obj const &a, Obj const &b) { user(); return a.v < b.v; };
    OP("min", (O a(1); O b(2)), check(dtl::opt_min(a, b)->v == 1));
    OP("max", (O a(1); O b(2); std::vector<O> v{a, std::nullopt, b}), check(dtl::opt_max_element(v)->v == 2 && dtl::opt_minmax_element(v)->max.v == 2));
    OP("compare", (O a(1); O b(2); std::vector<O> v{a, std::nullopt, b}), check(dtl::opt_min(a, b, lt)->v == 1 && dtl::opt_max(a, b, lt)->v == 2 && dtl::opt_min_element(v, lt)->v == 1));
}
#elif PROP == 25
static void declare() {
    static int n;
    OP("for_types", (n = 0), (dtl::for_types<int, char, int>([]<class T>() { user(); ++n; })); check(n == 3));
    OP("for_values", (n = 0), (dtl::for_values<1, 'c', 3u>([](auto) { user(); ++n; })); check(n == 3));
    OP("for_range", (n = 0), (dtl::for_range<2, 6>([](auto) { user(); ++n; })); check(n == 4));
    OP("for_rangedown", (n = 0), (dtl::for_range<1, -2>([](auto) { user(); ++n; })); check(n == 3));
    OP("switch", (n = 0), check(dtl::switch_cases<2, 5>(3, [](auto i) { user(); return int(i); }, [] { return -1; }) == 3));
    OP("switchfallback", (n = 0), check(dtl::switch_cases<2, 5>(7, [](auto i) { return int(i); }, [] { user(); return -1; }) == -1));
    OP("switchupto", (n = 0), check(dtl::switch_cases<5>(0, [](auto i) { user(); return int(i); }, [] { return -1; }) == 0));
    OP("switchnofallback", (n = 0), check(dtl::switch_cases<5>(4, [](auto i) { user(); return int(i); }) == 4));
    OP("bool", (n = 0), check(dtl::switch_bool(true, [](auto i) { user(); return int(i); }) == 1));
    auto f = [](auto...) { user(); return 1; };
    auto g = []<class>() { user(); };
    claims = {{"for_types", noexcept(dtl::for_types<int, char>(g))}, {"for_values", noexcept(dtl::for_values<1, 2>(f))}, {"for_range", noexcept(dtl::for_range<1, 3>(f))},
              {"switch", noexcept(dtl::switch_cases<1, 3>(1, f, f))}, {"bool", noexcept(dtl::switch_bool(true, f))}};
}
#elif PROP == 26
static void declare() {
    using T = dtl::integral_template_tuple<2, 5, Num>; using V = dtl::integral_template_variant<2, 5, Num>;
#define TT2 T a(dtl::uniform_construct, 1); T b(dtl::uniform_construct, 1)
#define VV2 V a{Num<3>(1)}; V b{Num<3>(1)}
    OP("make", (), T t(dtl::uniform_construct, 1));
    OP("copy", (TT2), T t(a));
    OP("move", (TT2), T t(std::move(a)));
    OP("assign", (TT2), a = b);
    OP("eq", (TT2), check(a == b));
    OP("order", (TT2), check((a <=> b) == 0));
    ops["vmake"] = [](F const &start) { Num<3> n(1); start(); V v(n); };
    OP("vcopy", (VV2), V v(a));
    OP("vassign", (VV2), a = b; a.emplace<4>(7));
    OP("veq", (VV2), check(a == b));
    OP("vorder", (VV2), check((a <=> b) == 0));
    OP("vvisit", (VV2), check(a.visit([](auto const &o) { user(); return o.v; }) == 1));
    auto f = [](auto &&) { user(); };
    claims = {{"eq", noexcept(std::declval<T const &>() == std::declval<T const &>())}, {"order", noexcept(std::declval<T const &>() <=> std::declval<T const &>())},
              {"copy", std::is_nothrow_copy_constructible_v<T>}, {"move", std::is_nothrow_move_constructible_v<T>},
              {"veq", noexcept(std::declval<V const &>() == std::declval<V const &>())}, {"vorder", noexcept(std::declval<V const &>() <=> std::declval<V const &>())},
              {"vcopy", std::is_nothrow_copy_constructible_v<V>}, {"vmove", std::is_nothrow_move_constructible_v<V>}, {"vassign", std::is_nothrow_copy_assignable_v<V> || std::is_nothrow_move_assignable_v<V>},
              {"vmake", std::is_nothrow_constructible_v<V, Num<3> const &> || std::is_nothrow_constructible_v<V, std::in_place_type_t<Num<3>>, int>}, {"vvisit", noexcept(std::declval<V &>().visit(f))}};
}
#elif PROP == 27
static void declare() {
    using T = dtl::standard_layout_tuple<Obj, Num<1>, Num<2>>;
#define TT2 T a(dtl::uniform_construct, 1); T b(dtl::uniform_construct, 1)
    OP("make", (), T t(dtl::individual_construct, 1, 2, 3));
    OP("copy", (TT2), T t(a));
    OP("move", (TT2), T t(std::move(a)));
    OP("assign", (TT2), a = b);
    OP("moveassign", (TT2), a = std::move(b));
    OP("eq", (TT2), check(a == b));
    OP("order", (TT2), check((a <=> b) == 0));
    OP("for_each", (TT2), dtl::tuple_for_each(a, [](auto &) { user(); }));
    OP("type_for_each", (TT2), dtl::tuple_type_for_each<T>([]<class>() { user(); }));
    OP("fold", (TT2), check(dtl::tuple_fold(a, 0, [](int n, auto const &o) { user(); return n + o.v; }) == 3));
    OP("type_fold", (TT2), check(dtl::tuple_type_fold<T>(0, []<class>(int n) { user(); return n + 1; }) == 3));
    auto f = [](auto &&) { user(); };
    auto g = [](int n, auto &&) { user(); return n; };
    auto h = []<class>(int n) { user(); return n; };
    claims = {{"eq", noexcept(std::declval<T const &>() == std::declval<T const &>())}, {"order", noexcept(std::declval<T const &>() <=> std::declval<T const &>())},
              {"copy", std::is_nothrow_copy_constructible_v<T>}, {"move", std::is_nothrow_move_constructible_v<T>}, {"assign", std::is_nothrow_copy_assignable_v<T>},
              {"for_each", noexcept(dtl::tuple_for_each(std::declval<T &>(), f))}, {"fold", noexcept(dtl::tuple_fold(std::declval<T &>(), 0, g))}, {"type_fold", noexcept(dtl::tuple_type_fold<T>(0, h))}};
}
#elif PROP == 28
static void declare() {
    using Vec = std::vector<Obj>;
    OP("format", (Vec v{1, 2, 3}), check(std::format("{}", dtl::fmt_join(v, ", ")) == "1, 2, 3"));
    OP("format_to", (Vec v{1, 2, 3}), std::string s; std::format_to(std::back_inserter(s), "{}", dtl::fmt_join(v, ',')); check(s == "1,2,3"));
    OP("width", (Vec v{1, 2, 3}), check(std::format("<{}>", dtl::fmt_join(v, std::string("-"))) == "<1-2-3>"));
    OP("iterator", (Vec v{1, 2}; It f{v.data()}; It l{v.data() + 2}), check(std::format("{}", dtl::fmt_join(std::ranges::subrange(f, l), " ")) == "1 2"));
    OP("parse", (Vec v{1, 2}; auto j = dtl::fmt_join(v, " ")), check(std::vformat("{:x}", std::make_format_args(j)) == "1 2"));
}
#elif PROP == 29
static void declare() {
    using L = dtl::type_list::type_list<int, char, int>;
    static int n;
    OP("for_each", (n = 0), dtl::type_list::for_each<L>([](auto) { user(); ++n; }); check(n == 3));
    OP("fold", (n = 0), check(dtl::type_list::fold<L>(0, [](int k, auto) { user(); return k + 1; }) == 3));
}
#elif PROP == 31
struct Object { void f(int, int) { user(); } auto bound() { return DICE_MEMFN(f, 1); } };
static void declare() {
    using V = std::variant<int, char>;
    OP("overloaded", (dtl::overloaded o{[](int) { user(); }, [](char) {}}), o(1));
    OP("match", (V v{1}), check(dtl::match(v, [](int) { user(); return 5; }, [](char) { return 6; }) == 5));
    OP("bindcall", (auto f = dtl::bind_front<[](int, int) { user(); }>(1)), f(2));
    OP("bindmake", (Obj a(1); Obj b(2)), auto f = dtl::bind_front<[](auto &&...) {}>(a, b); (void) f);
    OP("bindcopy", (Obj a(1); Obj b(2); auto f = dtl::bind_front<[](auto &&...) {}>(a, b)), auto g = f; (void) g);
    OP("memfn", (Object o), o.bound()(2));
    OP("dbg", (), (void) DICE_DBG((user(), 2)));
    OP("dbgformat", (Obj o(1)), (void) DICE_DBG(o));
    dtl::overloaded o{[](int) { user(); }, [](char) {}};
    auto b = dtl::bind_front<[](int, int) { user(); }>(1);
    auto bo = dtl::bind_front<[](auto &&...) {}>(Obj{});
    claims = {{"overloaded", noexcept(o(1))}, {"match", noexcept(dtl::match(std::declval<V &>(), [](int) { user(); }, [](char) {}))}, {"bindcall", noexcept(b(1))},
              {"bindcopy", std::is_nothrow_copy_constructible_v<decltype(bo)>}};
}
#endif

int main(int argc, char **argv) {
    declare();
    static std::ostringstream &sink = *new std::ostringstream; // outlives everything
    std::cerr.rdbuf(sink.rdbuf());
    mbt::Harness H;
    H.reset = [] {};
    // one run in which call k throws (0: none)
    auto one = [&](std::string const &name, int k) {
        if (!ops.contains(name)) throw mbt::HarnessError{"operation " + name};
        int const before = live;
        sink.str("");
        armed = k; calls = 0;
        std::string r = "returned";
        try { ops[name]([] { running = true; }); }
        catch (Boom const &b) { r = b.call == k ? "thrown to the caller" : "thrown"; }
        catch (mbt::HarnessError const &) { running = false; return std::string("another result"); }
        catch (...) { r = "another exception"; }
        running = false;
        if (live != before) return cat(live - before, " objects left");
        return r;
    };
    H.exec = [&](Cmd const &c) {
        auto const &name = c.op();
        if (name == "claim") {
            if (!claims.contains(c.s(1))) throw mbt::HarnessError{"claim " + c.s(1)};
            return std::string(claims[c.s(1)] ? "claims that it never throws" : "may throw");
        }
        std::string const w = c.n() > 1 ? c.s(1) : "";
        if (w == "none") return one(name, 0);
        if (w == "every") {
            one(name, 0);
            int const n = calls;
            if (n == 0) return std::string("no user code was called");
            for (int k = 1; k <= n; ++k) {
                auto r = one(name, k);
                if (r != "thrown to the caller") return cat("call ", k, " of ", n, ": ", r);
                if (calls != k) return cat("call ", k, " of ", n, ": went on after the exception");
                if (r = one(name, 0); r != "returned" || calls != n) return cat("after call ", k, " threw: ", r);
            }
            return std::string("thrown to the caller");
        }
        int const n = int(w.size());
        bool const t = w.ends_with('t');
        auto r = one(name, t ? n : 0);
        if (calls != n) return cat(r, " after ", calls, " calls");
        if (t) if (auto again = one(name, 0); again != "returned") return cat("second run: ", again);
        return r;
    };
    return mbt::run(argc, argv, H);
}
