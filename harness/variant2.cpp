#include <dice/template-library/variant2.hpp>
#include "mbt.hpp"
#include <map>
#include <memory>
#include <set>
namespace dtl = dice::template_library;

// ---------------------------------------------------------------- tracked element types
static std::map<void const *, int> live; // address -> type id of live tracked objects
static int errors = 0;
static int fault = 0;                    // throw at the fault-th throwing operation (0: never)
struct Boom {};
static void born(void const *p, int id) { if (!live.emplace(p, id).second) ++errors; }
static void died(void const *p, int id) { auto it = live.find(p); if (it == live.end() || it->second != id) ++errors; else live.erase(it); }
static void used(void const *p, int id) { auto it = live.find(p); if (it == live.end() || it->second != id) ++errors; }
static void point() { if (fault > 0 && --fault == 0) throw Boom{}; }

struct TagV {};
inline constexpr TagV tagv{};
static constexpr int MOVED = 9;

enum K { triv, full, noex, atriv, cctor, conly, nmove, monly };
template<int id, K k> struct E;
template<int id> struct E<id, triv> {
    int x = 0; int pad = 7;
    E() = default;
    E(TagV, int v) noexcept : x(v) {}
};
template<int id> struct E<id, full> {
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) : x(v) { point(); born(this, id); }
    E(E const &o) : x(o.x) { used(&o, id); point(); born(this, id); }
    E(E &&o) : x(o.x) { used(&o, id); point(); o.x = MOVED; born(this, id); }
    E &operator=(E const &o) { used(this, id); used(&o, id); point(); x = o.x; return *this; }
    E &operator=(E &&o) { used(this, id); used(&o, id); point(); int t = o.x; o.x = MOVED; x = t; return *this; }
    ~E() { died(this, id); }
};
template<int id> struct E<id, noex> {
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) noexcept : x(v) { born(this, id); }
    E(E const &o) noexcept : x(o.x) { used(&o, id); born(this, id); }
    E(E &&o) noexcept : x(o.x) { used(&o, id); o.x = MOVED; born(this, id); }
    E &operator=(E const &o) noexcept { used(this, id); used(&o, id); x = o.x; return *this; }
    E &operator=(E &&o) noexcept { used(this, id); used(&o, id); int t = o.x; o.x = MOVED; x = t; return *this; }
    ~E() { died(this, id); }
};
template<int id> struct E<id, atriv> { // only assignment is trivial
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) : x(v) { point(); born(this, id); }
    E(E const &o) : x(o.x) { used(&o, id); point(); born(this, id); }
    E(E &&o) : x(o.x) { used(&o, id); point(); o.x = MOVED; born(this, id); }
    E &operator=(E const &o) = default;
    E &operator=(E &&o) = default;
    ~E() { died(this, id); }
};
template<int id> struct E<id, cctor> { // only copy/move construction is non-trivial
    int x = 0;
    E() noexcept {}
    E(TagV, int v) : x(v) { point(); }
    E(E const &o) : x(o.x) { point(); }
    E(E &&o) : x(o.x) { point(); o.x = MOVED; }
    E &operator=(E const &o) = default;
    E &operator=(E &&o) = default;
};
template<int id> struct E<id, conly> { // no move operations of its own
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) : x(v) { point(); born(this, id); }
    E(E const &o) : x(o.x) { used(&o, id); point(); born(this, id); }
    E &operator=(E const &o) { used(this, id); used(&o, id); point(); x = o.x; return *this; }
    ~E() { died(this, id); }
};
template<int id> struct E<id, nmove> {
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) : x(v) { point(); born(this, id); }
    E(E const &o) : x(o.x) { used(&o, id); point(); born(this, id); }
    E(E &&o) noexcept : x(o.x) { used(&o, id); o.x = MOVED; born(this, id); }
    E &operator=(E const &o) { used(this, id); used(&o, id); point(); x = o.x; return *this; }
    E &operator=(E &&o) noexcept { used(this, id); used(&o, id); int t = o.x; o.x = MOVED; x = t; return *this; }
    ~E() { died(this, id); }
};
template<int id> struct E<id, monly> {
    int x = 0;
    E() noexcept { born(this, id); }
    E(TagV, int v) : x(v) { point(); born(this, id); }
    E(E &&o) : x(o.x) { used(&o, id); point(); o.x = MOVED; born(this, id); }
    E &operator=(E &&o) { used(this, id); used(&o, id); point(); int t = o.x; o.x = MOVED; x = t; return *this; }
    ~E() { died(this, id); }
};
template<K k> constexpr bool tracked = k != triv && k != cctor;
template<K k> constexpr bool copyable = k != monly;

// ---------------------------------------------------------------- the system under test
template<K ka, K kb>
struct Sys {
    using A = E<1, ka>;
    using B = E<2, kb>;
    using V = dtl::variant2<A, B>;
    std::unique_ptr<V> v[3];

    std::string show(V &x) {
        auto num = [](int n) { return n == MOVED ? std::string("M") : std::to_string(n); };
        std::string r;
        if (x.valueless_by_exception()) {
            if (x.index() != std::variant_npos || dtl::get_if<0>(&x) || dtl::get_if<1>(&x)) return "bad-valueless";
            return "N";
        }
        if (x.index() == 0) {
            A *p = dtl::get_if<0>(&x);
            if (!p || dtl::get_if<1>(&x)) return "A-null";
            if (tracked<ka> && (!live.count(p) || live[p] != 1)) return "A-dead";
            return "A" + num(p->x);
        }
        if (x.index() == 1) {
            B *p = dtl::get_if<1>(&x);
            if (!p || dtl::get_if<0>(&x)) return "B-null";
            if (tracked<kb> && (!live.count(p) || live[p] != 2)) return "B-dead";
            return "B" + num(p->x);
        }
        return "bad-index";
    }
    size_t expected_live() {
        size_t n = 0;
        for (int i = 1; i <= 2; ++i) n += (v[i]->index() == 0 && tracked<ka>) + (v[i]->index() == 1 && tracked<kb>);
        return n;
    }
    void reset() {
        fault = 0; errors = 0;
        v[1].reset(); v[2].reset();
        live.clear(); errors = 0;
        v[1] = std::make_unique<V>(); v[2] = std::make_unique<V>();
    }
    template<class T> void make(int i, std::string const &form, int x, bool arm) {
        constexpr size_t ix = std::is_same_v<T, A> ? 0 : 1;
        if (form == "type") { if (arm) fault = 1; v[i] = std::make_unique<V>(std::in_place_type<T>, tagv, x); }
        else if (form == "index") { if (arm) fault = 1; v[i] = std::make_unique<V>(std::in_place_index<ix>, tagv, x); }
        else {
            T t{tagv, x};
            if (arm) fault = 1;
            if (form == "mv") v[i] = std::make_unique<V>(std::move(t));
            else if constexpr (std::is_copy_constructible_v<T>) v[i] = std::make_unique<V>(std::as_const(t));
        }
    }
    template<class T> void set(int i, bool copy, int x, bool arm) {
        T t{tagv, x};
        if (arm) fault = 1;
        if (!copy) *v[i] = std::move(t);
        else if constexpr (std::is_copy_constructible_v<T>) *v[i] = std::as_const(t);
    }
    template<class T> bool emp(int i, bool type, int x) {
        constexpr size_t ix = std::is_same_v<T, A> ? 0 : 1;
        T *p = type ? &v[i]->template emplace<T>(tagv, x) : &v[i]->template emplace<ix>(tagv, x);
        return p == dtl::get_if<T>(v[i].get());
    }
    std::string exec(mbt::Cmd const &c) {
        std::string op = c.op();
        bool arm = op[0] == '!';
        if (arm) op = op.substr(1);
        std::string res = "ok";
        fault = 0;
        try {
            if (op == "new") {
                int i = c.i(1);
                if (c.s(2) == "def") v[i] = std::make_unique<V>();
                else if (c.s(3) == "A") make<A>(i, c.s(2), c.i(4), arm);
                else make<B>(i, c.s(2), c.i(4), arm);
            } else if (op == "newc" || op == "asg") {
                if constexpr (copyable<ka> && copyable<kb>) {
                    if (arm) fault = 1;
                    if (op == "newc") v[c.i(1)] = std::make_unique<V>(std::as_const(*v[c.i(2)]));
                    else { V &r = (*v[c.i(1)] = std::as_const(*v[c.i(2)])); if (&r != v[c.i(1)].get()) res = "bad-ref"; }
                }
            } else if (op == "newm") { if (arm) fault = 1; auto p = std::make_unique<V>(std::move(*v[c.i(2)])); fault = 0; v[c.i(1)] = std::move(p); }
            else if (op == "masg") { if (arm) fault = 1; V &r = (*v[c.i(1)] = std::move(*v[c.i(2)])); if (&r != v[c.i(1)].get()) res = "bad-ref"; }
            else if (op == "setc" || op == "setm") {
                if (c.s(2) == "A") set<A>(c.i(1), op == "setc", c.i(3), arm); else set<B>(c.i(1), op == "setc", c.i(3), arm);
            } else if (op == "emt" || op == "emi") {
                if (arm) fault = 1;
                bool ok = c.s(2) == "A" ? emp<A>(c.i(1), op == "emt", c.i(3)) : emp<B>(c.i(1), op == "emt", c.i(3));
                if (!ok) res = "bad-ref";
            } else if (op == "swap") { swap(*v[1], *v[2]); }
            else if (op == "swapt") {
                fault = c.i(1);
                try { swap(*v[1], *v[2]); } catch (Boom const &) {}
                fault = 0;
                for (int i = 1; i <= 2; ++i) { auto t = show(*v[i]); if (t != "N" && t.size() != 2) res = t; }
                if (tracked<ka> || tracked<kb>) if (live.size() != expected_live()) res = "unbalanced";
                v[1]->template emplace<A>(tagv, 0);
                v[2]->template emplace<B>(tagv, 1);
            } else throw mbt::HarnessError("unknown op " + op);
        } catch (Boom const &) { res = "thr"; }
        fault = 0;
        std::string r = res + "|" + show(*v[1]) + "|" + show(*v[2]);
        if (errors) r += "|lifetime-error";
        else if (live.size() != expected_live()) r += mbt::cat("|live=", live.size());
        return r;
    }
    std::string finish() {
        v[1].reset(); v[2].reset();
        std::string r;
        if (errors) r = "lifetime error";
        else if (!live.empty()) r = mbt::cat(live.size(), " object(s) never destroyed");
        live.clear();
        return r;
    }
};

template<K ka, K kb> int go(int argc, char **argv) {
    Sys<ka, kb> sys;
    return mbt::run(argc, argv, {[&] { sys.reset(); }, [&](mbt::Cmd const &c) { return sys.exec(c); }, [&] { return sys.finish(); }});
}
int main(int argc, char **argv) { return go<KA, KB>(argc, argv); }
