#include <dice/template-library/inplace_polymorphic.hpp>
#include "mbt.hpp"
#include <map>
#include <memory>
#include <utility>
namespace dtl = dice::template_library;
#define KIND_full 1
#define KIND_noex 2
#define KIND_triv 3
#define KIND_conly 4
#define KIND_monly 5
#define KIND_mixed 6
#define CATX(a, b) a##b
#define CAT(a, b) CATX(a, b)
#define K CAT(KIND_, KIND)
constexpr bool has_copy = K != KIND_monly, has_move = K != KIND_conly, noex = K == KIND_noex, triv = K == KIND_triv;

struct Boom {};
static int fault = 0, errors = 0;
static std::map<void const *, char> live;
static void born(void const *p, char id) { if (!live.emplace(p, id).second) ++errors; }
static void died(void const *p, char id) { auto it = live.find(p); if (it == live.end() || it->second != id) ++errors; else live.erase(it); }
static void used(void const *p, char id) { auto it = live.find(p); if (it == live.end() || it->second != id) ++errors; }
static void point() { if (fault > 0 && --fault == 0) throw Boom{}; }

struct Base {
    virtual char id() const = 0;
    virtual int x() const = 0;
    virtual void set(int) = 0;
    virtual void const *addr() const = 0;
    virtual bool intact() const = 0;
#if K != KIND_monly
    virtual void copy_to(Base *dst) const noexcept(noex) = 0;
#endif
#if K != KIND_conly
    virtual void move_to(Base *dst) noexcept(noex) = 0;
#endif
#if K != KIND_triv
    virtual ~Base() = default;
#endif
};
template<char I, size_t Pad, size_t Align, bool NX> struct alignas(Align) D : Base {
    int v = 0;
    unsigned char fill[Pad];
    void f() { for (size_t i = 0; i < Pad; ++i) fill[i] = static_cast<unsigned char>(I + i); }
    D() noexcept(NX) { if (!NX) point(); f(); if (!triv) born(this, I); }
    D(int w, int *seen) noexcept(NX) : v(w) { if (!NX) point(); f(); ++*seen; if (!triv) born(this, I); }
    D(D const &o) noexcept(noex) : v(o.v) { if (!triv) used(&o, I); if (!noex) point(); f(); if (!triv) born(this, I); }
    D(D &&o) noexcept(noex) : v(o.v) { if (!triv) used(&o, I); if (!noex) point(); o.v = 9; f(); if (!triv) born(this, I); }
#if K != KIND_triv
    ~D() override { died(this, I); f(); fill[0] = 0; }
#endif
    char id() const override { return I; }
    int x() const override { return v; }
    void set(int w) override { v = w; }
    void const *addr() const override { return this; }
    bool intact() const override { for (size_t i = 0; i < Pad; ++i) if (fill[i] != static_cast<unsigned char>(I + i)) return false; return reinterpret_cast<uintptr_t>(this) % Align == 0; }
#if K != KIND_monly
    void copy_to(Base *dst) const noexcept(noex) override { new (dst) D(*this); }
#endif
#if K != KIND_conly
    void move_to(Base *dst) noexcept(noex) override { new (dst) D(std::move(*this)); }
#endif
};
using A = D<'A', 1, 8, noex>;
using B = D<'B', 100, 8, noex || K == KIND_mixed>;
using C = D<'C', 40, 64, noex>;
using P = dtl::inplace_polymorphic<Base, A, B, C>;
static_assert(alignof(P) >= 64);

int main(int argc, char **argv) {
    std::unique_ptr<P> s[3];
    auto one = [&](P &x) -> std::string {
        P const &c = x;
        bool none = x.valueless_by_exception();
        int thrown = 0;
        Base const *r[6]{};
        auto tr = [&](int i, auto f) { try { r[i] = f(); } catch (std::bad_variant_access const &) { ++thrown; } };
        tr(0, [&] { return &x.get(); }); tr(1, [&] { return &c.get(); }); tr(2, [&] { return &*x; }); tr(3, [&] { return &*c; });
        tr(4, [&] { return x.operator->(); }); tr(5, [&] { return c.operator->(); });
        if (none) return thrown == 6 ? "N" : "valueless but accessible";
        if (thrown) return "access throws";
        for (auto *q : r) if (q != r[0]) return "accessors disagree";
        auto *o = reinterpret_cast<unsigned char const *>(&c);
        auto *p = static_cast<unsigned char const *>(r[0]->addr());
        size_t sz = r[0]->id() == 'A' ? sizeof(A) : r[0]->id() == 'B' ? sizeof(B) : sizeof(C);
        if (p < o || p + sz > o + sizeof(P)) return "object outside of the container";
        if (!triv && (!live.count(p) || live[p] != r[0]->id())) return "object is not alive";
        if (!r[0]->intact()) return "object damaged or misaligned";
        return std::string(1, r[0]->id()) + std::to_string(r[0]->x());
    };
    auto expect = [&] { size_t n = 0; for (int k = 1; k <= 2; ++k) n += !s[k]->valueless_by_exception(); return triv ? size_t(0) : n; };
    mbt::Harness H;
    H.reset = [&] { fault = 0; live.clear(); s[1] = std::make_unique<P>(); s[2] = std::make_unique<P>(); errors = 0; };
    H.finish = [&] {
        s[1].reset(); s[2].reset();
        std::string r = errors ? "lifetime error" : live.empty() ? "" : mbt::cat(live.size(), " object(s) never destroyed");
        live.clear();
        return r;
    };
    H.exec = [&](mbt::Cmd const &c) -> std::string {
        std::string op = c.op(), res = "ok";
        bool arm = op[0] == '!';
        if (arm) op = op.substr(1);
        int k = int(c.i(1));
        fault = arm;
        int seen = 0;
        try {
            if (op == "def") { auto p = std::make_unique<P>(); fault = 0; s[k] = std::move(p); }
            else if (op == "new") {
                auto mk = [&]<class T>(std::in_place_type_t<T> t) { auto p = std::make_unique<P>(t, int(c.i(3)), &seen); fault = 0; s[k] = std::move(p); };
                if (c.s(2) == "A") mk(std::in_place_type<A>); else if (c.s(2) == "B") mk(std::in_place_type<B>); else mk(std::in_place_type<C>);
                if (seen != 1) res = "constructed more than once";
            } else if (op == "emp") {
                int w = int(c.i(3));
                if (c.s(2) == "A") s[k]->emplace<A>(w, &seen); else if (c.s(2) == "B") s[k]->emplace<B>(w, &seen); else s[k]->emplace<C>(w, &seen);
                if (seen != 1) res = "constructed more than once";
            } else if (op == "set") {
                auto &f = c.s(2);
                int w = int(c.i(3));
                try { if (f == "get") s[k]->get().set(w); else if (f == "star") (**s[k]).set(w); else (*s[k])->set(w); }
                catch (std::bad_variant_access const &) { res = "bad_variant_access"; }
            } else {
                int o = int(c.i(2));
#if K != KIND_monly
                if (op == "newc") { auto p = std::make_unique<P>(std::as_const(*s[o])); fault = 0; s[k] = std::move(p); }
                if (op == "asg") if (&(*s[k] = std::as_const(*s[o])) != s[k].get()) res = "= returns another object";
#endif
                if (op == "newm") { auto p = std::make_unique<P>(std::move(*s[o])); fault = 0; s[k] = std::move(p); }
                if (op == "masg") if (&(*s[k] = std::move(*s[o])) != s[k].get()) res = "= returns another object";
            }
        } catch (Boom const &) { res = "thr"; }
        fault = 0;
        std::string r = res + "|" + one(*s[1]) + "|" + one(*s[2]);
        if (errors) r += "|lifetime error";
        else if (live.size() != expect()) r += mbt::cat("|", live.size(), " live objects");
        return r;
    };
    return mbt::run(argc, argv, H);
}
