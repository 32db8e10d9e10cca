// channel / exchange_channel under the deterministic scheduler
#include "explore.hpp"
#include <fcntl.h>
#ifndef EXCHANGE
#define EXCHANGE 0
#endif
#define std vstd
#if EXCHANGE
#include <dice/template-library/exchange_channel.hpp>
#else
#include <dice/template-library/channel.hpp>
#endif
#undef std
namespace dtl = dice::template_library;
using vs::S;

struct Boom {};
static int live_elems = 0;
template<bool Throws> struct Elem {
    static constexpr int ALIVE = 0x51de51;
    int magic = ALIVE, id = 0, boom = 0;
    std::string payload;
    vs::Shadow sh;
    static std::string text(int i) { return "payload-" + std::to_string(i) + std::string(size_t(i % 40), char('a' + i % 26)); }
    void check(char const *w) const { if (magic != ALIVE) ex::bad(std::string("dead element ") + w); }
    Elem(int i, int b) : id(i), boom(b), payload(text(i)) { if (Throws && b < 0) { boom = 0; magic = 0; throw Boom{}; } sh.write("element"); ++live_elems; }
    Elem(Elem const &o) noexcept(!Throws) : id(o.id), payload(o.payload) {
        o.check("copied"); const_cast<vs::Shadow &>(o.sh).read("element");
        if (Throws && o.boom == -7) throw Boom{};
        sh.write("element"); ++live_elems;
    }
    Elem(Elem &&o) noexcept(!Throws) : id(o.id) {
        o.check("moved"); o.sh.write("element");
        if (Throws && o.boom > 0) { --o.boom; throw Boom{}; }
        payload = std::move(o.payload); o.payload.clear(); o.id = -1; o.boom = 0;
        sh.write("element"); ++live_elems;
    }
    Elem &operator=(Elem const &o) noexcept(!Throws) { check("assigned"); o.check("copied"); id = o.id; payload = o.payload; boom = 0; sh.write("element"); return *this; }
    Elem &operator=(Elem &&o) noexcept(!Throws) {
        check("assigned"); o.check("moved"); o.sh.write("element"); sh.write("element");
        if (this != &o) { id = o.id; payload = std::move(o.payload); o.payload.clear(); o.id = -1; boom = 0; o.boom = 0; }
        return *this;
    }
    ~Elem() { check("destroyed"); magic = 0; sh.write("element"); --live_elems; }
    int value() const { check("read"); return id >= 0 && payload == text(id) ? id : 999; }
};

template<class E> struct Run {
#if EXCHANGE
    using Chan = dtl::exchange_channel<E>;
#else
    using Chan = dtl::channel<E>;
#endif
    alignas(Chan) unsigned char mem[sizeof(Chan)];
    Chan *ch = nullptr;
    static constexpr bool Throws = !std::is_nothrow_move_constructible_v<E>;

    void push(char kind, int v) {
        std::string name = std::strchr("pmex", kind) ? "try_push" : "push";
        std::string r;
        ex::inv(name, std::to_string(v));
        try {
            bool ok = false;
            switch (kind) {
                case 'P': { E e{v, 0}; ok = ch->push(std::as_const(e)); if (e.value() != v) ex::bad("push changed its argument"); break; }
                case 'M': { E e{v, 0}; ok = ch->push(std::move(e)); break; }
                case 'E': case 'F': ok = ch->emplace(v, 0); break;
                case 'B': ok = ch->emplace(v, 1); break;
#if !EXCHANGE
                case 'p': { E e{v, 0}; ok = ch->try_push(std::as_const(e)); if (e.value() != v) ex::bad("push changed its argument"); break; }
                case 'm': { E e{v, 0}; ok = ch->try_push(std::move(e)); break; }
                case 'e': ok = ch->try_emplace(v, 0); break;
                case 'x': ok = ch->try_emplace(v, -1); break;
#endif
                case 'X': ok = ch->emplace(v, -1); break;
                case 'Y': { E e{v, 0}; e.boom = -7; ok = ch->push(std::as_const(e)); e.boom = 0; break; }
            }
            r = ok ? "T" : "F";
        } catch (Boom const &) { r = "thr"; }
        ex::ret(r);
    }
    void pop(bool blocking) {
        ex::inv(blocking ? "pop" : "try_pop");
        std::string r = "none", v = "0";
        try {
            auto o = blocking ? ch->pop() : ch->try_pop();
            if (o.has_value()) { r = "some"; v = std::to_string(o->value()); }
        } catch (Boom const &) { r = "thr"; }
        ex::ret(r, v);
    }
    void iterate(int max, bool post) { // begin/++ are pops
        auto rec = [&](typename Chan::iterator &it) {
            bool end = it == std::default_sentinel;
            if (end != !(it != std::default_sentinel)) ex::bad("iterator == and != disagree");
            if (end) ex::ret("none");
            else {
                if (&*it != &*std::as_const(it) || it.operator->() != &*it) ex::bad("iterator * and -> disagree");
                ex::ret("some", std::to_string((*it).value()));
            }
            return !end;
        };
        std::optional<typename Chan::iterator> at;
        do { // a step that throws is repeated
            ex::inv("pop");
            try { at.emplace(ch->begin()); } catch (Boom const &) { ex::ret("thr"); }
        } while (!at);
        auto &it = *at;
        bool more = rec(it);
        while (more && --max > 0) {
            ex::inv("pop");
            try { if (post) it++; else ++it; }
            catch (Boom const &) { ex::ret("thr"); continue; }
            more = rec(it);
        }
    }
    void drain(int how) {
        if (how == 2) { iterate(1000, false); return; }
        for (int i = 0; i < 64; ++i) {
            pop(how == 1);
            if (ex::H.back().k == 'r' && ex::H.back().a == "none") break;
        }
    }
    void exec(std::string const &op) {
        char k = op[0];
        int v = op.size() > 1 ? std::stoi(op.substr(1)) : 0;
        switch (k) {
            case 'O': pop(true); break;
            case 'o': pop(false); break;
            case 'I': iterate(v ? v : 1000, false); break;
            case 'J': iterate(v ? v : 1000, true); break;
            case 'C': ex::inv("close"); ch->close(); ex::ret("ok"); break;
            case 'c': { ex::inv("closed"); bool b = ch->closed(); ex::ret(b ? "T" : "F"); break; }
            default: push(k, v);
        }
    }
    void operator()(ex::Scenario const &sc) {
        auto hd = ex::split(sc.head, ','); // capacity, drain kind
        live_elems = 0;
#if EXCHANGE
        ch = new (mem) Chan();
#else
        ch = new (mem) Chan(std::stoul(hd[0]));
#endif
        S.nthreads = int(sc.threads.size());
        for (int t = 0; t < S.nthreads; ++t)
            S.spawn(t, [this, &ops = sc.threads[size_t(t)]] { for (auto const &o : ops) if (!o.empty()) exec(o); });
        bool all = S.run();
        if (S.overrun) { return; }
        ex::quiesce();
        int how = std::stoi(hd[1]);
        if (how >= 4) { how -= 4; if (all) drain(0); } // drain without closing first
        exec("C");
        all = S.run();
        if (S.overrun) return;
        ex::quiesce();
        if (!all) return;      // someone is stuck although the channel is closed: the history shows it
        exec("c");
        drain(how);
        exec("c");
        exec("E90");
        exec("O");
        ch->~Chan();
        if (live_elems != 0) ex::bad("element leaked or destroyed twice");
    }
};

int main(int argc, char **argv) {
    static Run<Elem<false>> rn;
    static Run<Elem<true>> rt;
    return ex::main_loop(argc, argv, [&](ex::Scenario const &sc) { if (sc.head.back() == 'T') rt(sc); else rn(sc); });
}
