// Interprets histories of specs/Defer.tla as real C++ scopes on a second thread (exceptions are per thread).
#include "mbt.hpp"
#include <dice/template-library/defer.hpp>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using namespace dice::template_library;
using mbt::Cmd;

struct E { int x = 7; };

static std::mutex m;
static std::condition_variable cv;
static Cmd cmd;
static std::string reply, obs;
static int state = 0; // 0 idle (interpreter waits), 1 command posted, 2 reply posted
static bool ready = false; // the interpreter has reached its first step

// called by the interpreter: report what happened, wait for the next command
static Cmd next(int depth, char const *kind) {
    std::unique_lock l(m);
    obs += mbt::cat(depth, kind);
    if (!ready) { ready = true; cv.notify_all(); }
    else if (state == 1) { reply = obs; state = 2; cv.notify_all(); }
    obs.clear();
    cv.wait(l, [] { return state == 1; });
    return cmd;
}
static std::string post(Cmd const &c) {
    std::unique_lock l(m);
    cv.wait(l, [] { return ready; });
    cmd = c;
    state = 1;
    cv.notify_all();
    cv.wait(l, [] { return state == 2; });
    return reply;
}

static void body(int depth, char const *kind, int n);

struct Fn { // a named function object, copyable
    std::string ev;
    char const *k;
    int depth;
    void operator()() const { obs += ev; body(depth, k, 0); obs += "done "; }
};
struct MoveOnlyFn {
    std::unique_ptr<Fn> f;
    void operator()() const { (*f)(); }
};
static std::string const *plain_ev; // for function pointers

template<ScopeExitPolicy P, class F> auto mk(F &&f) {
    if constexpr (P == ScopeExitPolicy::Always) return make_scope_exit_guard(std::forward<F>(f));
    else if constexpr (P == ScopeExitPolicy::OnFail) return make_scope_fail_guard(std::forward<F>(f));
    else return make_scope_success_guard(std::forward<F>(f));
}

// the rest of the block [after n guards]
template<ScopeExitPolicy P> static void with_guard(std::string const &how, int depth, char const *kind, int n, char const *k) {
    std::string ev = mbt::cat("run", k, depth, n + 1, " ");
    if (how == "macro") { // captures by reference: what counts is the value at the end of the scope
        std::string cur = "the value at the declaration ";
        if constexpr (P == ScopeExitPolicy::Always) { DICE_DEFER { obs += cur; cur.clear(); body(depth + 1, k, 0); obs += "done "; }; cur = ev; body(depth, kind, n + 1); }
        else if constexpr (P == ScopeExitPolicy::OnFail) { DICE_DEFER_TO_FAIL { obs += cur; cur.clear(); body(depth + 1, k, 0); obs += "done "; }; cur = ev; body(depth, kind, n + 1); }
        else { DICE_DEFER_TO_SUCCESS { obs += cur; cur.clear(); body(depth + 1, k, 0); obs += "done "; }; cur = ev; body(depth, kind, n + 1); }
    } else if (how == "rval") {
        auto g = mk<P>(MoveOnlyFn{std::make_unique<Fn>(ev, k, depth + 1)});
        body(depth, kind, n + 1);
    } else if (how == "lval") {
        Fn f{ev, k, depth + 1};
        auto g = mk<P>(f);
        f.ev = "the guard function was not copied ";
        body(depth, kind, n + 1);
    } else if (how == "ctor") {
        Fn const f{ev, k, depth + 1};
        ScopeExitGuard<P, Fn> g{f};
        body(depth, kind, n + 1);
    } else throw mbt::HarnessError{how};
}

static void block(int depth, char const *kind) { body(depth, kind, 0); }

struct Held { virtual ~Held() noexcept(false) {} };
template<class G> struct HeldG : Held { G g; template<class F> explicit HeldG(F f) : g(f) {} };
struct RunFn { void operator()() const { obs += "run "; } };
static std::unique_ptr<Held> slots[4];
struct Unwound { int depth; ~Unwound() { body(depth, "u", 0); } };

static void body(int depth, char const *kind, int n) {
    for (;;) {
        Cmd const c = next(depth, kind);
        auto const &op = c.op();
        if (op == "block") { block(depth + 1, "b"); obs += "left "; }
        else if (op == "try") {
            bool caught = false;
            try { block(depth + 1, "t"); }
            catch (E const &e) {
                if (e.x != 7) obs += "wrong exception ";
                obs += "caught ";
                block(depth + 1, "c");
            }
            obs += "left ";
        } else if (op == "unwind") {
            try { Unwound u{depth + 1}; throw E{}; }
            catch (E const &) { obs += "caught "; }
        } else if (op == "make") {
            auto &x = slots[c.i(1)];
            if (c.s(2) == "A") x = std::make_unique<HeldG<ScopeExitGuard<ScopeExitPolicy::Always, RunFn>>>(RunFn{});
            else if (c.s(2) == "F") x = std::make_unique<HeldG<ScopeExitGuard<ScopeExitPolicy::OnFail, RunFn>>>(RunFn{});
            else x = std::make_unique<HeldG<ScopeExitGuard<ScopeExitPolicy::OnSuccess, RunFn>>>(RunFn{});
        } else if (op == "drop") slots[c.i(1)].reset();
        else if (op == "throw") throw E{};
        else if (op == "rethrow") throw;
        else if (op == "end") break;
        else if (op == "ret") return;
        else if (op == "guard") {
            auto const &k = c.s(1);
            if (k == "A") return with_guard<ScopeExitPolicy::Always>(c.s(2), depth, kind, n, "A");
            if (k == "F") return with_guard<ScopeExitPolicy::OnFail>(c.s(2), depth, kind, n, "F");
            if (k == "S") return with_guard<ScopeExitPolicy::OnSuccess>(c.s(2), depth, kind, n, "S");
            ScopeExitGuard<ScopeExitPolicy::Always, void (*)()> g1;
            ScopeExitGuard<ScopeExitPolicy::OnFail, Fn> g2;
            ScopeExitGuard<ScopeExitPolicy::OnSuccess, std::function<void()>> g3;
            return body(depth, kind, n + 1);
        } else throw mbt::HarnessError{op};
    }
}

int main(int argc, char **argv) {
    std::thread([] { for (;;) { try { body(0, "", 0); } catch (...) { obs += "an exception escaped "; } } }).detach();
    std::string last = "0";
    mbt::Harness h;
    h.reset = [&] { last = "0"; };
    h.exec = [&](Cmd const &c) { return last = post(c); };
    h.finish = [&] { // leave everything that is still open
        for (int k = 0; k < 200 && last.substr(last.find_last_of(' ') + 1) != "0"; ++k) last = post(Cmd{{"end"}});
        std::unique_lock l(m);
        for (auto &x : slots) x.reset();
        obs.clear();
        return std::string{};
    };
    h.leak_check = true;
    int rc = mbt::run(argc, argv, h);
    std::fflush(nullptr);
    _exit(rc);
}
