// Replays histories of specs/Sandbox.tla on DICE_SANDBOX.
#include "mbt.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dice/template-library/sandbox.hpp>
using mbt::Cmd;
using mbt::cat;
namespace dtl = dice::template_library;
using R = dtl::SubProcessResult;

// what every process writes down about itself
struct Shared { int volatile ran, handled, handled_elsewhere, destroyed_elsewhere, exit_elsewhere, inner; };
static Shared *sh;
static pid_t self;                      // the caller of the sandboxes
static std::set<int> handled_by;
static void on_signal(int) { if (getpid() == self) sh->handled = sh->handled + 1; else sh->handled_elsewhere = sh->handled_elsewhere + 1; }
struct Guard { ~Guard() { if (getpid() != self) sh->destroyed_elsewhere = 1; } };
static Guard global_guard;
static int global_value = 17;

static int fd_out, fd_err, fd_file;     // where standard output, standard error and the file go
static FILE *file;
static int temp() { char n[] = "/tmp/verif-sandbox-XXXXXX"; int fd = mkstemp(n); if (fd < 0) throw mbt::HarnessError{"mkstemp"}; unlink(n); fcntl(fd, F_SETFL, O_APPEND | O_RDWR); return fd; }

static std::string show(R r) {
    if (r == R::ExitSuccess) return "ok";
    if (r == R::ExitFailure) return "fail";
    return cat("signal ", int(r));
}
static std::map<int, std::string> disp;
static std::set<int> blk, pend;
static pid_t other = -1;
[[noreturn]] static void harness_error(std::string const &m) { throw mbt::HarnessError{m}; }

static void put(std::string const &st, char c) {
    bool big = c == 'C' || c == 'F';
    std::string t = cat("<", st, ":", c, ">", big ? std::string(5000, '.') : "");
    if (st == "file") fwrite(t.data(), 1, t.size(), file);
    else if (st == "stdout") printf("%s", t.c_str());
    else if (st == "stderr") fprintf(stderr, "%s", t.c_str());
    else if (st == "cout") std::cout << t;
    else if (st == "cerr") std::cerr << t;
    else if (st == "clog") std::clog << t;
    else if (st == "wcout") std::wcout << std::wstring(t.begin(), t.end());
    else if (st == "wcerr") std::wcerr << std::wstring(t.begin(), t.end());
    else if (st == "wclog") std::wclog << std::wstring(t.begin(), t.end());
    else harness_error("stream");
}
static void flush(std::string const &st) {
    if (st == "file") fflush(file);
    else if (st == "stdout" || st == "stderr") fflush(st == "stdout" ? stdout : stderr);
    else if (st == "cout") std::cout.flush();
    else if (st == "cerr") std::cerr.flush();
    else if (st == "clog") std::clog.flush();
    else if (st == "wcout") std::wcout.flush();
    else if (st == "wcerr") std::wcerr.flush();
    else if (st == "wclog") std::wclog.flush();
    fflush(nullptr);
}
static std::string contents(std::string const &st) {
    int fd = st == "file" ? fd_file : st.find("out") != std::string::npos ? fd_out : fd_err;
    flush(st);
    std::string all, want = "<" + st + ":", r = "(";
    char buf[8192];
    for (off_t at = 0; ssize_t n = pread(fd, buf, sizeof buf, at); at += n) all.append(buf, size_t(n));
    for (size_t p = 0; (p = all.find(want, p)) != std::string::npos; ++p) {
        char c = all[p + want.size()];
        r += c;
        if ((c == 'C' || c == 'F') && std::count(all.begin(), all.end(), '.') % 5000 != 0) r += '!'; // part of a text
    }
    return r + ")";
}
static void empty_files() { for (int fd : {fd_out, fd_err, fd_file}) if (ftruncate(fd, 0)) harness_error("ftruncate"); }

[[gnu::noinline]] static int deeper(int volatile *p) { int volatile x[64]; x[0] = *p; return deeper(x) + x[1]; }
static void raise_now(int n) { kill(getpid(), n); raise(n); }

// runs the function, checks that the caller is unaffected, and describes how the function ended
template<class F> static std::string run(F f, int handled = -1) {
    Guard g;
    *sh = {};
    global_value = 17;
    int local = 23;
    sigset_t mask0, mask1, pend1;
    sigprocmask(SIG_SETMASK, nullptr, &mask0);
    auto cwd = std::filesystem::current_path();
    mode_t um = umask(022); umask(um);
    std::string r;
    int values[2] = {0, 0};
    bool unwound = false;
    struct Leave { bool *u; ~Leave() { *u = true; if (getpid() != self) sh->destroyed_elsewhere = 1; } } leave{&unwound};
    R res = DICE_SANDBOX { sh->ran = sh->ran + 1; global_value = 18; local = 24; values[1] = 1; return f(); };
    r = show(res);
    if (sh->inner) r += cat(" inner=", sh->inner == -1 ? "ok" : sh->inner == -2 ? "fail" : std::to_string(sh->inner));
    if (handled >= 0) r += cat(" handled=", sh->handled);
    else if (sh->handled) r += " handler of the caller ran";
    if (getpid() != self) { sh->exit_elsewhere = 2; _exit(99); }
    if (sh->ran != 1) r += cat(" function ran ", sh->ran, " times");
    if (sh->handled_elsewhere) r += " handler of the caller ran in the sandbox";
    if (sh->destroyed_elsewhere) r += " destructor of the caller ran in the sandbox";
    if (sh->exit_elsewhere) r += sh->exit_elsewhere == 2 ? " sandboxed process continued in the caller" : " exit handler of the caller ran in the sandbox";
    if (global_value != 17 || local != 23 || values[1] != 0) r += " memory of the caller changed";
    for (auto &[n, d] : disp) {
        struct sigaction sa;
        sigaction(n, nullptr, &sa);
        auto now = sa.sa_handler == SIG_DFL ? "d" : sa.sa_handler == SIG_IGN ? "i" : sa.sa_handler == on_signal ? "h" : "?";
        if (now != d) r += cat(" disposition of ", n, " changed to ", now);
    }
    sigprocmask(SIG_SETMASK, nullptr, &mask1);
    sigpending(&pend1);
    for (int n = 1; n < 65; ++n) if (n < 32 || n > 33) {
        if (sigismember(&mask0, n) != sigismember(&mask1, n)) r += cat(" mask of ", n, " changed");
        if (!handled && n == 17) continue;
        if (handled < 0 && sigismember(&pend1, n) != int(pend.count(n))) r += cat(" pending signal ", n, " changed");
    }
    if (std::filesystem::current_path() != cwd) r += " directory changed";
    if (mode_t now = umask(um); now != um) r += " umask changed";
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG | WNOWAIT);
    siginfo_t si{};
    bool any = waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0;
    (void) p;
    if (other < 0 && any) r += " child left";
    if (other > 0 && (!any || (si.si_pid != 0 && si.si_pid != other))) r += " other child disturbed";
    return r;
}
int main(int argc, char **argv) {
    mbt::Harness h;
    h.leak_check = false;
    rlimit none{0, 0};
    setrlimit(RLIMIT_CORE, &none);
    rlimit stack{1 << 20, 8 << 20};
    setrlimit(RLIMIT_STACK, &stack);
    self = getpid();
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc > 4 && argv[4] == std::string("unsync")) std::ios_base::sync_with_stdio(false);
    int const old_err = dup(2), old_out = dup(1);
    fd_out = temp(); fd_err = temp(); fd_file = temp();
    dup2(fd_out, 1); dup2(fd_err, 2);
    file = fdopen(dup(fd_file), "a");
    std::atexit([] { if (getpid() != self) sh->exit_elsewhere = 1; });
    std::at_quick_exit([] { if (getpid() != self) sh->exit_elsewhere = 1; });
    for (int n = 1; n < 65; ++n) signal(n, SIG_DFL); // handlers of sanitizers
    sigset_t clear; sigemptyset(&clear); sigprocmask(SIG_SETMASK, &clear, nullptr);

    auto set_disp = [](int n, std::string const &d) {
        struct sigaction sa{};
        sa.sa_handler = d == "d" ? SIG_DFL : d == "i" ? SIG_IGN : on_signal;
        sa.sa_flags = 0; // interrupts system calls
        if (sigaction(n, &sa, nullptr)) harness_error("sigaction");
        disp[n] = d;
    };
    auto mask = [](int how, int n) { sigset_t m; sigemptyset(&m); sigaddset(&m, n); if (sigprocmask(how, &m, nullptr)) harness_error("sigprocmask"); };
    h.reset = [&] {
        for (auto &[n, d] : disp) { signal(n, SIG_IGN); signal(n, SIG_DFL); }
        sigprocmask(SIG_SETMASK, &clear, nullptr);
        disp.clear(); blk.clear(); pend.clear();
        if (other > 0) { kill(other, SIGKILL); waitpid(other, nullptr, 0); other = -1; }
        for (auto s : {"file", "cout", "cerr", "clog", "wcout", "wcerr", "wclog"}) flush(s);
        empty_files();
        disp[SIGCHLD] = "d";
    };
    h.exec = [&](Cmd const &c) -> std::string {
        auto const &op = c.op();
        if (op == "disp") { set_disp(int(c.i(1)), c.s(2)); return ""; }
        if (op == "block") { mask(SIG_BLOCK, int(c.i(1))); return ""; }
        if (op == "unblock") { sh->handled = 0; mask(SIG_UNBLOCK, int(c.i(1))); pend.erase(int(c.i(1))); return sh->handled ? "handled" : ""; }
        if (op == "pend") { kill(getpid(), int(c.i(1))); pend.insert(int(c.i(1))); return ""; }
        if (op == "spawn") {
            int p[2];
            if (pipe(p)) harness_error("pipe");
            other = fork();
            if (other == 0) { close(p[1]); char x; if (c.s(1) == "alive" && read(p[0], &x, 1) < 0) _exit(1); _exit(7); }
            close(p[0]);
            if (c.s(1) == "dead") { siginfo_t si; waitid(P_PID, id_t(other), &si, WEXITED | WNOWAIT); }
            fcntl(p[1], F_SETFD, FD_CLOEXEC);
            static int keep; keep = p[1];
            if (c.s(1) == "alive") { /* released by reap */ dup2(p[1], 200); }
            close(keep);
            return "";
        }
        if (op == "reap") {
            close(200);
            int st; pid_t p = waitpid(other, &st, 0);
            if (p != other) return "child is gone";
            other = -1;
            return WIFEXITED(st) ? std::to_string(WEXITSTATUS(st)) : "killed";
        }
        if (op == "write") { put(c.s(1), c.s(2)[0]); return ""; }
        if (op == "check") { // the texts of the other stream stay
            auto r = contents(c.s(1));
            auto fd = c.s(1) == "file" ? fd_file : c.s(1).find("out") != std::string::npos ? fd_out : fd_err;
            std::string all; char buf[8192];
            for (off_t at = 0; ssize_t n = pread(fd, buf, sizeof buf, at); at += n) all.append(buf, size_t(n));
            auto want = "<" + c.s(1) + ":";
            for (size_t p; (p = all.find(want)) != std::string::npos;) {
                bool big = std::isupper(all[p + want.size()]);
                all.erase(p, want.size() + 2);
                if (big && all.compare(p, 5000, std::string(5000, '.')) == 0) all.erase(p, 5000);
            }
            if (ftruncate(fd, 0) || write(fd, all.data(), all.size()) < 0) harness_error("ftruncate");
            return r;
        }
        if (op == "output") {
            auto st = c.s(1); char z = c.s(2)[0];
            bool fl = c.s(3) == "flush"; auto how = c.s(fl ? 4 : 3);
            return run([&]() -> int {
                put(st, z);
                if (fl) flush(st);
                if (how == "abort") std::abort();
                if (how == "kill") raise_now(SIGKILL);
                if (how == "throw") throw 1;
                return how == "return" ? 3 : 0;
            });
        }
        if (op == "nested") {
            auto st = c.s(1);
            return run([&]() -> int {
                put(st, 'f');
                R r = DICE_SANDBOX { put(st, 'g'); };
                put(st, 'f');
                return r == R::ExitSuccess ? 0 : 1;
            });
        }
        if (op == "interrupt") {
            int n = int(c.i(1)), times = int(c.i(2));
            sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m);
            bool seen = disp[n] == "h" && !sigismember(&m, n);
            auto r = run([=] {
                for (int i = 0; i < times; ++i) {
                    usleep(2000); // let the caller begin to wait
                    kill(self, n);
                    for (int k = 0; seen && sh->handled <= i && k < 5000; ++k) usleep(1000);
                }
            }, 1);
            if (disp[n] == "h" && sigismember(&m, n)) {
                sigset_t p; sigpending(&p);
                if (!sigismember(&p, n)) r += " pending signal lost";
                pend.insert(n);
            }
            return r;
        }
        if (op != "run") harness_error("op");
        auto const &e = c.s(1);
        if (e == "void") return run([] {});
        int k = c.n() > 2 && (std::isdigit(c.s(2)[0])) ? int(c.i(2)) : 0;
        auto w = c.n() > 2 ? c.s(2) : std::string();
        if (e == "return") return run([=] { return k; });
        if (e == "_exit") return run([=] { _exit(k); });
        if (e == "throw") return run([=] {
            struct Local { ~Local() {} } l;
            if (w == "int") throw 1;
            if (w == "exception") throw std::runtime_error{"expected"};
            try { throw std::logic_error{"expected"}; } catch (...) { std::throw_with_nested(std::runtime_error{"expected"}); }
        });
        if (e == "raise") return run([=] { raise_now(k); });
        if (e == "stop") return run([=] {
            if (fork() == 0) { // continues its parent until that ends
                pid_t p = getppid();
                for (int i = 0; i < 2000 && getppid() == p; ++i) { usleep(2000); kill(p, SIGCONT); }
                _exit(0);
            }
            raise_now(k);
        });
        if (e == "own") return run([=] { signal(k, SIG_IGN); raise_now(k); signal(k, [](int) {}); raise_now(k); });
        if (e == "held") return run([=] { sigset_t m; sigemptyset(&m); sigaddset(&m, k); sigprocmask(SIG_BLOCK, &m, nullptr); raise_now(k); return 0; });
        if (e == "fault") return run([=] {
            if (w == "ud2") asm volatile("ud2");
            if (w == "null") asm volatile("movl $0, 0");
            if (w == "wild") { void (*volatile f)() = reinterpret_cast<void (*)()>(uintptr_t(0xdead0000)); f(); }
            if (w == "div") asm volatile("xorl %%ecx, %%ecx; movl $1, %%eax; cltd; idivl %%ecx" ::: "eax", "ecx", "edx");
            int volatile x = 0;
            deeper(&x);
        });
        if (e == "abort") return run([] { std::abort(); });
        if (e == "assert") return run([] { __assert_fail("expected", "sandbox.cpp", 1, "run"); });
        if (e == "terminate") return run([] { std::terminate(); });
        if (e == "noexcept") return run([] { auto f = []() noexcept { throw 1; }; f(); });
        if (e == "broken") return run([=] { // a stream that cannot be flushed, and that throws if so
            static struct : std::streambuf { int sync() override { return -1; } } narrow;
            static struct : std::wstreambuf { int sync() override { return -1; } } wide;
            auto breaks = [](auto &os, auto &buf) { os.rdbuf(&buf); os.exceptions(std::ios_base::badbit); };
            if (w == "cout") breaks(std::cout, narrow);
            if (w == "clog") breaks(std::clog, narrow);
            if (w == "wcout") breaks(std::wcout, wide);
            if (w == "wclog") breaks(std::wclog, wide);
        });
        if (e == "alarm") return run([] { ualarm(1000, 0); for (;;) pause(); });
        if (e == "exec") return run([=] { execl(w == "true" ? "/bin/true" : "/bin/false", "x", nullptr); return 77; });
        if (e == "orphan") return run([] { if (fork() == 0) { usleep(20000); _exit(5); } });
        if (e == "child") return run([] { pid_t p = fork(); if (p == 0) _exit(5); int st; return waitpid(p, &st, 0) == p && WEXITSTATUS(st) == 5 ? 0 : 1; });
        if (e == "sleep") return run([] { usleep(3000); });
        if (e == "change") return run([] {
            if (chdir("/")) return 1;
            umask(077);
            for (int n = 1; n < 65; ++n) if (n != 9 && n != 19) signal(n, SIG_IGN);
            sigset_t m; sigfillset(&m); sigprocmask(SIG_BLOCK, &m, nullptr);
            unsetenv("PATH");
            std::set_terminate([] { _exit(0); });
            fclose(stdin);
            return 0;
        });
        if (e == "inner") return run([=] {
            R r = DICE_SANDBOX { if (k > 1) raise_now(k); return k; };
            sh->inner = int(r);
        });
        harness_error("end " + e);
    };
    int rc = mbt::run(argc, argv, h);
    dup2(old_err, 2); dup2(old_out, 1);
    return rc;
}
