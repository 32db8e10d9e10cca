// Known finding C30 sigchld-ignored: exit code 1 while the result of a sandbox is lost in a process that ignores SIGCHLD.
#include <csignal>
#include <system_error>
#include <dice/template-library/sandbox.hpp>
using namespace dice::template_library;
int main() {
    signal(SIGCHLD, SIG_IGN);
    try {
        auto const r = DICE_SANDBOX { return 3; };
        return r != SubProcessResult::ExitFailure;
    } catch (std::system_error const &) {
        return 1;
    }
}
