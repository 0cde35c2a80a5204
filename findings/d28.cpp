// D28 (fixed): while input is suspended (a handler is running) the local keyboard still took the next key,
// because its thread was already waiting for it. build: g++ -std=c++14 -I/repo/include d28.cpp -lpthread
#include <cli/detail/linuxkeyboard.h>
#include <cli/scheduler.h>
#include <sys/ioctl.h>
#include <vector>
#include <cstdio>
struct Q : cli::Scheduler { void Post(const std::function<void()>&) override {} };
int main()
{
    int fd[2]; if (pipe(fd) != 0) return 2;
    dup2(fd[0], 0);
    Q q; cli::detail::LinuxKeyboard kb(q);
    usleep(50000);
    kb.DeactivateInput();
    if (write(fd[1], "x", 1) != 1) return 2;
    usleep(100000);
    int n = 0; ioctl(0, FIONREAD, &n);
    std::printf(n == 1 ? "kept for the handler\n" : "taken by the keyboard\n");
    kb.ActivateInput();
    return n == 1 ? 0 : 1;
}
