// D29 (fixed): destroying the local keyboard while input is suspended never returned, because its thread
// waits for the switch, not for the stop. build: g++ -std=c++14 -I/repo/include d29.cpp -lpthread
#include <cli/detail/linuxkeyboard.h>
#include <cli/scheduler.h>
#include <cstdio>
struct Q : cli::Scheduler { void Post(const std::function<void()>&) override {} };
int main()
{
    int fd[2]; if (pipe(fd) != 0) return 2;
    dup2(fd[0], 0);
    Q q; alarm(3);
    {
        cli::detail::LinuxKeyboard kb(q);
        usleep(50000);
        kb.DeactivateInput(); // e.g. a handler is running, and throws
        if (write(fd[1], "x", 1) != 1) return 2; // a key, so that the thread comes back to the switch
        usleep(50000);
    }
    std::printf("destroyed\n");
    return 0;
}
