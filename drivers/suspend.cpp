// C14: the local keyboard delivers every key once, takes none while its input is suspended, goes on afterwards, gives the terminal its mode back, and ends
#include <cli/detail/linuxkeyboard.h>
#include <cli/scheduler.h>
#include <cli/cli.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <termios.h>
#include <thread>
#include <memory>
#include <mutex>
#include <atomic>
#include "common.h"
using namespace cli::detail;
struct Q : cli::Scheduler
{
    std::mutex m; std::vector<std::function<void()>> q;
    void Post(const std::function<void()>& f) override { std::lock_guard<std::mutex> l(m); q.push_back(f); }
    std::size_t size() { std::lock_guard<std::mutex> l(m); return q.size(); }
    std::vector<std::function<void()>> take() { std::lock_guard<std::mutex> l(m); std::vector<std::function<void()>> r; r.swap(q); return r; }
};
static int queued() { int n = 0; ioctl(0, FIONREAD, &n); return n; }
static std::string mode(const termios& t) { return std::string(t.c_lflag & ICANON ? "line" : "key") + (t.c_lflag & ECHO ? "+echo" : ""); }
void run(Src& in)
{
    int fd[2], save = dup(0); bool tty = in.byte() % 4 == 0; termios t0;
    if (tty) // a terminal instead of a pipe
    {
        fd[1] = posix_openpt(O_RDWR | O_NOCTTY); tty = fd[1] >= 0 && grantpt(fd[1]) == 0 && unlockpt(fd[1]) == 0;
        if (tty) { fd[0] = open(ptsname(fd[1]), O_RDWR | O_NOCTTY); tty = fd[0] >= 0; }
        if (tty && in.byte() % 2) { tcgetattr(fd[0], &t0); t0.c_lflag &= ~tcflag_t(in.byte() % 2 ? ECHO : ICANON); t0.c_cc[VMIN] = 1; tcsetattr(fd[0], TCSANOW, &t0); }
    }
    if (!tty && pipe(fd) != 0) return;
    dup2(fd[0], 0); close(fd[0]);
    if (tty) { tcgetattr(0, &t0); count("terminals"); }
    auto same = [&](bool key, const char* when) -> std::string
    {
        termios t; if (!tty || tcgetattr(0, &t) != 0) return "";
        termios w = t0; if (key) w.c_lflag &= ~tcflag_t(ICANON | ECHO);
        return t.c_lflag == w.c_lflag && t.c_iflag == w.c_iflag && t.c_oflag == w.c_oflag ? "" : std::string(when) + " the terminal is in mode " + mode(t) + " instead of " + mode(w);
    };
    std::string script, want, got; bool on = true; unsigned suspended = 0; std::string err;
    {
        // signals reach the thread of the keyboard only
        sigset_t u; sigemptyset(&u); sigaddset(&u, SIGUSR1); struct sigaction a = {}; a.sa_handler = [](int) {}; sigaction(SIGUSR1, &a, nullptr); pthread_sigmask(SIG_UNBLOCK, &u, nullptr);
        auto& s = *new Q; auto* pk = new LinuxKeyboard(s); LinuxKeyboard& kb = *pk; pthread_sigmask(SIG_BLOCK, &u, nullptr); err = same(true, "while keys are read"); kb.Register([&](std::pair<KeyType, char> k) { got += k.first == KeyType::ascii ? k.second : char('A' + int(k.first)); });
        for (unsigned i = 0; i < 12 && in.more() && err.empty(); ++i)
        {
            unsigned what = in.byte() % 4;
            if (what == 0 && on) { usleep((in.byte() % 3) * 300); kb.DeactivateInput(); on = false; ++suspended; script += " suspend"; err = same(false, "while input is suspended"); }
            else if (what == 1 && !on) { kb.ActivateInput(); on = true; script += " resume"; err = same(true, "after input was resumed"); }
            else if (what == 3 && in.byte() % 2) { usleep(200); kill(getpid(), SIGUSR1); usleep(200); script += " signal"; }
            else
            {
                static const char* keys[] = { "x", "y", "\x1b[A", "\n", "\x1b[3~", "\x1bO" }; static const char* out[] = { "x", "y", 0, 0, 0, 0 };
                unsigned k = in.byte() % 6; std::string b = keys[k]; script += " " + show(b);
                static const KeyType ty[] = { KeyType::ascii, KeyType::ascii, KeyType::up, KeyType::ret, KeyType::canc, KeyType::ignored };
                std::string w = out[k] ? std::string(out[k]) : std::string(1, char('A' + int(ty[k])));
                int before = queued();
                if (write(fd[1], b.data(), b.size()) != ssize_t(b.size())) break;
                if (!on)
                {
                    usleep(2500);
                    if (!tty && queued() != before + int(b.size())) { err = "a key was taken while input was suspended"; break; }
                }
                want += w;
            }
            if (on && err.empty())
            {
                for (double t = now(); got.size() < want.size() && now() < t + 8; usleep(50)) for (auto& f : s.take()) f();
                if (got != want) { err = "keys delivered: " + show(got) + ", expected " + show(want); break; }
                if (!tty && queued() != 0) { err = "bytes left unread while input is active"; break; }
            }
        }
        bool stay = in.byte() % 3 == 0; // ends while input is suspended
        if (err.empty() && !on && !stay)
        {
            kb.ActivateInput();
            for (double t = now(); got.size() < want.size() && now() < t + 8; usleep(50)) for (auto& f : s.take()) f();
            if (got != want) err = "after resuming, keys delivered: " + show(got) + ", expected " + show(want);
        }
        else if (!on && !stay) kb.ActivateInput();
        if (!on && stay) script += " end";
        auto done = std::make_shared<std::atomic<bool>>(false);
        std::thread([=, &s] { delete pk; delete &s; *done = true; }).detach();
        for (double t = now(); !*done && now() < t + 8;) usleep(50);
        if (!*done) fail("local keyboard:" + script + ": destroying it does not end");
        if (err.empty()) err = same(false, "after the keyboard has ended");
        close(fd[1]);
    }
    dup2(save, 0); close(save);
    if (!err.empty()) fail("local keyboard:" + script + ": " + err);
    if (suspended) count("suspensions"), nontrivial(script);
}
std::string generate(Rng& r, long) { std::string s; unsigned n = 6 + r.below(24); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
