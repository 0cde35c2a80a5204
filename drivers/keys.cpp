// C16: key events decoded by the telnet session and by the local keyboard against a reference reading of the byte stream
#include "common.h"
#include <sstream>
#include <thread>
#include <mutex>
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/detail/linuxkeyboard.h>
using namespace cli::detail;
using Key = std::pair<KeyType, char>;
static const char* names[] = { "ascii", "up", "down", "left", "right", "backspace", "canc", "home", "end", "ret", "eof", "ignored", "clear" };
static std::string str(const Key& k) { return k.first == KeyType::ascii ? show(std::string(1, k.second)) : names[int(k.first)]; }
static std::string str(const std::vector<Key>& v) { std::string s; for (auto& k : v) s += str(k) + " "; return s; }
static bool same(const Key& a, const Key& b) { return a.first == b.first && (a.first != KeyType::ascii || a.second == b.second); }

// reference: reads one sequence after the other; false: the input ends inside of one
struct Reader { const std::string& b; std::size_t p; bool end; int next() { if (p < b.size()) return (unsigned char)b[p++]; end = true; return -1; } };
static bool key(Reader& r, bool telnet, Key& k)
{
    int c = r.next(); if (r.end) return false;
    k = Key(KeyType::ignored, ' ');
    if (c == 4 || c == 255) k.first = KeyType::eof;
    else if (c == 8 || c == 127) k.first = KeyType::backspace;
    else if (c == 12) k.first = KeyType::clear;
    else if (!telnet && c == 10) k.first = KeyType::ret;
    else if (telnet && c == 13) { int d = r.next(); if (r.end) return false; if (d == 0 || d == 10) k.first = KeyType::ret; }
    else if (c == 27)
    {
        int d = r.next(); if (r.end) return false;
        if (d != '[') return true;
        std::string par; int f;
        while ((f = r.next()) >= 32 && f <= 63) par += char(f);
        if (r.end) return false;
        // tilde is a final character too
        static const std::map<char, KeyType> m{{'A', KeyType::up}, {'B', KeyType::down}, {'C', KeyType::right}, {'D', KeyType::left}, {'H', KeyType::home}, {'F', KeyType::end}};
        if (par.empty() && m.count(char(f)) && f < 128) k.first = m.at(char(f));
        else if (par == "3" && f == '~') k.first = KeyType::canc;
    }
    else k = Key(KeyType::ascii, char(c));
    return true;
}
static boost::asio::io_context& io() { static boost::asio::io_context c; return c; }
struct Now : cli::Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct Tel : CliTelnetSession
{
    Tel(cli::Scheduler& s, cli::Cli& c) : CliTelnetSession(s, boost::asio::ip::tcp::socket(io()), c, nullptr, 10) { Register([this](Key k) { got.push_back(k); }); }
    void Byte(char c) { Output(c); }
    void Rx(const std::string& s) { OnDataReceived(s); }
    void Send(const std::string&) override {}
    std::vector<Key> got;
};
struct Limited : cli::Scheduler
{
    std::mutex m; std::vector<std::function<void()>> q; std::size_t max = 0;
    void Post(const std::function<void()>& f) override { { std::lock_guard<std::mutex> l(m); if (q.size() < max) { q.push_back(f); return; } } usleep(500); }
    bool full() { std::lock_guard<std::mutex> l(m); return q.size() >= max; }
};
static void compare(const char* who, const std::vector<Key>& got, const std::vector<Key>& want, const std::string& bytes)
{
    bool ok = got.size() == want.size(); for (std::size_t i = 0; ok && i < got.size(); ++i) ok = same(got[i], want[i]);
    if (!ok) fail(std::string(who) + ": bytes " + show(bytes) + " give keys " + str(got) + ", expected " + str(want));
}
void run(Src& in)
{
    unsigned how = in.byte(); std::string bytes;
    static const std::vector<std::string> pieces{"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[3~", std::string("\r\0", 2), "\r\n", "\r", "\n", "\x08", "\x7f", "\x0c", "\x04", "\xff", "\x1b", "\x1b[", "\x1b[1;5C", "\x1b[3;5~", "\x1b[2~", "\x1bOP", "\x1b[3", "~", "abc", "A", "[", "\x1b\x1b", "\x1b[33~", "\x1b[200~", "3", "\xc3\xa9"};
    while (in.more() && bytes.size() < 60) { unsigned c = in.byte(); if (c < 160) bytes += pieces[c % pieces.size()]; else if (c < 200) bytes += char(in.byte()); else bytes += char(c < 230 ? in.below(128) : 32 + in.below(32)); }
    std::vector<Key> want; Reader r{bytes, 0, false}; Key k;
    if (how & 1)
    {
        while (key(r, true, k)) want.push_back(k);
        Now now; static cli::Cli c(std::make_unique<cli::Menu>("cli")); static std::ostringstream sink;
        Tel t(now, c);
        if (how & 2) for (char b : bytes) t.Byte(b);
        else
        {
            std::string enc; for (char b : bytes) { enc += b; if (b == '\xff') enc += b; }
            unsigned x = how | 1; for (std::size_t i = 0; i < enc.size();) { x = x * 1103515245u + 12345u; std::size_t n = std::min<std::size_t>(1 + (x >> 16) % 6, enc.size() - i); t.Rx(enc.substr(i, n)); i += n; }
        }
        compare("telnet", t.got, want, bytes); count("telnet keys");
    }
    else
    {
        // behind the bytes the input is at its end: every read gives "end of input"
        std::string more = bytes + std::string(4, '\xff'); Reader q{more, 0, false};
        while (q.p < bytes.size() + 1 && key(q, false, k)) want.push_back(k);
        int fd[2], save = dup(0); if (pipe(fd) != 0) return;
        if (write(fd[1], bytes.data(), bytes.size()) != ssize_t(bytes.size())) fail("driver: pipe"); close(fd[1]); dup2(fd[0], 0); close(fd[0]);
        Limited s; s.max = want.size(); std::vector<Key> got;
        { LinuxKeyboard kb(s); kb.Register([&](Key x) { got.push_back(x); }); for (double t = now(); !s.full() && now() < t + 8;) usleep(20); for (auto& f : s.q) f(); }
        dup2(save, 0); close(save);
        compare("keyboard", got, want, bytes); count("local keys");
    }
    if (want.size() > 1) nontrivial(bytes + char(how & 1));
}
std::string generate(Rng& r, long) { std::string s; unsigned n = 2 + r.below(20); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
