// C18: the global output stream with sessions opening and closing, several of them on the same stream
#include "common.h"
#include <iomanip>
#include <thread>
#include <cli/cli.h>
// a stream whose device is full after some characters
struct Full : std::streambuf
{
    std::size_t room; explicit Full(std::size_t r) : room(r) {}
    std::streamsize xsputn(const char*, std::streamsize n) override { auto k = std::min<std::size_t>(room, std::size_t(n)); room -= k; return std::streamsize(k); }
    int overflow(int c) override { if (room == 0) return traits_type::eof(); --room; return c; }
};
void run(Src& in)
{
    const std::size_t N = 4;
    Full fb(in.below(8)); std::ostream full(&fb);
    std::vector<std::unique_ptr<std::ostringstream>> os; std::vector<std::string> want(N + 1);
    for (std::size_t i = 0; i < N; ++i) os.push_back(std::make_unique<std::ostringstream>());
    auto mk = [] { auto m = std::make_unique<cli::Menu>("cli"); return m; };
    std::vector<std::unique_ptr<cli::Cli>> clis; for (int i = 0; i < 2; ++i) clis.push_back(std::make_unique<cli::Cli>(mk()));
    struct Open { std::unique_ptr<cli::CliSession> s; std::size_t o; };
    std::vector<Open> open; std::string key;
    auto put = [&](const std::string& x) { for (auto& y : open) want[y.o] += x; };
    auto& g = cli::Cli::cout();
    while (in.more())
    {
        unsigned op = in.below(12); key += char('a' + op);
        if (op < 3 && open.size() < 6) { auto o = in.below(N + 1); note(o == N ? "open on a full stream" : "open on stream " + std::to_string(o)); open.push_back({std::make_unique<cli::CliSession>(*clis[in.below(2)], o == N ? full : *os[o]), o}); count("opened"); }
        else if (op < 5 && !open.empty()) { auto i = in.below(unsigned(open.size())); note("close session on stream " + std::to_string(open[i].o)); open.erase(open.begin() + int(i)); count("closed"); }
        else if (op < 7) { std::string x; for (unsigned n = in.below(9); n; --n) x += char(in.below(256)); bool other = in.below(4) == 0; note((other ? "write from another thread " : "write ") + show(x)); if (other) std::thread([&] { cli::Cli::cout() << x; }).join(); else g << x; put(x); count("writes"); }
        else if (op == 7) { int v = int(in.byte()) - 100; note("write a number"); g << v; g << std::endl; put(std::to_string(v)); put("\n"); }
        else if (op == 8) { char c = char(in.byte()); if (c == char(-1)) c = 'q'; note("put a character"); if (in.flag()) g.put(c); else g << c; put(std::string(1, c)); }
        else if (op == 9) { g << "text" << std::setw(5) << 42 << '\n' << std::flush; put("text"); put("   42"); put("\n"); note("formatted"); }
        else if (op == 10) { std::string x(200 + in.byte() * 9, 'L'); note("long text"); g << x; put(x); }
        else if (op == 11 && !open.empty()) { auto i = in.below(unsigned(open.size())); note("end (not close) session on stream " + std::to_string(open[i].o)); if (in.flag()) open[i].s->Feed("exit"); else open[i].s->Exit(); }
        if (!g) fail("the global stream is in an error state");
        for (std::size_t i = 0; i < N; ++i) if (os[i]->str() != want[i]) fail("stream " + std::to_string(i) + " has " + show(os[i]->str().substr(0, 300)) + " expected " + show(want[i].substr(0, 300)));
    }
    nontrivial(key);
}
std::string generate(Rng& r, long) { std::string s; unsigned n = r.below(120); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
