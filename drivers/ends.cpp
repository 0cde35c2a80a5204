// C17 (how sessions of every kind start and end) and C20 (file sessions), on the real classes
#include "common.h"
#include <sstream>
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/clifilesession.h>
#include <cli/clilocalsession.h>
#include <cli/loopscheduler.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
using V = std::vector<std::string>;
static V ev; static V want; static std::istream* input = nullptr; static const std::ostream* expected_stream = nullptr;
struct Store_ : cli::HistoryStorage
{
    void Store(const V& c) override { ev.push_back("store " + show(c)); }
    V Commands() const override { return {"old"}; }
    void Clear() override {}
};
static std::function<void(std::ostream&)> act(const std::string& n) { return [n](std::ostream& o) { ev.push_back(n); if (expected_stream && &o != expected_stream) ev.push_back("wrong stream"); o << "<" << n << ">"; }; }
static void check(const std::string& what) { if (ev != want) fail(what + ": happened " + show(ev) + ", expected " + show(want)); }
static std::unique_ptr<cli::Cli> make(unsigned opt)
{
    auto m = std::make_unique<cli::Menu>("cli");
    m->Insert("foo", [](std::ostream& o) { ev.push_back("foo"); o << "[foo]\n"; });
    m->Insert("num", [](std::ostream& o, int n) { ev.push_back("num"); o << "[" << n << "]\n"; });
#if PROP == 20
    m->Insert("take", [](std::ostream& o) { ev.push_back("take"); std::string l; std::getline(*input, l); o << "{" << l << "}\n"; });
    m->Insert("break", [](std::ostream& o) { ev.push_back("break"); o << "[break]\n"; input->setstate(std::ios::failbit); });
    m->Insert("ruin", [](std::ostream& o) { ev.push_back("ruin"); o << "[ruin]\n"; input->setstate(std::ios::badbit); });
#endif
    auto c = std::make_unique<cli::Cli>(std::move(m), std::make_unique<Store_>());
    if (opt & 1) c->EnterAction(act("ge"));
    if (opt & 2) c->ExitAction(act("gx"));
    return c;
}
static boost::asio::io_context& io() { static boost::asio::io_context c; return c; }
struct Now : cli::Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct Tel : cli::detail::CliTelnetSession
{
    using Base = cli::detail::CliTelnetSession;
    Tel(cli::Scheduler& s, cli::Cli& c, const std::function<void(std::ostream&)>& x) : Base(s, boost::asio::ip::tcp::socket(io()), c, x, 10) {}
    void Connect() { OnConnect(); }
    void Rx(const std::string& s) { OnDataReceived(s); }
    void Send(const std::string& m) override { sent += m; }
    void Disconnect() override { ev.push_back("disconnect"); Base::Disconnect(); /* the socket is not connected: the peer is gone */ }
    std::string sent;
};
static V typed(const V& lines) { V v; for (auto& l : lines) if (l.find_first_not_of(" \t") != std::string::npos && (v.empty() || v.back() != l)) v.push_back(l); return v; }
struct Stdin { int save; int fd[2]; explicit Stdin(const std::string& s, bool keep = false) { save = dup(0); if (pipe(fd)) fail("driver: pipe"); if (write(fd[1], s.data(), s.size()) != ssize_t(s.size())) fail("driver: pipe"); dup2(fd[0], 0); close(fd[0]); if (!keep) { close(fd[1]); fd[1] = -1; } } ~Stdin() { if (fd[1] >= 0) close(fd[1]); dup2(save, 0); close(save); } };
#if PROP == 20
void run(Src& in)
{
    unsigned opt = in.byte(); bool async = in.below(24) == 0; auto c = make(opt & 3); ev.clear(); want.clear(); expected_stream = nullptr;
    static const V lines{"foo", "num 3", "", "  ", "exit", "bad thing", "num x", "foo\r", "# c", " foo ", "exit now", std::string("f\0o", 3), "quit", "take", "take", "break", "ruin"};
    std::string text, out; bool over = false, broken = false, taken = false; V seq; unsigned n = 0; std::vector<long> pos; long endpos = -1;
    if (opt & 1) { out += "<ge>"; want.push_back("ge"); }
    V fed;
    while (in.more() && n < 30)
    {
        ++n; auto l = in.pick(lines); if (async && (l == "take" || l == "break" || l == "ruin")) l = "foo"; bool last = !in.more() && (opt & 4);
        if (in.below(40) == 0) l = std::string(300, 'y');
        if ((l == "exit" || l == "break" || l == "ruin") && in.below(3)) l = "foo";
        text += l; if (last) { if (taken) { taken = false; out += "{" + l + "}\n"; } break; } text += '\n';
        if (over || broken) continue;
        if (taken) { taken = false; out += "{" + l + "}\n"; continue; }
        out += "cli> "; fed.push_back(l);
        if (l == "foo" || l == " foo ") { out += "[foo]\n"; want.push_back("foo"); }
        else if (l == "num 3") { out += "[3]\n"; want.push_back("num"); }
        else if (l == "take") { want.push_back("take"); taken = true; }       // the handler reads the next line itself
        else if (l == "break" || l == "ruin") { out += "[" + l + "]\n"; want.push_back(l); broken = true; count("broken by a handler"); }
        else if (l == "exit") { over = true; endpos = long(text.size()); }
        else if (l.find_first_not_of(" \t") != std::string::npos) out += "wrong command: " + l + "\n";
    }
    if (taken) out += "{}\n";
    if (!over) out += "cli> ";
    if (opt & 8) want.push_back("sx"), out += "<sx>";
    if (opt & 2) want.push_back("gx"), out += "<gx>";
    std::istringstream is(text); std::ostringstream os; note((async ? "async " : "") + ("input " + show(text)));
    if (async)
    {
        count("async session"); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{std::cout.rdbuf(os.rdbuf())};
        {
            Stdin si(text); cli::BoostAsioScheduler s; cli::BoostAsioCliAsyncSession a(s, *c); if (opt & 8) a.ExitAction(act("sx"));
            double t = now(); auto done = [&] { V w2; for (auto& x : ev) if (x.compare(0, 5, "store")) w2.push_back(x); return w2 == want && os.str() == out; };
            for (int i = 0; now() < t + 4; ++i) { s.PollOne(); if (done() && i > int(n) + 4) break; if (i > 300) usleep(50); }
        }
        V w2; for (auto& x : ev) if (x.compare(0, 5, "store")) w2.push_back(x);
        ev = w2; check("async session"); if (os.str() != out) fail("async session: output " + show(os.str()) + ", expected " + show(out)); return;
    }
    if (opt & 16)
    {
        unsigned k = in.below(6); std::ios& s = k < 3 ? static_cast<std::ios&>(is) : os; s.setstate(k % 3 == 0 ? std::ios::eofbit : k % 3 == 1 ? std::ios::failbit : std::ios::badbit);
        if ((opt & 224) == 0)
        {
            bool refused = false; try { cli::CliFileSession f(*c, is, os); } catch (const std::invalid_argument&) { refused = true; }
            if (!refused) fail("an invalid stream is accepted"); count("refused"); return;
        }
        is.clear(); os.clear();
    }
    {
        cli::CliFileSession f(*c, is, os); expected_stream = &os;
        if (opt & 8) f.ExitAction(act("sx"));
        if (is.tellg() != std::streampos(0)) fail("the constructor reads from the stream");
        input = &is; f.Start();
    }
    V w2; for (auto& x : ev) if (x.compare(0, 5, "store")) w2.push_back(x);
    ev = w2; check("file session");
    if (os.str() != out) fail("output " + show(os.str()) + ", expected " + show(out));
    if (over) { is.clear(); if (long(is.tellg()) != endpos) fail("read up to " + std::to_string(long(is.tellg())) + ", the line that ends the session ends at " + std::to_string(endpos)); count("ended by exit"); }
    if (fed.size() > 1) nontrivial(text);
}
#else
static V expect(unsigned opt, const V& lines, bool local, const std::string& kind)
{
    // what must happen: enter actions, commands, exit actions, storage
    V w; bool over = false; V kept;
    if (opt & 1) w.push_back("ge");
    if (opt & 4 && !local) w.push_back("se");
    for (auto& l : lines) { if (over) break; kept.push_back(l); if (l == "foo") w.push_back("foo"); if (l == "exit") over = true; }
    if (opt & 8) w.push_back(kind == "telnet" ? "server exit" : "sx");
    if (kind == "telnet") w.push_back("disconnect");
    if (opt & 2) w.push_back("gx");
    std::size_t cap = kind == "file" || kind == "async" ? 1 : 10; auto t = typed(kept); if (t.size() > cap) t.erase(t.begin(), t.end() - long(cap));
    w.push_back("store " + show(t)); return w;
}
template <class F> static void wait(F pump) { double t = now(); for (int i = 0; ev != want && now() < t + 8; ++i) { pump(); if (i > 300) usleep(50); } }
static void no_prompt_after(const std::string& out, unsigned opt, const std::string& kind)
{
    std::string last = opt & 2 ? "<gx>" : opt & 8 ? (kind == "telnet" ? "<server exit>" : "<sx>") : "";
    if (last.empty()) return; auto p = out.rfind(last); if (p == std::string::npos) fail("the exit action did not write to the session"); if (out.find("cli> ", p) != std::string::npos) fail("a prompt is shown after the end: " + show(out));
}
void run(Src& in)
{
    unsigned kind = in.below(16), opt = in.byte(); expected_stream = nullptr;
    V lines; bool exits = in.flag(); unsigned n = in.below(5);
    for (unsigned i = 0; i < n; ++i) lines.push_back(in.pick(V{"foo", "bar", "", "foo x", "help"}));
    if (exits) { lines.push_back("exit"); if (in.flag()) lines.push_back("foo"); }
    auto c = make(opt & 3); ev.clear(); want.clear();
    note("kind " + std::to_string(kind) + " options " + std::to_string(opt) + " lines " + show(lines));
    std::string text; for (auto& l : lines) text += l + "\n";
    if (kind < 5)
    {
        count("file"); want = expect(opt, lines, false, "file"); std::istringstream is(text); std::ostringstream os;
        { cli::CliFileSession f(*c, is, os); expected_stream = &os; if (opt & 4) f.EnterAction(act("se")); if (opt & 8) f.ExitAction(act("sx")); else if (opt & 16) f.ExitAction(nullptr); f.Start(); check("file session"); f.Exit(); f.Prompt(); check("file session ended twice"); }
        check("file session"); no_prompt_after(os.str(), opt, "file");
    }
    else if (kind < 11)
    {
        count("telnet"); Now now; want = expect(opt, lines, false, "telnet"); std::string out;
        {
            Tel t(now, *c, opt & 8 ? act("server exit") : std::function<void(std::ostream&)>());
            if (opt & 4) t.EnterAction(act("se"));
            t.Connect(); if (t.sent.find("cli> ") == std::string::npos) fail("no prompt after the connection");
            for (auto& l : lines) { if (l.empty()) { t.Rx(std::string("\r\0", 2)); continue; } t.Rx(l + "\r\n"); if (l == "exit") break; }
            if (!exits) t.Rx("\x04");
            check("telnet session"); t.Rx("\x04"); t.Rx(std::string("\r\0", 2)); check("telnet session ended twice"); out = t.sent;
        }
        check("telnet session"); no_prompt_after(out, opt, "telnet");
    }
    else if (kind < 12)
    {
        count("async"); want = expect(opt & ~8u, lines, true, "async"); std::ostringstream sink; auto* b = std::cout.rdbuf(sink.rdbuf());
        struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{b};
        { Stdin si(text); cli::BoostAsioScheduler s; cli::BoostAsioCliAsyncSession a(s, *c); for (int i = 0; i < int(lines.size()) + 3; ++i) s.PollOne(); wait([&] { s.PollOne(); }); check("async session"); a.Exit(); check("async session ended twice"); }
        check("async session"); no_prompt_after(sink.str(), opt & ~8u, "async");
    }
    else if (kind < 13)
    {
        count("local"); want = expect(opt, lines, true, "local"); std::ostringstream os; expected_stream = &os; text += "\x04";
        { Stdin si(text); cli::LoopScheduler s; cli::CliLocalTerminalSession l(*c, s, os, 10); if (opt & 8) l.ExitAction(act("sx")); wait([&] { s.PollOne(); }); check("local session"); l.Exit(); check("local session ended twice"); }
        no_prompt_after(os.str(), opt, "local");
    }
    else
    {
        count("server"); cli::BoostAsioScheduler s; cli::BoostAsioCliTelnetServer server(*c, s, std::string("127.0.0.1"), 0, 10);
        server.EnterAction(opt & 4 ? act("se") : std::function<void(std::ostream&)>()); server.ExitAction(opt & 8 ? act("server exit") : std::function<void(std::ostream&)>());
        namespace ip = boost::asio::ip; ip::tcp::acceptor acc(s.AsioContext(), ip::tcp::endpoint(ip::make_address("127.0.0.1"), 0)); ip::tcp::socket cl(s.AsioContext()), sv(s.AsioContext()); cl.connect(acc.local_endpoint()); acc.accept(sv);
        { auto ses = server.CreateSession(std::move(sv)); ses->Start(); }
        std::string bytes; for (auto& l : lines) { bytes += l + "\r\n"; if (l == "exit") break; } if (!exits) bytes += '\x04';
        bool gone = opt & 64; boost::system::error_code ec; boost::asio::write(cl, boost::asio::buffer(bytes), ec); if (gone) { cl.set_option(boost::asio::socket_base::linger(true, 0), ec); if (opt & 32) cl.close(ec); }
        want = expect(opt, lines, false, "telnet"); want.erase(std::remove(want.begin(), want.end(), "disconnect"), want.end());
        bool reset = gone && (opt & 32);
        if (reset) for (int i = 0; i < 100; ++i) s.PollOne(); else wait([&] { s.PollOne(); });
        for (int i = 0; i < 20; ++i) s.PollOne();
        if (!reset)
        {
            check("telnet server session");
            std::string out; char b[4096]; cl.non_blocking(true, ec); bool closed = false;
            for (double t = now(); !closed && now() < t + 8;) { auto k = cl.read_some(boost::asio::buffer(b), ec); if (ec == boost::asio::error::would_block) { s.PollOne(); usleep(50); continue; } if (ec) closed = true; out.append(b, k); }
            if (!closed) fail("the connection is not closed at the end of the session");
            no_prompt_after(out, opt & ~2u, "telnet"); // the connection is already closed when the global exit action runs
        }
        else for (auto x : {"gx", "server exit", "ge", "se"}) if (std::count(ev.begin(), ev.end(), std::string(x)) > 1) fail(std::string("the action ") + x + " ran more than once");
    }
    nontrivial(std::to_string(kind) + "/" + std::to_string(opt & 31) + text);
}
#endif
std::string generate(Rng& r, long) { std::string s; unsigned n = 8 + r.below(PROP == 20 ? 60 : 10); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
