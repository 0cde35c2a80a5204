// C17, C15: a telnet server over real connections: every client gets its own session, started, whatever the others do; C19: the asio scheduler
#include "common.h"
#include <sstream>
#include <memory>
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
namespace ip = boost::asio::ip; using boost::system::error_code;
// what a telnet client shows of the bytes it gets
static std::string shown(const std::string& b)
{
    std::string o; int st = 0;
    for (unsigned char c : b)
        switch (st)
        {
            case 0: if (c == 255) st = 1; else o += char(c); break;
            case 1: if (c == 255) { o += char(c); st = 0; } else st = c >= 251 && c <= 254 ? 2 : c == 250 ? 3 : 0; break;
            case 2: st = 0; break;
            case 3: if (c == 255) st = 4; break;
            default: st = c == 240 ? 0 : 3;
        }
    return o;
}
struct Client { std::unique_ptr<ip::tcp::socket> s; std::string in; bool closed = false; int id = 0;
    void read() { char b[2048]; error_code ec; for (;;) { auto k = s->read_some(boost::asio::buffer(b), ec); if (ec == boost::asio::error::would_block) return; if (ec) { closed = true; return; } in.append(b, k); } } };
static void telnet(Src& in)
{
    int entered = 0, exited = 0, ran = 0; boost::asio::io_context io;
    auto root = std::make_unique<cli::Menu>("cli"); root->Insert("hi", [&](std::ostream& o) { ++ran; o << "hello there\n"; }, "");
    cli::Cli c(std::move(root)); std::string script;
    std::unique_ptr<cli::BoostAsioScheduler> sch(in.flag() ? new cli::BoostAsioScheduler() : new cli::BoostAsioScheduler(io)); auto& s = *sch;
    std::unique_ptr<cli::BoostAsioCliTelnetServer> srv; unsigned short port = 0; bool addr = in.flag();
    for (int t = 0; t < 20 && !srv; ++t)
    {
        { ip::tcp::acceptor a(s.AsioContext(), ip::tcp::endpoint(ip::make_address("127.0.0.1"), 0)); port = a.local_endpoint().port(); }
        try { srv.reset(addr ? new cli::BoostAsioCliTelnetServer(c, s, std::string("127.0.0.1"), port, 5) : new cli::BoostAsioCliTelnetServer(c, s, port, 5)); } catch (const std::exception&) {}
    }
    if (!srv) return;
    bool se = in.flag(), sx = in.flag(), angry = false; auto step = [&] { try { s.PollOne(); } catch (const std::runtime_error&) {} };
    if (se && in.flag()) srv->EnterAction([&](std::ostream& o) { o << "not this one\n"; });
    if (sx && in.flag()) srv->ExitAction([&](std::ostream& o) { o << "not this one\n"; });
    if (se) srv->EnterAction([&](std::ostream& o) { ++entered; if (angry) throw std::runtime_error("enter"); o << "welcome\n"; });
    if (sx) srv->ExitAction([&](std::ostream& o) { ++exited; o << "bye\n"; });
    auto pump = [&](const std::function<bool()>& done) { for (double t = now(); !done() && now() < t + 8;) step(); return done(); };
    std::vector<std::unique_ptr<Client>> open; unsigned n = 1 + in.below(4); int went = 0;
    for (unsigned i = 0; i <= n; ++i)
    {
        unsigned what = i == n ? 0 : in.below(se ? 5 : 4); error_code ec;
        auto cl = std::make_unique<Client>(); cl->s.reset(new ip::tcp::socket(s.AsioContext())); cl->s->connect(ip::tcp::endpoint(ip::make_address("127.0.0.1"), port), ec); if (ec) fail("the server refuses a connection after" + script);
        const bool early = what != 1 && in.flag(); if (early) { boost::asio::write(*cl->s, boost::asio::buffer(std::string("\xff\xf1", 2)), ec); script += " early"; note("a client sends before it is accepted"); if (in.flag()) usleep(1000); }
        if (what == 1) { cl->s->set_option(ip::tcp::socket::linger(true, 0), ec); cl->s->close(ec); script += " reset"; for (int k = 0; k < 30; ++k) step(); continue; }
        if (what == 4) { script += " refused"; int b = entered; angry = true; note("the enter action throws"); if (!pump([&] { return entered > b; })) fail("a client gets no session after" + script); angry = false; continue; }
        cl->s->non_blocking(true); const std::string greeting = se ? "welcome\r\ncli> " : "cli> "; int before = entered;
        if (!pump([&] { cl->read(); return cl->closed || shown(cl->in).size() >= greeting.size(); })) fail("a client gets no session after" + script);
        if (shown(cl->in) != greeting) fail("a new client gets " + show(shown(cl->in)) + ", expected " + show(greeting));
        if (se && entered < before + 1) fail("the enter action did not run");
        if (what == 2) { script += " stays"; open.push_back(std::move(cl)); continue; }
        cl->in.clear(); int r0 = ran, x0 = exited; boost::asio::write(*cl->s, boost::asio::buffer(std::string("hi\r\n")), ec);
        if (!pump([&] { cl->read(); return cl->closed || (shown(cl->in).find("hello there\r\n") != std::string::npos && shown(cl->in).rfind("cli> ") > 3 && shown(cl->in).size() > 20); })) fail("a command is not executed: " + show(shown(cl->in)));
        if (ran != r0 + 1) fail("a command ran " + std::to_string(ran - r0) + " times");
        if (what == 3) { cl->s->close(ec); script += " gone"; for (int k = 0; k < 30; ++k) step(); continue; }
        cl->in.clear(); boost::asio::write(*cl->s, boost::asio::buffer(std::string("exit\r\n")), ec); script += " exit";
        if (!pump([&] { cl->read(); return cl->closed; })) fail("the connection is not closed by exit");
        if (exited != x0 + (sx ? 1 : 0)) fail("the exit action of the server ran " + std::to_string(exited - x0) + " times");
        if (shown(cl->in).find("cli> ") != std::string::npos) fail("a prompt after exit");
        ++went;
    }
    for (auto& x : open) { x->read(); if (x->closed) fail("a session is ended by what other clients do:" + script); }
    count("servers"); if (went) nontrivial(script + (addr ? "a" : ""));
    if (in.flag()) open.clear(); srv.reset(); script += " destroyed"; note("destroy the server"); for (int k = 0; k < 50; ++k) s.PollOne();
    for (auto& x : open) { x->read(); if (x->closed) fail("a session is ended by the end of the server:" + script); x->in.clear(); error_code ec; boost::asio::write(*x->s, boost::asio::buffer(std::string("hi\r\n")), ec); if (!pump([&] { x->read(); return x->closed || shown(x->in).find("hello there\r\n") != std::string::npos; }) || x->closed) fail("a session does not work after the end of its server"); }
}
struct Boom {};
static void scheduler(Src& in)
{
    boost::asio::io_context io; auto work = boost::asio::make_work_guard(io); bool own = in.flag(); std::string key(own ? "own " : "given ");
    std::unique_ptr<cli::BoostAsioScheduler> sch(own ? new cli::BoostAsioScheduler() : new cli::BoostAsioScheduler(io)); auto& s = *sch;
    if (!own && &s.AsioContext() != &io) fail("the scheduler does not use the context given");
    std::vector<int> ran; int next = 0; bool stopped = false; std::vector<int> want; std::vector<unsigned> kind;
    std::function<void(unsigned)> post = [&](unsigned k) { int id = next++; kind.push_back(k); want.push_back(id); s.Post([&, id] { ran.push_back(id); switch (kind[std::size_t(id)]) { case 1: post(0); break; case 2: s.Stop(); stopped = true; break; case 3: throw Boom(); default: break; } }); };
    while (in.more() && next < 60)
    {
        unsigned op = in.below(6); key += char('a' + op); std::size_t r0 = ran.size();
        if (op < 3) { unsigned k = in.below(16); note("post kind " + std::to_string(k)); post(k < 4 ? k : 0); continue; }
        bool pending = ran.size() < want.size();
        try { if (op == 3 && pending && !stopped) { note("ExecOne"); s.ExecOne(); } else if (op == 4 && stopped) { note("Run"); s.Run(); } else { note("PollOne"); s.PollOne(); } } catch (const Boom&) {}
        if (ran.size() != r0 + ((pending && !(stopped && ran.size() == r0)) ? 1 : 0)) fail("one step executed " + std::to_string(ran.size() - r0) + " tasks");
        if (s.Stopped() && !stopped) fail("Stopped() without a stop");
        if (stopped && !s.Stopped()) fail("not Stopped() after a stop");
        for (std::size_t i = 0; i < ran.size(); ++i) if (ran[i] != int(i)) fail("tasks are executed out of order or twice");
    }
    if (!stopped) { for (unsigned i = 0; i < 200 && ran.size() < want.size() && !stopped; ++i) try { s.PollOne(); } catch (const Boom&) {} if (!stopped && ran.size() != want.size()) fail("a task is never executed"); }
    if (!stopped && own) { s.Post([&] { s.Stop(); }); std::size_t r = ran.size(); note("Run until stopped"); s.Run(); if (!s.Stopped() || ran.size() != r) fail("Run() returns without a stop"); }
    count("schedulers"); nontrivial(key);
}
#ifndef PROP
#define PROP 17
#endif
void run(Src& in) { if (PROP == 19) scheduler(in); else telnet(in); }
std::string generate(Rng& r, long) { std::string s; unsigned n = 8 + r.below(30); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
