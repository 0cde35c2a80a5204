// D31 (fixed): a telnet server stopped accepting for ever when an enter action threw (the exception left the io context before
// the next connection was awaited).
// g++ -std=c++14 -g -w -DBOOST_ASIO_DISABLE_VISIBILITY -I/repo/include d31.cpp -lpthread && ./a.out   (0: right)
#include <memory>
#include <iostream>
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using boost::asio::ip::tcp;
static bool served(unsigned short port, cli::BoostAsioScheduler& s)
{
    boost::asio::io_context io; tcp::socket k(io); k.connect({boost::asio::ip::make_address("127.0.0.1"), port}); k.non_blocking(true);
    for (int i = 0; i < 200; ++i)
    {
        try { s.PollOne(); } catch (const std::exception& e) { std::cerr << e.what() << "\n"; return false; }
        boost::system::error_code ec; char b[64]; auto n = k.read_some(boost::asio::buffer(b), ec); if (!ec && n) return true;
        usleep(5000);
    }
    return false;
}
int main()
{
    unsigned short port; { boost::asio::io_context io; tcp::acceptor a(io, {tcp::v4(), 0}); port = a.local_endpoint().port(); }
    cli::Cli c(std::make_unique<cli::Menu>("cli"));
    cli::BoostAsioScheduler s; int n = 0;
    cli::BoostAsioCliTelnetServer srv(c, s, "127.0.0.1", port, 5);
    srv.EnterAction([&](std::ostream&) { if (n++ == 0) throw std::runtime_error("no"); });
    served(port, s);
    return served(port, s) ? 0 : 1;
}
