// D30: a telnet server destroyed while its io context goes on running is used after it is gone (the handler of the pending accept).
// g++ -std=c++14 -g -w -fsanitize=address -DBOOST_ASIO_DISABLE_VISIBILITY -I/repo/include d30.cpp -lpthread
#include <memory>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
int main()
{
    cli::Cli c(std::make_unique<cli::Menu>("cli"));
    cli::BoostAsioScheduler s;
    auto srv = std::make_unique<cli::BoostAsioCliTelnetServer>(c, s, "127.0.0.1", 0, 5);
    srv.reset();                                    // the server is closed; the program goes on
    for (int i = 0; i < 10; ++i) s.PollOne();
}
