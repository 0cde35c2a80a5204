// D27: g++ -std=c++14 -g -fsanitize=address -I/repo/include d27.cpp && ./a.out   -> heap-use-after-free in CliSession::Feed
#include <cli/cli.h>
#include <sstream>
using namespace cli;
int main()
{
    auto root = std::make_unique<Menu>("root");
    auto sub = std::make_unique<Menu>("sub");
    sub->Insert("hello", [](std::ostream& o){ o << "hello\n"; });
    auto h = root->Insert(std::move(sub));
    Cli c(std::move(root));
    std::ostringstream out;
    CliSession s(c, out);
    s.Feed("sub");   // the current menu is now "sub"
    h.Remove();      // destroys it
    s.Feed("hello"); // reads the destroyed menu
}
