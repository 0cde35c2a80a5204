// Translation unit read by the verifier: only includes /repo headers and instantiates templates.
#include <cli/cli.h>
#include <cli/clifilesession.h>
#include <cli/clilocalsession.h>
#include <cli/filehistorystorage.h>
#include <cli/volatilehistorystorage.h>
#include <cli/loopscheduler.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
#include <cli/detail/commandprocessor.h>

// Handlers of every shape the library accepts (their bodies are the user's: only declared).
struct H_none { void operator()(std::ostream&) const; };
struct H_int { void operator()(std::ostream&, int) const; };
struct H_str { void operator()(std::ostream&, const std::string&) const; };
struct H_str_uint { int operator()(std::ostream&, std::string, unsigned) const; };
struct H_bool_char_long { void operator()(std::ostream&, bool, char, long) const; };
struct H_small { void operator()(std::ostream&, short, unsigned short, signed char, unsigned char) const; };
struct H_ll { void operator()(std::ostream&, long long, unsigned long long, unsigned long) const; };
struct H_free { void operator()(std::ostream&, const std::vector<std::string>&) const; };
struct H_free_val { void operator()(std::ostream&, std::vector<std::string>) const; };
void inst(cli::Menu& m, H_none a, H_int b, H_str c, H_str_uint d, H_bool_char_long e, H_small f, H_ll g, H_free h, H_free_val i, void (*p)(std::ostream&, int, const std::string&), cli::CliSession& s, cli::Cli& cl, std::istream& is)
{
    m.Insert("a", a); m.Insert("b", b); m.Insert("c", c); m.Insert("d", d); m.Insert("e", e); m.Insert("f", f); m.Insert("g", g);
    m.Insert("h", h); m.Insert("i", i); m.Insert("p", p, "help"); m.Insert("q", {"par"}, b, "help");
}
// a parameter type of the user's, with its own stream extraction
namespace cli { enum class UserValue : int {}; std::istream& operator>>(std::istream&, UserValue&); }
cli::UserValue inst_user(const std::string& s) { return cli::detail::from_string<cli::UserValue>(s); }
template class cli::detail::CliGenericTelnetServer<cli::detail::BoostAsioLib>;
template class cli::detail::GenericCliAsyncSession<cli::detail::BoostAsioLib>;
template class cli::detail::GenericAsioScheduler<cli::detail::BoostAsioLib>;
