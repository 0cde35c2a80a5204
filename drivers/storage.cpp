// C10: what sessions hand to the storage and what a storage returns: the newest N lines stored since it was last cleared, in order.
#include "common.h"
#include <cstdlib>
#include <cli/cli.h>
#include <cli/volatilehistorystorage.h>
#include <cli/filehistorystorage.h>
#include "history_model.h"
static const V LINES{"a", "b", "foo", "", " ", "a", "foo bar", "x\ty", "\"q\"", "r\r", std::string("n\0n", 3), "\xff\x80", "history", "zz"};
struct Scratch
{
    char dir[32]; std::string file;
    Scratch() { std::strcpy(dir, "/tmp/c10driverXXXXXX"); if (!mkdtemp(dir)) fail("no scratch directory"); file = std::string(dir) + "/h"; }
    ~Scratch() { unlink(file.c_str()); rmdir(dir); }
};
struct Spy : cli::HistoryStorage      // forwards to the storage under test, notes what is handed over
{
    cli::HistoryStorage& s; V* got; explicit Spy(cli::HistoryStorage& x, V* g) : s(x), got(g) {}
    void Store(const std::vector<std::string>& c) override { *got = c; s.Store(c); }
    std::vector<std::string> Commands() const override { return s.Commands(); }
    void Clear() override { s.Clear(); }
};
void run(Src& in)
{
    bool file = in.flag(); std::size_t size = in.below(8); Scratch sc; V want;
    auto mk = [&]() -> std::unique_ptr<cli::HistoryStorage> { if (file) return std::make_unique<cli::FileHistoryStorage>(sc.file, size); return std::make_unique<cli::VolatileHistoryStorage>(size); };
    auto st = mk(); note(std::string(file ? "file" : "volatile") + " storage of size " + std::to_string(size));
    auto check = [&](const char* when) { auto g = st->Commands(); if (g != want) fail(std::string(when) + " the storage holds " + show(g) + " instead of " + show(want)); };
    auto stored = [&](const V& c) { want.insert(want.end(), c.begin(), c.end()); if (want.size() > size) want.erase(want.begin(), want.end() - long(size)); };
    check("at the start"); std::string key;
    while (in.more())
    {
        unsigned op = in.below(8); key += char('0' + op);
        if (op <= 2) { V c; unsigned n = in.below(5); if (n == 4) n = in.below(12); for (unsigned i = 0; i < n; ++i) c.push_back(in.pick(LINES)); note("store " + show(c)); st->Store(c); stored(c); count("stores"); check("after storing"); }
        else if (op == 3) { note("clear"); st->Clear(); want.clear(); check("after clearing"); count("clears"); }
        else if (op == 4) { if (file) { note("new object on the same file"); st = mk(); check("a new object:"); } else { note("again"); check("asked again"); } }
        else
        {
            V got{"never"}; cli::Cli c(std::make_unique<cli::Menu>("m"), std::make_unique<Spy>(*st, &got));
            std::ostringstream o; Model m; m.cap = in.below(6); note("session with history of " + std::to_string(m.cap));
            cli::CliSession s(c, o, m.cap); for (auto& x : want) m.push(x, false);
            unsigned n = in.below(8);
            for (unsigned i = 0; i < n; ++i)
            {
                unsigned k = in.below(6); auto t = in.pick(LINES);
                if (k == 4) { note("up"); s.PreviousCmd(t); m.up(t); }
                else if (k == 5) { note("down"); s.NextCmd(); m.down(); }
                else { note("line " + show(t)); s.Feed(t); if (t.find_first_not_of(" \t\r") != std::string::npos) m.enter(t); }
            }
            auto w = m.stored(); note("exit"); if (in.flag()) { s.Feed("exit"); m.enter("exit"); w = m.stored(); } else s.Exit();
            if (got != w) fail("the session hands over " + show(got) + ", it recorded and retains " + show(w));
            stored(w); check("after the session"); count("sessions");
            s.Exit(); check("after the second exit");
        }
    }
    if (key.size() > 1) nontrivial(key + char('0' + size) + (file ? 'f' : 'v'));
}
std::string generate(Rng& r, long)
{
    std::string s; s += char(r.below(2)); s += char(r.below(8)); unsigned n = 1 + r.below(6);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned op = r.below(8); s += char(op);
        if (op <= 2) { unsigned k = r.below(6) ? r.below(4) : 4; s += char(k); if (k == 4) { k = r.below(12); s += char(k); } for (unsigned j = 0; j < k; ++j) s += char(r.below(14)); }
        else if (op > 4) { s += char(r.below(6)); unsigned k = r.below(8); s += char(k); for (unsigned j = 0; j < k; ++j) { s += char(r.below(6)); s += char(r.below(14)); } s += char(r.below(2)); }
    }
    return s;
}
