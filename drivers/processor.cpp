// C14: key events through InputDevice, CommandProcessor, Terminal and a session, against a line model, a second session driven directly, and a terminal emulator.
#include "common.h"
#include "screen_emu.h"
#include <cli/cli.h>
#include <cli/detail/commandprocessor.h>
#include <cli/detail/telnetscreen.h>
using namespace cli::detail; using V = std::vector<std::string>;
struct Now : cli::Scheduler { void Post(const std::function<void()>& f) override { f(); } };
struct Kb : InputDevice
{
    bool active = true; V& ev; Kb(cli::Scheduler& s, V& e) : InputDevice(s), ev(e) {}
    void ActivateInput() override { active = true; } void DeactivateInput() override { active = false; }
    void key(KeyType k, char c) { Notify(std::make_pair(k, c)); }
};
static V* EV = nullptr; static Kb* KB = nullptr; static bool muted = false;
static void ev(const std::string& s) { EV->push_back(s); if (KB && KB->active && !muted) fail("keyboard input is not suspended while " + s + " runs"); }
static const V POOL{"co", "com", "command", "commence", "color", "cat", "x", "copy", "c", "comma", "exec", "history2"};
static std::unique_ptr<cli::Menu> menu(unsigned bits)
{
    auto m = std::make_unique<cli::Menu>("cli"); auto sub = std::make_unique<cli::Menu>("sub"); auto sub2 = std::make_unique<cli::Menu>("subway");
    for (std::size_t i = 0; i < POOL.size(); ++i) if (bits >> i & 1) { auto n = POOL[i]; m->Insert(n, [n](std::ostream& o) { o << "<" << n << ">\n"; ev("call " + n); }); if (i % 3 == 0) sub->Insert(n, [n](std::ostream& o) { ev("sub " + n); o << "sub\n"; }); }
    m->Insert("say", [](std::ostream& o, const V& a) { ev("say " + show(a)); for (auto& x : a) o << x << '\n'; });
    sub->Insert("subx", [](std::ostream&, int i) { ev("subx " + std::to_string(i)); });
    m->Insert("thr", [](std::ostream&) { ev("thr"); throw std::runtime_error("boom"); });
    if (bits & 4096) m->Insert(std::move(sub)); if (bits & 8192) m->Insert(std::move(sub2));
    return m;
}
static std::string lcp(const V& v) { std::string p = v[0]; for (auto& s : v) { std::size_t i = 0; while (i < p.size() && i < s.size() && p[i] == s[i]) ++i; p.resize(i); } return p; }
static const V TYPED{"c", "co", "com", "s", "su", "say a", "say \"x y\"", "sub ", "sub c", "exit", "x", "", "h", "zzz", "sub", "cli", "comm", "subx 3", "!0", "thr", "  c", "history"};
void run(Src& in)
{
    cli::SetNoColor(); unsigned bits = in.byte() | in.byte() << 8; V t1, t2; std::ostringstream o1, o2; std::string real;
    cli::Cli c1(menu(bits)), c2(menu(bits)); std::size_t cap = 1 + in.below(6);
    c1.ExitAction([](std::ostream&) { EV->push_back("exit"); }); c2.ExitAction([](std::ostream&) { EV->push_back("exit"); });
    cli::CliSession s1(c1, o1, cap), s2(c2, o2, cap); Now sch; Kb kb(sch, t1); CommandProcessor<TelnetScreen> p(s1, kb);
    KB = &kb; std::string line; std::size_t pos = 0; Emu e; std::string prompt, key; bool over = false;
    auto show_prompt = [&] { o2.str(""); s2.Prompt(); prompt = o2.str(); o2.str(""); };
    muted = true; EV = &t1; s1.Prompt(); EV = &t2; show_prompt(); e.feed(o1.str()); o1.str("");
    while (in.more() && !over)
    {
        unsigned op = in.below(13); std::string what; V keys; key += char('a' + op); bool listing = false; V comp; std::string fed; bool entered = false, cleared = false;
        std::vector<std::pair<KeyType, char>> ks;
        switch (op)
        {
            case 0: case 1: case 2: { auto s = in.pick(TYPED); what = "type " + show(s); for (char ch : s) { ks.push_back({KeyType::ascii, ch}); line.insert(pos++, 1, ch); } break; }
            case 3: what = "backspace"; ks.push_back({KeyType::backspace, ' '}); if (pos) line.erase(--pos, 1); break;
            case 4: what = "left"; ks.push_back({KeyType::left, ' '}); if (pos) --pos; break;
            case 5: what = "home"; ks.push_back({KeyType::home, ' '}); pos = 0; break;
            case 6: case 7: case 8:
            {
                what = "tab"; ks.push_back({KeyType::ascii, '\t'}); EV = &t2; comp = s2.GetCompletions(line);
                if (comp.size() == 1) { line = comp[0] + ' '; pos = line.size(); }
                else if (comp.size() > 1) { auto q = lcp(comp); if (q.size() > line.size()) line = q; else listing = true; pos = line.size(); }
                count(comp.empty() ? "tab without completions" : comp.size() == 1 ? "tab with one" : listing ? "tab listing" : "tab common prefix"); break;
            }
            case 9: what = "up"; ks.push_back({KeyType::up, ' '}); line = s2.PreviousCmd(line); pos = line.size(); break;
            case 10: what = "down"; ks.push_back({KeyType::down, ' '}); line = s2.NextCmd(); pos = line.size(); break;
            case 11: if (in.below(4) == 0) { what = in.below(8) ? "ignored key" : "end of input"; if (what[0] == 'e') { ks.push_back({KeyType::eof, ' '}); muted = true; EV = &t2; s2.Exit(); over = true; } else ks.push_back({KeyType::ignored, ' '}); }
                     else { what = "clear"; cleared = true; ks.push_back({KeyType::clear, ' '}); pos = line.size(); } break;
            default: what = "enter " + show(line); entered = true; ks.push_back({KeyType::ret, ' '}); muted = true; EV = &t2; o2.str(""); s2.Feed(line); fed = o2.str(); show_prompt(); if (prompt.empty()) over = true; line.clear(); pos = 0;
        }
        note(what + " -> " + show(line)); muted = false; EV = &t1; o1.str("");
        for (auto& k : ks) kb.key(k.first, k.second);
        real = o1.str(); if (over && !entered) muted = true;
        if (!kb.active) fail("keyboard input stays suspended after " + what);
        if (t1 != t2) fail("the session did " + show(t1) + " instead of " + show(t2) + " after " + what);
        if (entered && real.find(fed) == std::string::npos) fail("the output of the line is not shown: " + show(real) + " lacks " + show(fed));
        if (op >= 6 && op <= 8 && comp.empty() && !real.empty()) fail("Tab without completions writes " + show(real));
        if (listing)
        {
            std::size_t at = 0; for (auto& x : comp) { auto q = real.find(x, at); if (q == std::string::npos) fail("the listing lacks " + show(x) + ": " + show(real)); at = q + x.size(); }
        }
        if (entered && !over && real.find(prompt, real.find(fed) + fed.size()) == std::string::npos) fail("no prompt after the line: " + show(real));
        e.feed(real); if (over) break;
        if (cleared && e.r != 0) fail("the screen is not cleared");
        auto row = e.rows[e.r];
        if (rtrim(row) != rtrim(prompt + line)) fail("the row shows " + show(row) + " instead of " + show(prompt + line) + " after " + what);
        if (e.c != long(prompt.size() + pos)) fail("the cursor is at column " + std::to_string(e.c) + " instead of " + std::to_string(prompt.size() + pos) + " after " + what);
    }
    KB = nullptr;
    if (key.size() > 1) nontrivial(key + std::to_string(bits % 64));
}
std::string generate(Rng& r, long)
{
    std::string s; s += char(r.below(256)); s += char(r.below(256) | (r.below(2) ? 48 : 0)); s += char(r.below(6)); unsigned n = 1 + r.below(r.below(3) ? 12 : 40);
    for (unsigned i = 0; i < n; ++i) { unsigned op = r.below(13); s += char(op); if (op <= 2) s += char(r.below(22)); if (op == 11) { s += char(r.below(4)); s += char(r.below(8)); } if (op <= 2 && r.below(2)) s += char(6 + r.below(7)); }
    return s;
}
