// C07 / C08 / C10 (history part): detail::History against a list of numbered entries.
// -DPROP=7: entries, numbers, bounds; 8: lines shown while browsing; 10: what is handed to the storage
#include "common.h"
#include <sstream>
#include <stdexcept>
#include <cli/detail/history.h>
#include "history_model.h"
static const std::vector<std::string> L = {"a", "b", "c", "", "dd", "e", "a b"};
void run(Src& in)
{
    Model m; m.cap = in.below(7); if (m.cap == 6) m.cap = 130; cli::detail::History h(m.cap); note("capacity " + std::to_string(m.cap));
    if (in.below(3) == 1) { V c; unsigned n = in.below(8); for (unsigned i = 0; i < n; ++i) c.push_back(in.pick(L)); h.LoadCommands(c); for (auto& x : c) m.push(x, false); note("loaded " + show(c)); }
    bool newc = false; std::string key;
    while (in.more())
    {
        unsigned op = in.below(8); const std::string t = in.pick(L); bool was = newc; newc = false;
        key += char('0' + op);
        if (op <= 2) { note("NewCommand " + show(t)); h.NewCommand(t); m.enter(t); newc = true; }
        else if (op <= 4) { auto w = m.up(t), g = h.Previous(t); note("Previous " + show(t) + " -> " + show(g)); (void)w;
#if PROP == 8
            if (g != w) fail("Up shows " + show(g) + " instead of " + show(w));
#endif
        }
        else if (op == 5) { auto w = m.down(), g = h.Next(); note("Next -> " + show(g)); (void)w;
#if PROP == 8
            if (g != w) fail("Down shows " + show(g) + " instead of " + show(w));
#endif
        }
        else if (op == 7 && t == "a b")
        {
            unsigned n = in.below(8) == 0 ? 70000 : 1500; note(std::to_string(n) + " different lines");
            for (unsigned i = 0; i < n; ++i) { const std::string x = "l" + std::to_string(i); h.NewCommand(x); m.enter(x); }
        }
        else if (op == 6 && was) { note("ForgetLatest"); h.ForgetLatest(); m.forget(); }
#if PROP == 10
        auto st = h.GetCommands();
        if (st != m.stored()) fail("handed to the storage: " + show(st) + ", the session recorded and retains " + show(m.stored()));
#else
        std::ostringstream o; h.Show(o); std::ostringstream w; w << '\n'; for (auto& x : m.e) w << x.id << '\t' << x.text << '\n'; w << '\n';
        if (o.str() != w.str()) fail("listing is " + show(o.str()) + " instead of " + show(w.str()));
        std::vector<std::size_t> ids = {0, m.next, m.next + 1, m.e.empty() ? 0 : m.e[0].id - 1, ~std::size_t(0), std::size_t(in.byte())};
        for (auto& x : m.e) ids.push_back(x.id);
        for (auto i : ids)
        {
            const Ent* x = nullptr; for (auto& y : m.e) if (y.id == i) x = &y;
            try { auto s = h.At(i); if (!x) fail("At(" + std::to_string(i) + ") returns " + show(s) + " for a number not retained"); if (s != x->text) fail("At(" + std::to_string(i) + ") returns " + show(s) + " instead of " + show(x->text)); }
            catch (const std::out_of_range&) { if (x) fail("At(" + std::to_string(i) + ") fails, the entry is " + show(x->text)); }
        }
#endif
    }
    if (key.size() > 3) nontrivial(key + char('0' + m.cap));
}
std::string generate(Rng& r, long)
{
    std::string s; s += char(r.below(r.below(20) ? 6 : 7)); unsigned ld = r.below(3); s += char(ld); if (ld == 1) { unsigned n = r.below(8); s += char(n); for (unsigned i = 0; i < n; ++i) s += char(r.below(7)); }
    unsigned n = r.below(r.below(5) ? 14 : 60), bias = r.below(4);
    for (unsigned i = 0; i < n; ++i) { s += char(bias == 0 ? r.below(3) * 3 : bias == 1 ? r.below(7) : r.below(8)); s += char(r.below(r.below(3) ? 3 : 7)); if (s[s.size() - 2] == 7 && s.back() == 6) s += char(r.below(8));
#if PROP != 10
        s += char(r.below(12));
#endif
    }
    return s;
}
