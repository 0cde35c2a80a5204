// C03 C04 C05 C06 C09 C13 C17 C21: whole sessions (real Cli, menus, handlers, CliSession) against a reference model of the menu tree.
#include "common.h"
#include "history_model.h"
#include <stdexcept>
#include <typeinfo>
#include <cli/cli.h>
using cli::Menu; using cli::CmdHandler;

// ------------------------------------------------------------------ reference model
struct MMenu;
struct Entry { int id = 0; std::string name, desc; bool enabled = true, removed = false; int shape = 0; V par; int act = 0, target = 0; MMenu* sub = nullptr; MMenu* owner = nullptr; };
struct MMenu { Entry* self = nullptr; MMenu* parent = nullptr; std::vector<Entry*> e; std::string prompt; Menu* real = nullptr; };
struct Thrown { std::string kind, what; };
static const char* const SHAPES[] = {"", "i", "s", "Su", "bcl", "hHaA", "LUm", "*", "*v", "is", "q", "mb"};
static const int NSHAPES = 12;

static bool number(const std::string& s, bool neg, long double lo, long double hi, std::string& out)
{
    std::size_t i = 0; bool m = false;
    if (s.empty()) return false;
    if (s[0] == '+' || (neg && s[0] == '-')) { m = s[0] == '-'; i = 1; }
    if (i >= s.size()) return false;
    for (std::size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false;
    std::size_t z = i; while (z + 1 < s.size() && s[z] == '0') ++z;
    std::string d = s.substr(z); if (d.size() > 25) return false;
    long double v = 0; for (char c : d) v = v * 10 + (c - '0');
    if (m) v = -v;
    if (v < lo || v > hi) return false;
    out = (m && d != "0" ? "-" : "") + d; return true;
}
static bool conv(char t, const std::string& w, std::string& out)
{
    switch (t)
    {
        case 'i': return number(w, true, -2147483648.0L, 2147483647.0L, out);
        case 'u': return number(w, false, 0, 4294967295.0L, out);
        case 'l': case 'L': return number(w, true, -9223372036854775808.0L, 9223372036854775807.0L, out);
        case 'U': case 'm': return number(w, false, 0, 18446744073709551615.0L, out);
        case 'h': return number(w, true, -32768, 32767, out);
        case 'H': return number(w, false, 0, 65535, out);
        case 'a': return number(w, true, -128, 127, out);
        case 'A': return number(w, false, 0, 255, out);
        case 's': case 'S': case 'q': out = w; return true;
        case 'c': if (w.size() != 1) return false; out = w; return true;
        case 'b': { std::string n; if (w == "true") out = "1"; else if (w == "false") out = "0"; else if (number(w, true, 0, 1, n)) out = n == "-0" ? "0" : n; else return false; return true; }
    }
    return false;
}
static const char* tname(char t)
{
    switch (t) { case 'i': return "<int>"; case 'u': return "<unsigned int>"; case 'l': return "<long>"; case 'L': return "<long long>"; case 'U': return "<unsigned long long>"; case 'm': return "<unsigned long>";
        case 'h': return "<short>"; case 'H': return "<unsigned short>"; case 'a': return "<signed char>"; case 'A': return "<unsigned char>"; case 'c': return "<char>"; case 'b': return "<bool>"; default: return "<string>"; }
}
struct World
{
    std::vector<Entry*> ents; std::vector<MMenu*> menus; MMenu* root = nullptr; MMenu* cur = nullptr;
    std::vector<CmdHandler> handles;            // by entry id
    V trace, mtrace;                            // what really happened / what should have
    std::ostringstream* out = nullptr; std::string mout; bool wildcard = false;
    Model hist; bool exited = false; bool excHandler = false, wrongHandler = false, wrongThrows = false, sx = false, gx = false, se = false, ge = false;
    std::vector<unsigned> running; std::vector<V> stored; long calls = 0;
    cli::CliSession* ses = nullptr;
    bool nested = false; // the exit actions end the session again and ask for a prompt
    ~World() { for (auto* e : ents) delete e; for (auto* m : menus) delete m; }
    bool alive(const Entry* e) const { for (;;) { if (e->removed) return false; if (!e->owner || !e->owner->self) return true; e = e->owner->self; } }
    bool holdsCurrent(const Entry* e) const { if (!e->sub) return false; for (auto* m = cur; m; m = m->parent) if (m == e->sub) return true; return false; }
};
static World* W = nullptr;
static void act_model(Entry* e);
static void act_real(int id, std::ostream& out)
{
    auto* e = W->ents[std::size_t(id)];
    auto& h = W->handles;
    if (e->act == 1) out << "out" << id << "\n";
    if (e->act == 2) throw std::runtime_error("boom" + std::to_string(id));
    if (e->act == 3) throw 42;
    if (e->act == 4) throw std::bad_cast();
    if (e->act == 5) throw std::out_of_range("range" + std::to_string(id));
    if (e->act == 6) throw std::string("text");
    if (e->act == 7 && std::size_t(e->target) < h.size()) h[std::size_t(e->target)].Disable();
    if (e->act == 8 && std::size_t(e->target) < h.size()) h[std::size_t(e->target)].Enable();
    if (e->act == 9 && std::size_t(e->target) < h.size() && !W->holdsCurrent(W->ents[std::size_t(e->target)])) h[std::size_t(e->target)].Remove();
}
// the operations of the model mirror those of the library on the tree; they run on the model side after the real handler ran
static void act_model(Entry* e, Thrown& t)
{
    auto* g = std::size_t(e->target) < W->ents.size() ? W->ents[std::size_t(e->target)] : nullptr; if (std::size_t(e->target) >= W->handles.size()) g = nullptr;
    switch (e->act)
    {
        case 1: W->mout += "out" + std::to_string(e->id) + "\n"; break;
        case 2: t = {"std", "boom" + std::to_string(e->id)}; break;
        case 3: case 6: t = {"other", ""}; break;
        case 4: t = {"std", std::bad_cast().what()}; break;
        case 5: t = {"std", "range" + std::to_string(e->id)}; break;
        case 7: if (g && W->alive(g)) g->enabled = false; break;
        case 8: if (g && W->alive(g)) g->enabled = true; break;
        case 9: if (g && W->alive(g) && !W->holdsCurrent(g)) { g->removed = true; auto& v = g->owner->e; v.erase(std::find(v.begin(), v.end(), g)); } break;
    }
}
static void rec(int id, const V& a, std::ostream& out)
{
    if (!W) return;
    std::string s = "call " + std::to_string(id) + show(a); W->trace.push_back(s); ++W->calls;
    if (&out != W->out) W->trace.push_back("handler got another stream");
    act_real(id, out);
}
template <class T> std::string S(T v) { return std::to_string(v); }
static std::string S(const std::string& v) { return v; }
static std::string S(char v) { return std::string(1, v); }
static std::string S(signed char v) { return std::to_string(int(v)); }
static std::string S(unsigned char v) { return std::to_string(int(v)); }
static int fp_id = -1;
static void fp(std::ostream& o, int i, const std::string& s) { rec(fp_id, {S(i), s}, o); }
static CmdHandler insert(Menu& m, const Entry& e)
{
    const int id = e.id; const auto& n = e.name; const auto& d = e.desc; const auto& p = e.par;
    switch (e.shape)
    {
        case 0: return p.empty() ? m.Insert(n, [id](std::ostream& o) { rec(id, {}, o); }, d) : m.Insert(n, p, [id](std::ostream& o) { rec(id, {}, o); }, d);
        case 1: return p.empty() ? m.Insert(n, [id](std::ostream& o, int a) { rec(id, {S(a)}, o); }, d) : m.Insert(n, p, [id](std::ostream& o, int a) { rec(id, {S(a)}, o); }, d);
        case 2: return m.Insert(n, [id](std::ostream& o, const std::string& a) { rec(id, {a}, o); }, d, p);
        case 3: return m.Insert(n, [id](std::ostream& o, std::string a, unsigned b) { rec(id, {a, S(b)}, o); return 3; }, d, p);
        case 4: return m.Insert(n, [id](std::ostream& o, bool a, char b, long c) { rec(id, {S(int(a)), S(b), S(c)}, o); }, d, p);
        case 5: return m.Insert(n, [id](std::ostream& o, short a, unsigned short b, signed char c, unsigned char x) { rec(id, {S(a), S(b), S(c), S(x)}, o); }, d, p);
        case 6: return m.Insert(n, [id](std::ostream& o, long long a, unsigned long long b, unsigned long c) { rec(id, {S(a), S(b), S(c)}, o); }, d, p);
        case 7: return m.Insert(n, [id](std::ostream& o, const std::vector<std::string>& a) { rec(id, a, o); }, d, p);
        case 8: return m.Insert(n, [id](std::ostream& o, std::vector<std::string> a) { rec(id, a, o); }, d, p);
        case 9: fp_id = id; return m.Insert(n, fp, d, p);
        case 10: return m.Insert(n, [id](std::ostream& o, std::string a) { rec(id, {a}, o); a += "x"; }, d, p);
        default: return m.Insert(n, [id](std::ostream& o, unsigned long a, const bool& b) { rec(id, {S(a), S(int(b))}, o); }, d, p);
    }
}
// dispatch
static bool accepts(Entry* e, const V& w, V& vals)
{
    if (!e->enabled || w.empty() || w[0] != e->name) return false;
    const char* sh = SHAPES[e->shape];
    vals.clear();
    if (*sh == '*') { vals.assign(w.begin() + 1, w.end()); return true; }
    if (w.size() != 1 + std::strlen(sh)) return false;
    for (std::size_t i = 1; i < w.size(); ++i) { std::string v; if (!conv(sh[i - 1], w[i], v)) return false; vals.push_back(v); }
    return true;
}
static bool inMenu(MMenu* m, const V& w, Thrown& t);
static bool enterMenu(MMenu* m, bool up, const V& w, Thrown& t)
{
    const bool en = m->self ? m->self->enabled : true; const std::string nm = m->self ? m->self->name : "cli";
    if (!en || !(w[0] == nm || (up && w[0] == ".."))) return false;
    if (w.size() == 1) { W->cur = m; return true; }
    return inMenu(m, V(w.begin() + 1, w.end()), t);
}
static bool inMenu(MMenu* m, const V& w, Thrown& t)
{
    for (auto* e : m->e)
    {
        V vals;
        if (e->sub) { if (enterMenu(e->sub, false, w, t)) return true; }
        else if (accepts(e, w, vals)) { W->mtrace.push_back("call " + std::to_string(e->id) + show(vals)); act_model(e, t); return true; }
    }
    return m->parent && enterMenu(m->parent, true, w, t);
}
static std::string help_entry(const Entry* e)
{
    if (!e->enabled) return "";
    if (e->sub) return " - " + e->name + "\n\t" + e->desc + "\n";
    std::string s = " - " + e->name; const char* sh = SHAPES[e->shape];
    if (e->par.empty()) { if (*sh == '*') s += " <list of strings>"; else for (; *sh; ++sh) s += std::string(" ") + tname(*sh); }
    for (auto& p : e->par) s += " <" + p + ">";
    return s + "\n\t" + e->desc + "\n";
}
static std::string help_text()
{
    std::string s = "Commands available:\n - help\n\tThis help message\n - exit\n\tQuit the session\n - history\n\tShow the history\n - ! <history entry index>\n\tExec a command by index in the history\n";
    if (W->cur->self && !W->cur->self->enabled) return s;
    for (auto* e : W->cur->e) s += help_entry(e);
    if (auto* p = W->cur->parent) { if (p->self) s += help_entry(p->self); else s += " - cli\n\t(menu)\n"; }
    return s;
}
static std::string history_text() { std::string s = "\n"; for (auto& x : W->hist.e) s += std::to_string(x.id) + "\t" + x.text + "\n"; return s + "\n"; }
static V words(const std::string& l)
{
    V r; bool q = false; char qc = 0; std::string w; bool open = false;
    for (std::size_t i = 0; i < l.size(); ++i)
    {
        char c = l[i];
        if (q) { if (c == qc) { if (!w.empty()) r.push_back(w); w.clear(); q = open = false; } else w += c; }
        else if (c == ' ' || c == '\t' || c == '\n') { if (!w.empty()) r.push_back(w); w.clear(); }
        else if (c == '"' || c == '\'') { if (!w.empty()) r.push_back(w); w.clear(); q = true; qc = c; }
        else if (c == '!') { if (!w.empty()) r.push_back(w); w.clear(); r.push_back("!"); }
        else w += c;
    }
    (void)open; if (!w.empty()) r.push_back(w);
    return r;
}
static void model_exit()
{
    if (W->exited) return;
    W->exited = true;
    if (W->sx) W->mtrace.push_back("session exit action");
    if (W->gx) W->mtrace.push_back("global exit action");
    W->mtrace.push_back("store " + show(W->hist.stored()));
}
static void model_feed(const std::string& line)
{
    auto w = words(line);
    if (w.empty()) return;
    W->hist.enter(line);
    Thrown t; bool ok = true;
    if (w.size() == 1 && w[0] == "help") W->mout += help_text();
    else if (w.size() == 1 && w[0] == "exit") model_exit();
    else if (w.size() == 1 && w[0] == "history") W->mout += history_text();
    else
    {
        std::string v;
        if (w.size() == 2 && w[0] == "!" && conv('u', w[1], v))
        {
            W->hist.forget(); unsigned n = unsigned(std::stoul(v)); const Ent* e = nullptr;
            for (auto& x : W->hist.e) if (x.id == n) e = &x;
            if (!e) t = {"std", "*"};
            else if (std::find(W->running.begin(), W->running.end(), n) != W->running.end()) t = {"std", "*"};
            else { W->running.push_back(n); auto text = e->text; model_feed(text); W->running.pop_back(); }
        }
        else ok = (W->cur->self ? W->cur->self->enabled : true) && inMenu(W->cur, w, t);
    }
    if (!ok)
    {
        if (W->wrongHandler) { W->mtrace.push_back("wrong " + show(line)); if (W->wrongThrows) t = {"std", "wrong throws"}; }
        else W->mout += "wrong command: " + line + "\n";
    }
    if (t.kind == "std")
    {
        if (W->excHandler) W->mtrace.push_back("exception " + show(line) + " " + (t.what == "*" ? "*" : t.what));
        else if (t.what == "*") W->mout += "\x01\n"; else W->mout += t.what + "\n";
    }
    else if (t.kind == "other") W->mout += "Cli. Unknown exception caught handling command line \"" + line + "\"\n";
}
// completions
static bool sw(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static std::string ltrim(std::string s) { while (!s.empty() && (s[0] == ' ' || (s[0] >= 9 && s[0] <= 13))) s.erase(0, 1); return s; }
static V cmenu(MMenu* m, bool up, const std::string& line);
static V inside(MMenu* m, const std::string& line)
{
    V r;
    for (auto* e : m->e)
        if (e->sub) { auto c = cmenu(e->sub, false, line); r.insert(r.end(), c.begin(), c.end()); }
        else if (e->enabled && sw(e->name, line)) r.push_back(e->name);
    if (m->parent) { auto c = cmenu(m->parent, true, line); r.insert(r.end(), c.begin(), c.end()); }
    return r;
}
static V cmenu(MMenu* m, bool up, const std::string& line)
{
    const bool en = m->self ? m->self->enabled : true; const std::string nm = m->self ? m->self->name : "cli";
    if (!en) return {};
    for (auto& p : V{nm, ".."})
    {
        if (p == ".." && !up && nm != "..") continue;
        if (sw(line, p)) { V r; for (auto& c : inside(m, ltrim(line.substr(p.size())))) r.push_back(p + " " + c); return r; }
    }
    if (sw(nm, line)) return {nm};
    return {};
}
static V completions(std::string line)
{
    line = ltrim(line); V r;
    for (auto* g : {"help", "exit", "history", "!"}) if (sw(g, line)) r.push_back(g);
    if (!W->cur->self || W->cur->self->enabled) { auto c = inside(W->cur, line); r.insert(r.end(), c.begin(), c.end()); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
// ------------------------------------------------------------------ the real thing
struct Storage : cli::HistoryStorage
{
    V init;
    void Store(const std::vector<std::string>& c) override { if (W) W->trace.push_back("store " + show(c)); }
    std::vector<std::string> Commands() const override { return init; }
    void Clear() override {}
};
struct Stop {};
static void differs(std::initializer_list<int> props, const std::string& what) { for (int p : props) if (p == PROP) fail(what); throw Stop{}; }

static const V NAMES = {"a", "ab", "b", "foo", "foobar", "cli", "..", "x", "help", "history", "!"};
static const V ARGS = {"1", "-1", "0", "+5", "true", "false", "z", "300", "-300", "70000", "256", "99999999999", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "9223372036854775808", "4294967296", "-2147483648", "2147483648", "-32769", "65536", "127", "-128", "255", "-", "+", "1x", "x1", "hello", "'a b'", "01", "-0", "a"};
static std::string make_line(Src& in)
{
    static const V special = {"help", "exit", "history", "! 0", "!1", "! 2", "! 3", "! 7", "..", "cli", "! x", "! 1 2", "help 1", "exit now", "!", "history x"};
#if PROP == 9 || PROP == 7
    static const unsigned ps = 4;
#elif PROP == 3
    static const unsigned ps = 0;
#else
    static const unsigned ps = 2;
#endif
    unsigned k = in.below(10);
    if (k < ps) {
        auto l = in.pick(special);
#if PROP != 17
        if (l == "exit" && in.below(4)) l = "history";
#endif
        return l; }
    if (k == 9 && in.below(4) == 0) return in.pick(V{"", " ", "\t", "''", "  a", "a ", "a\tb"});
    std::string l; unsigned n = 1 + in.below(5);
#if PROP == 3
    l = "c" + std::to_string(in.below(8)); n = in.below(6);
    auto* e = W->ents[std::size_t(l[1] - '0') % W->ents.size()]; l = e->name; if (in.below(3) && *SHAPES[e->shape] != '*') n = unsigned(std::strlen(SHAPES[e->shape]));
    const char* sh = SHAPES[e->shape];
    switch (in.below(24))                             // almost the name
    {
        case 0: l = l.substr(0, l.size() - 1); if (l.empty()) l = "C"; break;
        case 1: l += "0"; break;
        case 2: l[0] = 'C'; break;
        case 3: l = "1 " + l; break;
        case 4: l = "'" + l + "'"; break;
        case 5: l = in.pick(V{"help", "exit", "history"}); break;
        default: break;
    }
    for (unsigned i = 0; i < n; ++i)
    {
        auto w = in.below(40) ? in.pick(ARGS) : e->name; std::string o;
        if (in.below(4) && i < std::strlen(sh) && *sh != '*') for (int k2 = 0; k2 < 12 && !conv(sh[i], w == "'a b'" ? "a b" : w, o); ++k2) w = in.pick(ARGS);
        l += " " + w;
    }
    return l;
#endif
    if (in.below(3))                                  // a path through the tree, with arguments that fit
    {
        MMenu* m = W->cur; auto add = [&](const std::string& x) { if (!l.empty()) l += " "; l += x; };
        for (int d = 0; d < 5; ++d)
        {
            if (m->parent && in.below(3) == 0) { add(in.below(2) ? ".." : m->parent->self ? m->parent->self->name : "cli"); m = m->parent; if (in.below(4) == 0) return l; continue; }
            if (m->e.empty()) break;
            auto* e = in.pick(m->e); add(e->name);
            if (e->sub) { m = e->sub; if (in.below(4) == 0) return l; continue; }
            const char* sh = SHAPES[e->shape]; std::string o;
            if (*sh == '*') { for (unsigned k = in.below(3); k; --k) add(in.pick(ARGS)); }
            else for (; *sh; ++sh) { auto w = in.pick(ARGS); for (int k = 0; k < 20 && !conv(*sh, w == "'a b'" ? "a b" : w, o); ++k) w = in.pick(ARGS); add(w); }
            if (in.below(12) == 0) add(in.pick(ARGS));
            return l;
        }
        return l;
    }
    for (unsigned i = 0; i < n; ++i)
    {
        if (i) l += in.below(8) ? " " : "  ";
        l += in.below(3) ? in.pick(NAMES) : in.pick(ARGS);
    }
    return l;
}
static std::string why;
static void compare(cli::CliSession& s, std::ostringstream& out, const std::string& after)
{
    // calls
    auto norm = [](V v) { for (auto& x : v) if (sw(x, "exception")) { } return v; };
    V t = norm(W->trace), m = norm(W->mtrace);
    auto star = [](const std::string& a, const std::string& b) { auto n = b.size(); return n && b[n - 1] == '*' && a.compare(0, n - 1, b, 0, n - 1) == 0; };
    bool same = t.size() == m.size();
    for (std::size_t i = 0; same && i < t.size(); ++i) same = t[i] == m[i] || star(t[i], m[i]);
    if (!same)
    {
        std::string what = after + ": happened " + show(t) + " expected " + show(m);
        auto exc = [](const V& v) { for (auto& x : v) if (sw(x, "exception")) return true; return false; };
        auto ends = [](const V& v) { for (auto& x : v) if (sw(x, "store") || x.find("exit action") != std::string::npos) return true; return false; };
        if (ends(t) || ends(m)) differs({17, 10}, what);
        if (exc(t) || exc(m)) differs({6, 9, 3}, what);
        differs({3, 4, 5, 6, 9}, what);
    }
    W->trace.clear(); W->mtrace.clear();
    // output
    std::string o = out.str(), e = W->mout; out.str(""); W->mout.clear();
    bool eq = true; std::size_t i = 0, j = 0;
    while (eq && j < e.size())
    {
        if (e[j] == '\x01') { std::size_t k = o.find('\n', i); if (k == std::string::npos || k == i) eq = false; else { i = k; ++j; } }
        else if (i < o.size() && o[i] == e[j]) { ++i; ++j; }
        else eq = false;
    }
    if (eq && i != o.size()) eq = false;
    if (!eq)
    {
        std::string what = after + ": wrote " + show(o) + " expected " + show(e);
        if (e.find("Commands available") != std::string::npos || o.find("Commands available") != std::string::npos) differs({21, 5}, what);
        if (e.find("wrong command") != std::string::npos || o.find("wrong command") != std::string::npos) differs({4, 5}, what);
        if (e.find("\t") != std::string::npos) differs({9, 7}, what);
        differs({6, 4}, what);
    }
    // current menu (through the prompt); nothing once the session has ended
    s.Prompt(); o = out.str(); out.str("");
    e = W->exited ? "" : W->cur->prompt + "> ";
    if (o != e) { if (W->exited || o.empty()) differs({17}, after + ": prompt " + show(o) + " after the end of the session"); differs({4, 5, 6}, after + ": prompt " + show(o) + " expected " + show(e)); }
}
static void check_history(cli::CliSession& s, std::ostringstream& out)
{
    s.ShowHistory(); auto o = out.str(); out.str("");
    if (o != history_text()) differs({9, 6, 7}, "history shows " + show(o) + " expected " + show(history_text()));
}
static void check_completions(cli::CliSession& s, const std::string& l)
{
    auto g = s.GetCompletions(l); auto m = completions(l);
    if (g != m) differs({13, 5}, "completions of " + show(l) + ": " + show(g) + " expected " + show(m));
}
static void check_help(cli::CliSession& s, std::ostringstream& out)
{
    s.Help(); auto o = out.str(); out.str("");
    if (o != help_text()) differs({21, 5}, "help shows " + show(o) + " expected " + show(help_text()));
}
static Entry* new_entry(Src& in, MMenu* m, bool menu)
{
    auto* e = new Entry; e->id = int(W->ents.size()); W->ents.push_back(e); e->owner = m;
    e->name = in.pick(NAMES); if (in.below(24) == 0) e->name = "exit"; e->desc = "d" + std::to_string(e->id);
    if (!menu)
    {
        e->shape = int(in.below(NSHAPES));
        if (e->shape == 9) for (auto* x : W->ents) if (x != e && x->shape == 9) e->shape = 2;
        if (in.below(3) == 0) for (unsigned i = 0, n = in.below(3) + 1; i < n; ++i) e->par.push_back("p" + std::to_string(i));
#if PROP == 3
        e->name = in.below(12) ? "c" + std::to_string(e->id) : in.pick(V{"help", "c", "exit", "c1"}); e->act = in.below(4) == 0 ? int(2 + in.below(5)) : in.below(2);
#elif PROP == 6
        e->act = in.below(2) ? int(1 + in.below(6)) : 0; if (in.below(2)) { e->shape = in.below(2) ? 0 : 7; }
#elif PROP == 5
        e->act = in.below(3) ? int(7 + in.below(3)) : 0; e->target = int(in.below(16)); if (in.below(2)) e->shape = 0;
#else
        e->act = in.below(4) == 0 ? int(in.below(6)) : 0; if (in.below(2)) e->shape = in.below(3) ? 0 : 7;
#endif
    }
    m->e.push_back(e);
    return e;
}
static void build(Src& in, MMenu* m, Menu& real, int depth)
{
    unsigned n = 1 + in.below(depth == 0 ? 5 : 4);
#if PROP == 3
    n += 3;
#endif
    m->real = &real;
    for (unsigned i = 0; i < n && W->ents.size() < 24; ++i)
    {
        const bool menu = PROP != 3 && depth < 3 && in.below(3) == 0;
        auto* e = new_entry(in, m, menu);
        if (menu)
        {
            auto* c = new MMenu; W->menus.push_back(c); c->self = e; c->parent = m; c->prompt = "P" + std::to_string(e->id); e->sub = c;
            auto r = std::make_unique<Menu>(e->name, e->desc, c->prompt); auto* rp = r.get();
            if (in.below(2)) { build(in, c, *rp, depth + 1); W->handles.resize(std::max(W->handles.size(), std::size_t(e->id) + 1)); W->handles[std::size_t(e->id)] = real.Insert(std::move(r)); }
            else { auto h = real.Insert(std::move(r)); W->handles.resize(std::max(W->handles.size(), std::size_t(e->id) + 1)); W->handles[std::size_t(e->id)] = h; build(in, c, *rp, depth + 1); }
        }
        else { auto h = insert(real, *e); W->handles.resize(std::max(W->handles.size(), std::size_t(e->id) + 1)); W->handles[std::size_t(e->id)] = h; }
    }
}
static std::string tree(const MMenu* m)
{
    std::string s = "{";
    for (auto* e : m->e) { s += " " + std::to_string(e->id) + ":" + e->name; if (e->sub) s += tree(e->sub); else s += "(" + std::string(SHAPES[e->shape]) + (e->act ? ")!" + std::to_string(e->act) + (e->act > 6 ? ">" + std::to_string(e->target) : "") : ")"); }
    return s + " }";
}
void run(Src& in)
{
    World w; W = &w; struct Clear { ~Clear() { W = nullptr; } } clr;
    auto* root = new MMenu; w.menus.push_back(root); w.root = w.cur = root; root->prompt = "cli";
    auto realRoot = std::make_unique<Menu>("cli");
    build(in, root, *realRoot, 0);
    auto st = std::make_unique<Storage>(); unsigned nst = PROP == 9 || PROP == 17 || PROP == 7 ? in.below(4) : 0;
    for (unsigned i = 0; i < nst; ++i) st->init.push_back(in.pick(V{"a", "! 0", "! 1", "foo 1", "x", "history", "cli a"}));
    w.hist.cap = PROP == 9 || PROP == 6 || PROP == 7 ? (in.below(3) ? 1 + in.below(5) : 100) : 100;
    if (PROP == 9 && in.below(10) == 0) w.hist.cap = 0;
    for (auto& x : st->init) w.hist.push(x, false);
    const V loaded = st->init;
    cli::Cli c(std::move(realRoot), std::move(st));
    unsigned opt = in.byte();
    w.excHandler = opt & 1; w.wrongHandler = opt & 2; w.wrongThrows = (opt & 12) == 12 && PROP == 6; w.sx = opt & 16; w.gx = opt & 32; w.se = opt & 64; w.ge = opt & 128; w.nested = PROP == 17 && (opt & 3) == 3;
    if (w.excHandler) c.StdExceptionHandler([](std::ostream& o, const std::string& l, const std::exception& e) { W->trace.push_back("exception " + show(l) + " " + e.what()); if (&o != W->out) W->trace.push_back("exception handler got another stream"); });
    if (w.wrongHandler) c.WrongCommandHandler([](std::ostream& o, const std::string& l) { W->trace.push_back("wrong " + show(l)); if (&o != W->out) W->trace.push_back("wrong-command handler got another stream"); if (W->wrongThrows) throw std::runtime_error("wrong throws"); });
    if (w.gx) c.ExitAction([](std::ostream& o) { W->trace.push_back("global exit action"); if (&o != W->out) W->trace.push_back("wrong stream"); if (W->nested) { W->ses->Exit(); W->ses->Prompt(); } });
    if (w.ge) c.EnterAction([](std::ostream& o) { W->trace.push_back("global enter action"); if (&o != W->out) W->trace.push_back("wrong stream"); });
    std::ostringstream out; w.out = &out;
    cli::CliSession s(c, out, w.hist.cap); w.ses = &s;
    if (w.sx) s.ExitAction([](std::ostream& o) { W->trace.push_back("session exit action"); if (&o != W->out) W->trace.push_back("wrong stream"); if (W->nested) { W->ses->Exit(); W->ses->Prompt(); } });
    else if (opt & 8 && PROP == 17) s.ExitAction(nullptr);
    if (w.se) s.EnterAction([](std::ostream& o) { W->trace.push_back("session enter action"); if (&o != W->out) W->trace.push_back("wrong stream"); });
    else if (opt & 4 && PROP == 17) s.EnterAction(nullptr);
    note("tree " + tree(root) + " options " + std::to_string(opt) + " capacity " + std::to_string(w.hist.cap) + (loaded.empty() ? "" : " loaded " + show(loaded)));
    std::string key;
    try
    {
#if PROP == 17
        s.Enter(); if (w.ge) w.mtrace.push_back("global enter action"); if (w.se) w.mtrace.push_back("session enter action");
        if (w.trace != w.mtrace) fail("Enter: happened " + show(w.trace) + " expected " + show(w.mtrace));
        w.trace.clear(); w.mtrace.clear();
#endif
        for (int n = 0; in.more() && n < 40; ++n)
        {
            unsigned op = in.below(16);
            key += char('a' + op);
            if (PROP == 5 || PROP == 13 || PROP == 21 ? op < 6 : op < 1)
            {
                if (PROP == 4 || PROP == 3 || PROP == 6 || PROP == 9 || PROP == 7) { continue; }
                std::size_t id = in.below(unsigned(w.ents.size())); unsigned k = in.below(4); auto* e = w.ents[id]; const bool live = w.alive(e);
                if (k == 3 && !w.holdsCurrent(e)) { note("Remove " + std::to_string(id)); w.handles[id].Remove(); if (live) { e->removed = true; auto& v = e->owner->e; v.erase(std::find(v.begin(), v.end(), e)); } count("remove"); }
                else if (k == 1) { note("Enable " + std::to_string(id)); w.handles[id].Enable(); if (live) e->enabled = true; count("enable"); }
                else if (k != 3) { note("Disable " + std::to_string(id)); w.handles[id].Disable(); if (live) e->enabled = false; count("disable"); }
                compare(s, out, "after the handle operation");
            }
            else if (PROP == 13 || PROP == 5 ? op < 10 : op < 2) { auto l = make_line(in); if (in.below(2) && !l.empty()) l.resize(in.below(unsigned(l.size()) + 1)); note("complete " + show(l)); check_completions(s, l); count("completions"); }
            else if (PROP == 21 || PROP == 5 ? op < 12 : op < 3) { note("Help"); check_help(s, out); count("help"); }
            else if (PROP == 17 && op < 5) { note("Exit()"); s.Exit(); model_exit(); compare(s, out, "Exit()"); count("exit"); }
            else
            {
                auto l = make_line(in); note("Feed " + show(l)); 
                auto before = w.calls;
                try { s.Feed(l); } catch (...) { differs({6}, "an exception escaped from Feed(" + show(l) + ")"); }
                model_feed(l); if (w.calls > before) count("handler calls"); count("lines");
                compare(s, out, "Feed(" + show(l) + ")");
                if (PROP == 9 || PROP == 6 || PROP == 7) check_history(s, out);
            }
        }
    }
    catch (const Stop&) { count("other"); }
    nontrivial(key + tree(root));
}
std::string generate(Rng& r, long)
{ std::string s; unsigned n = 30 + r.below(180); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
