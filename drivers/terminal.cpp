// C11 (-DPROP=11) / C12 (-DPROP=12): Terminal against a reference line editor and a terminal emulator
#include "common.h"
#include "screen_emu.h"
#include <cli/colorprofile.h>
#include <cli/detail/inputdevice.h>
#include <cli/detail/terminal.h>
#include <cli/detail/telnetscreen.h>
using namespace cli::detail;
static const std::vector<KeyType> K = {KeyType::ascii, KeyType::backspace, KeyType::canc, KeyType::left, KeyType::right, KeyType::home, KeyType::end, KeyType::ret, KeyType::up, KeyType::down, KeyType::eof, KeyType::clear, KeyType::ignored};
static const char* KN[] = {"char", "backspace", "delete", "left", "right", "home", "end", "enter", "up", "down", "eof", "clear", "ignored"};
void run(Src& in)
{
    std::ostringstream o; unsigned mode = in.byte(); if (mode & 1) cli::SetColor(); else cli::SetNoColor();
    const std::string prompt = (mode & 2) ? "cli> " : "";
    Terminal<TelnetScreen> t(o); std::string line; std::size_t pos = 0; Emu emu; std::size_t col = prompt.size();
    emu.feed(prompt); std::string hist;
    while (in.more())
    {
        unsigned op = in.below(20); char ch = char(in.byte()); o.str(""); std::string what;
        hist += char('a' + op);
        if (op >= 18)
        {
            std::string nl; unsigned n = in.below(12); for (unsigned i = 0; i < n; ++i) nl += char('a' + in.below(26));
            if (op == 19) { t.Clear(); o << prompt; t.ResetCursor(); nl = line; }
            t.SetLine(nl); line = nl; pos = nl.size(); what = op == 19 ? "redraw" : "SetLine " + show(nl);
        }
        else
        {
            unsigned k = op >= 13 ? 0 : op;
#if PROP == 12
            if (k == 0 && !(ch >= 32 && ch < 127)) ch = char('A' + (unsigned char)ch % 26);
#endif
            auto r = t.Keypressed(std::make_pair(K[k], ch)); what = std::string("key ") + KN[k] + (k ? "" : " " + show(std::string(1, ch)));
            Symbol sym = Symbol::nothing; std::string txt;
            switch (k)
            {
                case 0: if (ch == '\t') sym = Symbol::tab; else { line.insert(pos, 1, ch); ++pos; } break;
                case 1: if (pos > 0) { line.erase(pos - 1, 1); --pos; } break;
                case 2: if (pos < line.size()) line.erase(pos, 1); break;
                case 3: if (pos > 0) --pos; break;
                case 4: if (pos < line.size()) ++pos; break;
                case 5: pos = 0; break;
                case 6: pos = line.size(); break;
                case 7: sym = Symbol::command; txt = line; line.clear(); pos = 0; break;
                case 8: sym = Symbol::up; break;
                case 9: sym = Symbol::down; break;
                case 10: sym = Symbol::eof; break;
                case 11: sym = Symbol::clear; break;
                default: break;
            }
            if (k == 7) { emu.feed(o.str()); o.str(""); if (emu.c != 0 || emu.from(0) != "") fail("Enter does not start a fresh row"); emu.feed(prompt); }
#if PROP == 11
            note(what);
            if (r.first != sym) fail("wrong symbol reported for " + what);
            if (r.second != txt) fail(what + " yields " + show(r.second) + " instead of " + show(txt));
#endif
        }
        note(what + " -> " + show(line) + " cursor " + std::to_string(pos));
        if (t.GetLine() != line) fail("the line is " + show(t.GetLine()) + " instead of " + show(line) + " after " + what);
        emu.feed(o.str());
#if PROP == 12
        if (emu.under) fail("the cursor went left of the screen");
        if (emu.from(col) != rtrim(line)) fail("the row shows " + show(emu.from(col)) + " instead of " + show(line) + " after " + what);
        if (emu.c != long(col + pos)) fail("the terminal cursor is at column " + std::to_string(emu.c - long(col)) + " instead of " + std::to_string(pos) + " after " + what);
        if (prompt.size() && emu.rows[emu.r].substr(0, col) != prompt) fail("the prompt is overwritten");
#endif
    }
#if PROP == 11
    // where the cursor is shows in what is typed next
    for (int i = 0; i < 3; ++i) { t.Keypressed(std::make_pair(KeyType::ascii, 'X')); line.insert(pos++, 1, 'X'); if (t.GetLine() != line) fail("typing goes to the wrong place: " + show(t.GetLine()) + " instead of " + show(line)); t.Keypressed(std::make_pair(KeyType::left, ' ')); if (pos) --pos; t.Keypressed(std::make_pair(KeyType::left, ' ')); if (pos) --pos; }
#endif
    if (hist.size() > 3) nontrivial(hist);
}
std::string generate(Rng& r, long)
{
    std::string s(1, char(r.below(4))); unsigned n = r.below(r.below(4) ? 16 : 60);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned op = r.below(3) ? r.below(20) : 13; s += char(op); s += r.below(8) ? char("abcdefgh xyz"[r.below(12)]) : char(r.below(256));
        if (op >= 18) { unsigned m = r.below(12); s += char(m); for (unsigned j = 0; j < m; ++j) s += char(r.below(26)); }
    }
    return s;
}
