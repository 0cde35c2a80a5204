// a plain terminal: printable characters advance, \b moves left, CR/LF, CSI sequences (colours take no space, H/J home and erase)
#pragma once
#include <string>
#include <vector>
struct Emu
{
    std::vector<std::string> rows{1}; std::size_t r = 0; long c = 0; bool under = false; int esc = 0; std::string seq;
    void put(char ch) { auto& s = rows[r]; if (s.size() <= std::size_t(c)) s.resize(std::size_t(c) + 1, ' '); s[std::size_t(c)] = ch; ++c; }
    void feed(const std::string& t)
    {
        for (char ch : t)
        {
            if (esc == 1) { esc = ch == '[' ? 2 : 0; seq.clear(); continue; }
            if (esc == 2) { if (ch >= '@' && ch <= '~') { esc = 0; if (ch == 'H') { r = 0; c = 0; } else if (ch == 'J') { rows.resize(r + 1); rows[r].resize(std::min(rows[r].size(), std::size_t(c))); } else if (ch == 'K') rows[r].resize(std::min(rows[r].size(), std::size_t(c))); else if (ch == 'D') c -= seq.empty() ? 1 : atoi(seq.c_str()); else if (ch == 'C') c += seq.empty() ? 1 : atoi(seq.c_str()); } else seq += ch; continue; }
            if (ch == 27) esc = 1;
            else if (ch == '\b') { if (c == 0) under = true; else --c; }
            else if (ch == '\r') c = 0;
            else if (ch == '\n') { ++r; if (rows.size() <= r) rows.resize(r + 1); c = 0; }   // local terminals translate \n to CR LF
            else if (ch == '\t') { do put(' '); while (c % 8); }
            else if (ch == '\a' || ch == 0) {}
            else put(ch);
        }
    }
    // text of the current row from column k, trailing blanks removed
    std::string from(std::size_t k) const { std::string s = rows[r].size() > k ? rows[r].substr(k) : ""; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
};
inline std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
