// C01: split() against an independent reading of the documented grammar
#include "common.h"
#include <cli/detail/split.h>
using V = std::vector<std::string>;
static V oracle(const std::string& s)
{
    V out; std::size_t i = 0;
    auto special = [](char c) { return c == '"' || c == '\'' || c == '\\'; };
    auto escaped = [&](std::string& w) {        // at a backslash
        ++i; if (i >= s.size()) return;          // a trailing backslash ends the line
        if (!special(s[i])) w += '\\';
        w += s[i++]; };
    while (i < s.size())
    {
        char c = s[i];
        if (c == ' ' || c == '\t' || c == '\n') { ++i; continue; }
        std::string w;
        if (c == '!') { out.push_back("!"); ++i; continue; }
        if (c == '"' || c == '\'')
        {
            ++i;
            while (i < s.size() && s[i] != c) if (s[i] == '\\') escaped(w); else w += s[i++];
            if (i < s.size()) ++i;
        }
        else
            while (i < s.size() && s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '"' && s[i] != '\'' && s[i] != '!') if (s[i] == '\\') escaped(w); else w += s[i++];
        if (!w.empty()) out.push_back(w);
    }
    return out;
}
static const std::string A = "ab !\"'\\ \t\n,\x80";
void run(Src& in)
{
    const bool quoting = in.below(4) == 3; const std::string line = in.rest(); V got{"stale"};
    if (quoting)
    {
        if (line.empty()) return;
        const char q = line.size() % 2 ? '"' : '\''; std::string t(1, q);
        for (char c : line) { if (c == '"' || c == '\'' || c == '\\') t += '\\'; t += c; }
        t += q;
        cli::detail::split(got, t); count("quoted texts"); nontrivial(t);
        if (got != V{line}) fail("quoted text " + show(t) + " gives " + show(got) + " instead of the one word " + show(line));
        return;
    }
    cli::detail::split(got, line); note("split " + show(line) + " = " + show(got));
    auto want = oracle(line);
    if (want.size() > 1) nontrivial(line);
    if (got != want) fail("split(" + show(line) + ") gives " + show(got) + ", the grammar says " + show(want));
    for (auto& w : got) if (w.empty()) fail("empty word");
}
std::string generate(Rng& r, long i)
{
    // every line of up to 5 characters over a b blank ! " ' backslash, then random ones
    static const std::string S = "a !\"'\\";
    long n = i; for (unsigned len = 0; len <= 5; ++len) { long k = 1; for (unsigned j = 0; j < len; ++j) k *= long(S.size()); if (n < k) { std::string s(1, '\0'); for (unsigned j = 0; j < len; ++j) { s += S[std::size_t(n % long(S.size()))]; n /= long(S.size()); } return s; } n -= k; }
    std::string s(1, char(r.below(4))); unsigned len = r.below(r.below(8) ? 20 : 200);
    for (unsigned j = 0; j < len; ++j) s += r.below(20) ? A[r.below(unsigned(A.size()))] : char(r.below(256));
    return s;
}
