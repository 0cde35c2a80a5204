// C02: from_string<T> against schoolbook reading of decimal numerals
#include "common.h"
#include <limits>
#include <cerrno>
#include <cstdlib>
#include <type_traits>
#include <cli/detail/fromstring.h>
template <class T> std::string str(T v) { return v < 0 ? "-" + (v / 10 ? std::to_string(-(v / 10)) : std::string()) + std::to_string(-(v % 10)) : std::to_string(v); }
template <class T> bool oracle(const std::string& s, T& out)
{
    bool neg = false; std::size_t i = 0;
    if (!s.empty() && (s[0] == '+' || (std::is_signed<T>::value && s[0] == '-'))) { neg = s[0] == '-'; i = 1; }
    if (i == s.size()) return false;
    __int128 v = 0;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; if (v < ((__int128)1 << 100)) v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return false;
    out = (T)v; return true;
}
template <class T> void check(const std::string& s, const char* name, bool expect, T want)
{
    bool ok = true; T got{};
    try { got = cli::detail::from_string<T>(s); } catch (const cli::detail::bad_conversion&) { ok = false; }
    note(std::string(name) + " <- " + show(s) + (ok ? " accepted" : " rejected"));
    if (ok) count("accepted");
    nontrivial(name + s);
    if (ok != expect) fail(std::string("from_string<") + name + ">(" + show(s) + ") is " + (ok ? "accepted" : "rejected") + (expect ? ", it is a numeral in range" : ", it is not a numeral in range"));
    if (ok && !(got == want)) { std::ostringstream o; o << "from_string<" << name << ">(" << show(s) << ") gives " << +got << " instead of " << +want; fail(o.str()); }
}
template <class T> void integral(const std::string& s, const char* n) { T w{}; bool e = oracle<T>(s, w); check<T>(s, n, e, w); }
template <class T> void floating(const std::string& s, const char* n, T (*conv)(const char*, char**))
{
    bool e = !s.empty(); for (char c : s) if (c == ' ' || (c >= 9 && c <= 13)) e = false;
    T w{}; if (e) { char* end = nullptr; errno = 0; w = conv(s.c_str(), &end); e = end != s.c_str() && errno != ERANGE && end == s.c_str() + s.size(); }
    bool ok = true; T got{}; try { got = cli::detail::from_string<T>(s); } catch (const cli::detail::bad_conversion&) { ok = false; }
    note(std::string(n) + " <- " + show(s) + (ok ? " accepted" : " rejected")); if (ok) count("accepted"); nontrivial(n + s);
    if (ok != e) fail(std::string("from_string<") + n + ">(" + show(s) + ") is " + (ok ? "accepted" : "rejected"));
    if (ok && got != w && !(got != got && w != w)) fail(std::string("from_string<") + n + ">(" + show(s) + ") gives another value");
}
// a letter and any number of digits
struct User { std::string text; };
std::istream& operator>>(std::istream& is, User& u)
{
    char c; if (!(is >> c)) return is;
    if (c < 'a' || c > 'z') { is.setstate(std::ios::failbit); return is; }
    u.text = c; while (is.peek() >= '0' && is.peek() <= '9') u.text += char(is.get());
    return is;
}
void user(const std::string& s)
{
    auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    std::size_t i = 0; std::string w; while (i < s.size() && ws(s[i])) ++i;
    bool e = i < s.size() && s[i] >= 'a' && s[i] <= 'z'; if (e) { w = s[i++]; while (i < s.size() && s[i] >= '0' && s[i] <= '9') w += s[i++]; while (i < s.size() && ws(s[i])) ++i; e = i == s.size(); }
    bool ok = true; std::string got; try { got = cli::detail::from_string<User>(s).text; } catch (const cli::detail::bad_conversion&) { ok = false; }
    note("a type of the user's <- " + show(s) + (ok ? " accepted" : " rejected")); if (ok) count("accepted"); nontrivial("user" + s);
    if (ok != e) fail("from_string<a type of the user's>(" + show(s) + ") is " + (ok ? "accepted" : "rejected"));
    if (ok && got != w) fail("from_string<a type of the user's>(" + show(s) + ") gives " + show(got));
}
void run(Src& in)
{
    unsigned t = in.below(18); const std::string s = in.rest();
    switch (t)
    {
        case 0: integral<signed char>(s, "signed char"); break;
        case 1: integral<short>(s, "short"); break;
        case 2: integral<int>(s, "int"); break;
        case 3: integral<long>(s, "long"); break;
        case 4: integral<long long>(s, "long long"); break;
        case 5: integral<unsigned char>(s, "unsigned char"); break;
        case 6: integral<unsigned short>(s, "unsigned short"); break;
        case 7: integral<unsigned int>(s, "unsigned int"); break;
        case 8: integral<unsigned long>(s, "unsigned long"); break;
        case 9: integral<unsigned long long>(s, "unsigned long long"); break;
        case 10: { long long w = 0; bool e = oracle<long long>(s, w) && (w == 0 || w == 1); bool b = w == 1; if (s == "true") { e = true; b = true; } if (s == "false") { e = true; b = false; } check<bool>(s, "bool", e, b); break; }
        case 11: check<char>(s, "char", s.size() == 1, s.empty() ? char(0) : s[0]); break;
        case 12: floating<float>(s, "float", std::strtof); break;
        case 13: floating<double>(s, "double", std::strtod); break;
        case 14: floating<long double>(s, "long double", std::strtold); break;
        case 15: user(s); break;
        default: if (cli::detail::from_string<std::string>(s) != s) fail("from_string<string> changes " + show(s)); break;
    }
}
std::string generate(Rng& r, long i)
{
    static const std::vector<std::string> edge = {"0", "1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "true", "false", "", "10", "99", "340282366920938463463374607431768211456"};
    std::string s(1, char(r.below(18))); if (i < 18 * 40) s[0] = char(i % 18);
    std::string b = edge[r.below(unsigned(edge.size()))];
    if (i < 18 * 40 * 3) b = edge[std::size_t(i / 18) % edge.size()];
    if (s[0] >= 12 && s[0] <= 15 && r.below(2))
    {
        static const std::vector<std::string> fe = {"1.5", ".5", "5.", "1e3", "1e", "1e+400", "1e39", "1e-46", "3.4028235e38", "1e-400", "inf", "nan", "infinity", "0x1p3", "0x", "-0", "a1", "b", "z09", "a 1", "1e5000", "nan(1)", "e", "."};
        b = fe[r.below(unsigned(fe.size()))];
        switch (r.below(6)) { case 0: b = std::string(1, " \t\n\v\r\f+-"[r.below(8)]) + b; break; case 1: b += std::string(1, " \t\n\v\r\fxf"[r.below(8)]); break; case 2: b.insert(r.below(unsigned(b.size() + 1)), 1, " .e+1"[r.below(5)]); break; default: break; }
        return s + b;
    }
    const char* signs[] = {"", "", "", "+", "-", "--", "+-", " "}; b = signs[r.below(8)] + b;
    switch (r.below(8))
    {
        case 0: if (!b.empty()) { auto& c = b[r.below(unsigned(b.size()))]; c = char(c + int(r.below(5)) - 2); } break;
        case 1: b.insert(b.empty() || (b[0] >= '0' && b[0] <= '9') ? 0 : 1, r.below(30), '0'); break;
        case 2: b += char('0' + r.below(10)); break;
        case 3: if (!b.empty()) b.erase(r.below(unsigned(b.size())), 1); break;
        case 4: b.insert(r.below(unsigned(b.size() + 1)), 1, " +-xeE.,\n\x00/:aG"[r.below(14)]); break;
        case 5: { b.clear(); unsigned n = r.below(22); if (r.below(3) == 0) b = r.below(2) ? "-" : "+"; for (unsigned j = 0; j < n; ++j) b += char('0' + r.below(10)); break; }
        default: break;
    }
    return s + b;
}
