// C15: bytes received and sent by a telnet session against a reference reading of the protocol
#include "common.h"
#include <sstream>
#include <boost/asio.hpp>
#include <cli/cli.h>
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using namespace cli::detail;
static boost::asio::io_context& io() { static boost::asio::io_context c; return c; }
struct T : TelnetSession
{
    T() : TelnetSession(boost::asio::ip::tcp::socket(io())) {}
    void Output(char c) override { data += c; log += 'o'; }
    void Send(const std::string& m) override { sent.push_back(m); log += 's'; }
    void Rx(const std::string& s) { OnDataReceived(s); }
    std::ostream& Out() { return OutStream(); }
    std::string data, log; std::vector<std::string> sent;
};
struct Ref
{
    // where we are: plain data, inside a subnegotiation, or waiting for the option byte of a negotiation
    bool sub = false; int nego = 0; bool iac = false;
    std::string data, log; std::vector<int> answers; // options to be answered
    void plain(unsigned char c)
    {
        if (sub) return;
        if (nego) { if (nego == 251 || nego == 253) { answers.push_back(c); log += 's'; } nego = 0; return; }
        data += char(c); log += 'o';
    }
    void rx(unsigned char c)
    {
        if (!iac) { if (c == 255) iac = true; else plain(c); return; }
        iac = false;
        if (c == 255) plain(c);
        else if (c >= 251) { sub = false; nego = c; }
        else if (c == 250) { sub = true; nego = 0; }
        else if (c == 240) { sub = false; }
        else if (c > 240) { sub = false; nego = 0; }
    }
};
void run(Src& in)
{
    static std::ostringstream sink; auto* b1 = std::cout.rdbuf(sink.rdbuf()); auto* b2 = std::cerr.rdbuf(sink.rdbuf()); sink.str("");
    struct Back { std::streambuf *a, *b; ~Back() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } } back{b1, b2};
    T t; Ref r; std::string cuts, all; unsigned mode = in.byte();
    auto cut = in.byte();
    std::string bytes;
    std::string enc;
    while (in.more())
    {
        unsigned op = in.below(10);
        std::string p;
        if (mode % 3 == 2) p += char(in.byte());
        else switch (op)
        {
            case 0: p += char(in.byte()); break;
            case 1: p = "\xff\xff"; break;
            case 2: p = "\xff"; p += char(251 + in.below(4)); p += char(in.flag() ? in.byte() : in.below(40)); break;
            case 3: p = "\xff\xfa"; for (unsigned n = in.below(5); n; --n) p += char(in.byte()); p += "\xff\xf0"; break;
            case 4: p = "\xff"; p += char(240 + in.below(16)); break;
            case 5: p = "\xff"; p += char(in.byte()); break;
            case 6: p = "\xff\xfa\x1f"; p += std::string("\0\x50\xff\xff\0\x18", 6); p += "\xff\xf0"; break;
            case 7: p = "text\r\n"; break;
            case 8: p = "\xff"; break;
            default: p += char(251 + in.below(5)); break;
        }
        bytes += p;
        if (in.p > 60) break;
    }
    // packets
    std::size_t i = 0; unsigned x = cut | 1u;
    if (cut == 0) { t.Rx(bytes); i = bytes.size(); note("one packet " + show(bytes)); }
    while (i < bytes.size()) { x = x * 1103515245u + 12345u; std::size_t n = 1 + (cut % 4 == 1 ? 0 : (x >> 16) % 7); n = std::min(n, bytes.size() - i); note("packet " + show(bytes.substr(i, n))); t.Rx(bytes.substr(i, n)); i += n; if ((x >> 20) % 9 == 0) t.Rx(""); }
    for (unsigned char c : bytes) r.rx(c);
    if (t.data != r.data) fail("delivered " + show(t.data) + ", expected " + show(r.data));
    if (t.sent.size() != r.answers.size()) fail(std::to_string(t.sent.size()) + " answers, expected " + std::to_string(r.answers.size()));
    for (std::size_t k = 0; k < t.sent.size(); ++k)
    {
        auto& a = t.sent[k];
        if (a.size() != 3 || (unsigned char)a[0] != 255 || (unsigned char)a[1] < 251 || (unsigned char)a[2] != r.answers[k]) fail("answer " + show(a) + " to a negotiation about option " + std::to_string(r.answers[k]));
        count("answers");
    }
    if (t.log != r.log) fail("answers and data are out of order");
    if (!r.data.empty()) nontrivial(bytes);
    // output
    t.sent.clear(); std::string want, got; auto& o = t.Out(); unsigned k = 0;
    for (std::size_t j = 0; j < bytes.size();)
    {
        std::size_t n = std::min<std::size_t>(bytes.size() - j, 1 + (x >> (k % 8)) % 5); std::string w = bytes.substr(j, n); if (k % 3 == 1) w += "\nz\n";
        if ((x >> 12) % 16 == k) { std::string one = w; for (unsigned t = 200 + (x >> 4) % 5000 / one.size(); t; --t) w += one; count("long outputs"); }
        switch (k++ % 4)
        {
            case 0: o << w; break;
            case 1: o.write(w.data(), std::streamsize(w.size())); break;
            case 2: for (char c : w) if (c != char(-1)) o.put(c); else o << c; break;
            default: o << w << std::endl; w += '\n';
        }
        for (char c : w) { if (c == '\n') want += '\r'; want += c; }
        j += n;
    }
    for (auto& s : t.sent) got += s;
    if (got != want) fail("sent " + show(got) + ", expected " + show(want));
    if (!o.good()) fail("the stream of the session is in an error state");
    count("output checked");
}
std::string generate(Rng& r, long) { std::string s; unsigned n = 2 + r.below(70); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
