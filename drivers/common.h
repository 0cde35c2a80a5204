// Concrete driver frame: replays / searches inputs of the real code against an independent oracle.
// A driver defines   void run(Src& in)   (calls fail(...) on a violation)   and optionally seeds().
// Every case is a byte string read through Src. Cases run in a forked worker, so crashes and hangs are failures too.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>

struct Failure { std::string what; };
[[noreturn]] inline void fail(const std::string& s) { throw Failure{s}; }
inline std::string show(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c >= 32 && c < 127) o += char(c);
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    return o + "\"";
}
inline std::string show(const std::vector<std::string>& v)
{ std::string o = "["; for (auto& s : v) { if (o.size() > 1) o += ", "; o += show(s); } return o + "]"; }

struct Src
{
    const std::string& b; std::size_t p = 0;
    explicit Src(const std::string& x) : b(x) {}
    bool more() const { return p < b.size(); }
    unsigned byte() { return p < b.size() ? static_cast<unsigned char>(b[p++]) : 0u; }
    unsigned below(unsigned n) { return n ? byte() % n : 0; }            // one choice out of n
    bool flag() { return byte() & 1; }
    std::string rest() { auto r = b.substr(std::min(p, b.size())); p = b.size(); return r; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(unsigned(v.size()))]; }
};
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t x) : s(x * 2654435769u + 88172645463325252ull) { for (int i = 0; i < 4; ++i) next(); }
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    unsigned below(unsigned n) { return unsigned((next() >> 16) % n); }
};
inline std::vector<std::string>& trace_() { static std::vector<std::string> t; return t; }
inline void note(const std::string& s) { auto& t = trace_(); if (t.size() < 400) t.push_back(s); }
inline std::map<std::string, long>& counters() { static std::map<std::string, long> m; return m; }
inline void count(const char* n) { ++counters()[n]; }
inline std::set<std::size_t>& distinct_() { static std::set<std::size_t> s; return s; }
inline void nontrivial(const std::string& what) { if (distinct_().size() < 2000000) distinct_().insert(std::hash<std::string>()(what)); }

void run(Src& in);                                   // one case
std::string generate(Rng& r, long i);                // i-th case

// default generator
inline std::string random_bytes(Rng& r, unsigned maxlen)
{
    std::string s; unsigned n = r.below(maxlen + 1); unsigned m = r.below(4);
    for (unsigned i = 0; i < n; ++i) s += char(m == 0 ? r.below(256) : m == 1 ? r.below(8) : m == 2 ? r.below(32) : r.below(64));
    return s;
}
struct Shared { volatile long done; volatile int state; volatile unsigned len; char data[1 << 16]; char msg[1 << 16]; };
inline Shared* shared() { static Shared* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return s; }
inline void publish(const std::string& c) { auto* s = shared(); s->len = unsigned(std::min<std::size_t>(c.size(), sizeof s->data)); std::memcpy(s->data, c.data(), s->len); }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

// returns "" if the case passes
inline std::string run_inproc(const std::string& c)
{
    trace_().clear();
    Src in(c);
    try { run(in); }
    catch (const Failure& f) { std::string m = f.what; for (auto& t : trace_()) m += "\n    " + t; return m; }
    catch (const std::exception& e) { std::string m = std::string("exception escaped: ") + e.what(); for (auto& t : trace_()) m += "\n    " + t; return m; }
    catch (...) { std::string m = "unknown exception escaped"; for (auto& t : trace_()) m += "\n    " + t; return m; }
    return "";
}
inline void set_msg(const std::string& m) { auto* s = shared(); auto n = std::min(m.size(), sizeof s->msg - 1); std::memcpy(s->msg, m.data(), n); s->msg[n] = 0; }
inline double hang_seconds() { static double h = getenv("DRIVER_HANG") ? atof(getenv("DRIVER_HANG")) : 40; return h; }
// runs body in a child; returns "" or the failure, with the failing case in `failing`
inline std::string in_child(const std::function<void()>& body, std::string& failing, const std::string& errfile)
{
    auto* s = shared(); s->state = 0; s->msg[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        if (!freopen(errfile.c_str(), "w", stderr)) _exit(9);
        rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l);
        body();
        s->state = 1; fflush(nullptr); _exit(0);
    }
    long last = -1; double t = now(); int st = 0;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (s->done != last) { last = s->done; t = now(); }
        else if (now() - t > hang_seconds()) { kill(p, SIGKILL); waitpid(p, &st, 0); failing.assign(s->data, s->len); return "hang: no answer for " + std::to_string(int(hang_seconds())) + " s"; }
        usleep(2000);
    }
    failing.assign(s->data, s->len);
    if (s->state == 2) return s->msg;
    if (s->state == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    std::string m = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit " + std::to_string(WEXITSTATUS(st));
    std::ifstream f(errfile); std::string l; int n = 0;
    while (std::getline(f, l) && n < 30) if (l.find("==WARNING") == std::string::npos) { m += "\n    " + l; ++n; }
    return m;
}
inline std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
inline std::string unhex(const std::string& s) { std::string o; for (std::size_t i = 0; i + 1 < s.size(); i += 2) o += char(std::stoi(s.substr(i, 2), nullptr, 16)); return o; }

int main(int argc, char** argv)
{
    std::uint64_t seed = 1; double secs = 5; long maxn = -1; std::string out = "/dev/stdout", replay, stats = "/dev/null", err = "/dev/null", kase; bool one = false;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = std::stoull(v); else if (a == "--seconds") secs = std::stod(v); else if (a == "--count") maxn = std::stol(v);
        else if (a == "--out") out = v; else if (a == "--replay") replay = v; else if (a == "--stats") stats = v; else if (a == "--err") err = v;
        else if (a == "--case") { kase = unhex(v); one = true; }
    }
    signal(SIGPIPE, SIG_IGN);
    auto* s = shared(); s->done = 0;
    auto single = [&](const std::string& c) {
        std::string dummy;
        return in_child([&] { publish(c); ++s->done; auto m = run_inproc(c); ++s->done; if (!m.empty()) { set_msg(m); s->state = 2; fflush(nullptr); _exit(3); } }, dummy, err); };
    if (!replay.empty())
    {
        std::ifstream f(replay); std::string l;
        while (std::getline(f, l)) if (l.compare(0, 5, "case=") == 0) { kase = unhex(l.substr(5)); one = true; }
        if (!one) { std::cout << "no case in the replay file\n"; return 2; }
    }
    if (one)
    {
        auto m = single(kase);
        if (m.empty()) { std::cout << "PASS\n"; return 0; }
        std::cout << "FAIL " << m << "\n"; return 1;
    }
    double end = now() + secs; std::string failing;
    auto m = in_child([&] {
        Rng r(seed); std::vector<std::string> samples; std::string bad;
        long i = 0;
        for (; maxn < 0 || i < maxn; ++i)
        {
            if (now() > end) break;
            auto c = generate(r, i);
            publish(c);
            auto f = run_inproc(c);
            ++s->done;
            if (!f.empty()) { set_msg(f); s->state = 2; fflush(nullptr); _exit(3); }
            if ((i == 3 || i == 50 || i == 1000) && samples.size() < 3) { std::string t; for (auto& x : trace_()) { if (t.size() > 600) break; t += x + "; "; } samples.push_back(t.empty() ? show(c) : t); }
        }
        std::ofstream o(stats);
        o << "evaluations=" << i << "\ndistinct=" << distinct_().size() << "\n";
        for (auto& c : counters()) o << "counter " << c.first << "=" << c.second << "\n";
        for (auto& x : samples) o << "sample " << show(x) << "\n";
    }, failing, err);
    if (m.empty()) { std::cout << "PASS\n"; return 0; }
    // shrink
    double send = now() + std::min(15.0, secs + 5); bool again = m.compare(0, 4, "hang") != 0;
    auto first = single(failing);
    if (first.empty()) { again = false; } else m = first;
    while (again && now() < send)
    {
        again = false;
        for (std::size_t len = std::max<std::size_t>(1, failing.size() / 2); len >= 1 && now() < send; len /= 2)
            for (std::size_t i = 0; i + len <= failing.size() && now() < send; )
            {
                auto c = failing; c.erase(i, len); auto f = single(c);
                if (!f.empty()) { failing = c; m = f; again = true; } else ++i;
            }
    }
    std::ofstream o(out, std::ios::app);
    o << "case=" << hex(failing) << "\ninput=" << show(failing) << "\nfailure=" << m << "\n";
    o.close();
    std::cout << "FAIL " << m << "\n";
    return 1;
}
