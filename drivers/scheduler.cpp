// C19: the loop scheduler, single-threaded against a queue and with several threads
#include "common.h"
#include <atomic>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <cli/loopscheduler.h>
struct Boom { int id; };
static void sequential(Src& in)
{
    cli::LoopScheduler s; std::deque<int> q; std::vector<int> ran, want; bool stopped = false; int next = 0; std::string key;
    std::function<void(int, unsigned)> post; std::map<int, unsigned> kinds;
    auto tid = std::this_thread::get_id();
    std::function<void(int)> body = [&](int id)
    {
        ran.push_back(id); if (std::this_thread::get_id() != tid) fail("a task runs in another thread");
        switch (kinds[id]) { case 1: post(next++, 0); break; case 2: s.Stop(); break; case 3: throw Boom{id}; case 4: post(next++, 3); post(next++, 1); break; case 5: (void)s.Stopped(); break; case 6: s.PollOne(); break; default: break; }
    };
    post = [&](int id, unsigned k) { kinds[id] = k; s.Post([&body, id] { body(id); }); };
    // model
    std::function<void(int, unsigned)> mpost; int mnext = 0; std::map<int, unsigned> mk; std::function<int()> one; // 1 ran, 0 nothing, 2 threw
    one = [&]() -> int
    {
        if (stopped || q.empty()) return 0;
        int id = q.front(); q.pop_front(); if (id < 0) return 1; want.push_back(id);
        switch (mk[id]) { case 1: mk[mnext] = 0; q.push_back(mnext++); break; case 2: stopped = true; break; case 3: return 2; case 4: mk[mnext] = 3; q.push_back(mnext++); mk[mnext] = 1; q.push_back(mnext++); break; case 6: { int r = one(); if (r == 2) return 2; break; } default: break; }
        return 1;
    };
    while (in.more() && next < 200)
    {
        unsigned op = in.below(8); key += char('a' + op);
        if (op < 3) { unsigned k = in.below(12); if (k == 2 && in.below(3)) k = 0; note("post task " + std::to_string(next) + " kind " + std::to_string(k)); mk[mnext] = k; q.push_back(mnext++); post(next++, k); }
        else if (op == 3 && in.below(20) == 0) { note("Stop"); s.Stop(); stopped = true; }
        else if (op == 4 && in.below(4) == 0) { note("post an empty function"); s.Post(std::function<void()>()); q.push_back(-1); }
        else
        {
            bool exec = op == 5 && (stopped || !q.empty()); note(exec ? "ExecOne" : "PollOne"); int r; try { r = (exec ? s.ExecOne() : s.PollOne()) ? 1 : 0; } catch (const Boom&) { r = 2; }
            int m = one(); if (r != m) fail("result " + std::to_string(r) + ", expected " + std::to_string(m) + " (1 executed, 0 nothing, 2 the task threw)");
            count("executions");
        }
        if (ran != want) fail("executed tasks differ from the oldest pending ones, " + std::to_string(ran.size()) + " ran");
        if (s.Stopped() != stopped) fail("Stopped() is wrong");
    }
    while (true) { int m = one(); int r; try { r = s.PollOne() ? 1 : 0; } catch (const Boom&) { r = 2; } if (r != m) fail("at the end: result " + std::to_string(r) + ", expected " + std::to_string(m)); if (!m) break; }
    if (ran != want) fail("executed tasks differ at the end");
    nontrivial(key);
}
static void threads(Src& in)
{
    unsigned producers = 1 + in.below(3), consumers = 1 + in.below(3), n = 1 + in.below(30); bool run = in.flag(), thrower = in.flag(); unsigned stop_by = in.below(3);
    note(std::to_string(producers) + " producers of " + std::to_string(n) + " tasks, " + std::to_string(consumers) + " consumers, stop " + std::to_string(stop_by));
    // shared so that a lost wake-up (reported below) leaves nothing dangling
    struct S { cli::LoopScheduler s; std::mutex m; std::vector<std::pair<int, int>> ran; std::vector<std::thread::id> ids; std::atomic<int> done{0}, execs{0}; std::atomic<bool> go{false}; };
    auto p = std::make_shared<S>(); std::vector<std::thread> ts; std::string bad; std::mutex bm;
    const int total = int(producers * n);
    for (unsigned c = 0; c < consumers; ++c) ts.emplace_back([p, run] {
        while (!p->go) {}
        for (;;) { try { if (run) { p->s.Run(); break; } else if (!p->s.ExecOne()) break; } catch (const Boom&) {} }
        ++p->done; });
    for (unsigned k = 0; k < producers; ++k) ts.emplace_back([p, k, n, thrower] {
        while (!p->go) {}
        for (unsigned i = 0; i < n; ++i) { p->s.Post([p, k, i, thrower] { { std::lock_guard<std::mutex> l(p->m); p->ran.push_back({int(k), int(i)}); } ++p->execs; if (thrower && i % 5 == 2) throw Boom{int(i)}; }); if (i % 7 == 3) std::this_thread::yield(); }
        ++p->done; });
    p->go = true;
    double t0 = now();
    if (stop_by) while (p->execs < total && now() < t0 + 15) std::this_thread::yield();
    const bool allran = p->execs == total;
    if (stop_by == 1) p->s.Stop(); else if (stop_by == 2) p->s.Post([p] { p->s.Stop(); }); else { for (unsigned i = 0; i < n; ++i) std::this_thread::yield(); p->s.Stop(); }
    double t1 = now(); while (p->done < int(producers + consumers) && now() < t1 + 15) usleep(20);
    if (p->done < int(producers + consumers)) { for (auto& t : ts) t.detach(); fail("a blocked call does not return after a stop"); }
    for (auto& t : ts) t.join();
    if (stop_by && !allran) fail("a task is never executed: " + std::to_string(int(p->execs)) + " of " + std::to_string(total));
    std::map<int, std::vector<int>> by; for (auto& x : p->ran) by[x.first].push_back(x.second);
    for (auto& x : by) { if (consumers == 1) for (std::size_t i = 0; i < x.second.size(); ++i) if (x.second[i] != int(i)) fail("tasks of one thread are executed out of order"); std::set<int> u(x.second.begin(), x.second.end()); if (u.size() != x.second.size()) fail("a task is executed twice"); }
    int before = p->execs; p->s.Post([p] { ++p->execs; }); if (p->s.PollOne() || p->s.ExecOne() || p->execs != before) fail("a task is executed after a stop");
    count("threaded cases"); nontrivial(std::to_string(producers) + "/" + std::to_string(consumers) + "/" + std::to_string(n) + "/" + std::to_string(run) + std::to_string(stop_by));
}
// as many waiters as tasks that need each other: every one must be woken
static void together(Src& in)
{
    unsigned k = 2 + in.below(3); bool pause = in.flag(); note(std::to_string(k) + " threads blocked in ExecOne, " + std::to_string(k) + " tasks waiting for each other");
    struct S { cli::LoopScheduler s; std::atomic<unsigned> in{0}, met{0}, done{0}; std::atomic<bool> bad{false}; };
    auto p = std::make_shared<S>(); std::vector<std::thread> ts;
    for (unsigned i = 0; i < k; ++i) ts.emplace_back([p] { ++p->in; p->s.ExecOne(); ++p->done; });
    while (p->in < k) std::this_thread::yield();
    usleep(200 + in.below(3000));
    for (unsigned i = 0; i < k; ++i) { p->s.Post([p, k] { ++p->met; double t = now(); while (p->met < k && now() < t + 3) std::this_thread::yield(); if (p->met < k) p->bad = true; }); if (pause && i % 2) std::this_thread::yield(); }
    double t = now(); while (p->done < k && now() < t + 8) usleep(20);
    if (p->done < k) p->bad = true;
    p->s.Stop(); for (auto& x : ts) x.join();
    if (p->bad) fail("a waiting thread is not woken although a task is pending");
    count("rendezvous"); nontrivial("together " + std::to_string(k));
}
void run(Src& in) { if (in.below(16) == 5) together(in); else if (in.below(8) == 0) threads(in); else sequential(in); }
std::string generate(Rng& r, long) { std::string s; unsigned n = 6 + r.below(60); for (unsigned i = 0; i < n; ++i) s += char(r.below(256)); return s; }
