// C19 Posting from any thread is safe and loses nothing
#include "vf.h"

#ifdef VARIANT_LOOP
#include <cli/loopscheduler.h>
using Sched = cli::LoopScheduler;
#elif defined VARIANT_BOOST
#include <cli/boostasioscheduler.h>
using Sched = cli::BoostAsioScheduler;
namespace asio_ns = boost::asio;
#else
#include <cli/standaloneasioscheduler.h>
using Sched = cli::StandaloneAsioScheduler;
namespace asio_ns = asio;
#endif

#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>

using namespace vf;
using Clock = std::chrono::steady_clock;

namespace
{

struct Pause { int kind = 0, n = 0; };
Pause genPause(Src& s)
{
    Pause p;
    p.kind = static_cast<int>(s.weighted({6, 2, 2, 1}));
    p.n = static_cast<int>(s.draw(p.kind == 2 ? 2000 : 120));
    return p;
}
void doPause(const Pause& p)
{
    switch (p.kind)
    {
        case 1: for (int i = 0; i < p.n % 20; ++i) std::this_thread::yield(); break;
        case 2: for (volatile int i = 0; i < p.n; i = i + 1) {} break;
        case 3: std::this_thread::sleep_for(std::chrono::microseconds(p.n)); break;
        default: break;
    }
}
std::string text(const Pause& p) { return p.kind ? std::string(1, "-ynu"[p.kind]) + std::to_string(p.n) : "-"; }

struct Poster
{
    std::vector<Pause> before;   // one per task
    std::vector<Pause> inTask;
    std::vector<int> children;   // how many tasks each task posts itself
};

// reading the queue's state while others work on it
struct Plan
{
    std::vector<Poster> posters;
    int mode = 0;            // how the runner runs: Run, ExecOne, PollOne
    bool early = false;      // stopped without waiting for the tasks
    std::vector<Pause> stops; // one per stopping thread
    bool stopInTask = false;
    bool borrowed = false;
    bool watch = false;      // a thread asks Stopped()
    Pause runnerDelay;
};

bool waitFor(const std::function<bool()>& f, double seconds)
{
    const auto end = Clock::now() + std::chrono::duration<double>(seconds);
    for (int i = 0; !f(); ++i)
    {
        if (Clock::now() > end) return false;
        if (i < 200) std::this_thread::yield();
        else std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    return true;
}

void round(Ctx& c, const Plan& plan)
{
#ifdef VARIANT_LOOP
    auto sched = std::make_unique<Sched>();
#else
    std::unique_ptr<Sched::ContextType> ctx;
    std::unique_ptr<Sched::WorkGuard> guard;
    std::unique_ptr<Sched> sched;
    if (plan.borrowed)
    {
        ctx = std::make_unique<Sched::ContextType>();
        guard = std::make_unique<Sched::WorkGuard>(asio_ns::make_work_guard(*ctx));
        sched = std::make_unique<Sched>(*ctx);
    }
    else sched = std::make_unique<Sched>();
#endif
    struct Done { std::size_t poster; long seq; };
    std::vector<Done> done;                // written by the running thread only
    std::atomic<std::size_t> count{0};
    std::atomic<int> inside{0};            // tasks running now
    std::atomic<bool> wrongThread{false}, overlap{false}, finished{false}, stopReturned{false};
    std::atomic<int> startedAfterStop{0};
    std::thread::id runnerId;
    std::atomic<bool> runnerKnown{false};
    const auto P = plan.posters.size();
    std::vector<long> nextSeq(P, 0);
    // children are posted by the running thread: a poster of their own
    std::vector<long> childSeq(1, 0);
    std::function<void(std::size_t, std::size_t)> task = [&](std::size_t p, std::size_t k)
    {
        if (!runnerKnown || std::this_thread::get_id() != runnerId) wrongThread = true;
        if (inside.fetch_add(1) != 0) overlap = true;
        if (stopReturned) ++startedAfterStop;
        done.push_back({p, static_cast<long>(k)});
        doPause(plan.posters[p].inTask[k]);
        for (int i = 0; i < plan.posters[p].children[k]; ++i)
        {
            const auto n = childSeq[0]++;
            sched->Post([&, n]
            {
                if (std::this_thread::get_id() != runnerId) wrongThread = true;
                if (inside.fetch_add(1) != 0) overlap = true;
                if (stopReturned) ++startedAfterStop;
                done.push_back({P, n});
                inside.fetch_sub(1);
                ++count;
            });
        }
        inside.fetch_sub(1);
        ++count;
    };
    std::size_t total = 0;
    for (auto& p : plan.posters) { total += p.before.size(); for (auto k : p.children) total += static_cast<std::size_t>(k); }

    std::thread runner([&]
    {
        runnerId = std::this_thread::get_id();
        runnerKnown = true;
        doPause(plan.runnerDelay);
        if (plan.mode == 0) sched->Run();
        else if (plan.mode == 1) while (!sched->Stopped()) sched->ExecOne();
        else while (!sched->Stopped()) { sched->PollOne(); std::this_thread::yield(); }
        finished = true;
    });
    std::vector<std::thread> threads;
    for (std::size_t p = 0; p < P; ++p)
        threads.emplace_back([&, p]
        {
            for (std::size_t k = 0; k < plan.posters[p].before.size(); ++k)
            {
                doPause(plan.posters[p].before[k]);
                sched->Post([&task, p, k] { task(p, k); });
            }
        });
    std::atomic<bool> watching{plan.watch};
    std::atomic<bool> sawStopped{false}, unstopped{false};
    std::thread watcher;
    if (plan.watch)
        watcher = std::thread([&]
        {
            while (watching)
            {
                const bool st = sched->Stopped();
                if (sawStopped && !st) unstopped = true;
                if (st) sawStopped = true;
                std::this_thread::yield();
            }
        });
    bool all = true;
    if (!plan.early) all = waitFor([&] { return count == total; }, 5);
    std::vector<std::thread> stoppers;
    std::atomic<std::size_t> ranAtStop{0};
    for (auto& st : plan.stops)
        stoppers.emplace_back([&, st] { doPause(st); sched->Stop(); stopReturned = true; });
    if (plan.stopInTask) sched->Post([&] { sched->Stop(); });
    for (auto& t : stoppers) t.join();
    if (plan.stops.empty() && !plan.stopInTask) { sched->Stop(); stopReturned = true; }
    // (a runner that does not return is caught as a hang)
    runner.join();
    for (auto& t : threads) t.join();
    watching = false;
    if (watcher.joinable()) watcher.join();
    const auto after = done.size();
    VF_REQUIRE(c, sched->Stopped(), "the scheduler does not report that it was stopped");
    sched->PollOne();
    VF_REQUIRE(c, done.size() == after, "a task runs after the scheduler was stopped and the runner returned");
    VF_REQUIRE(c, !unstopped, "the scheduler reported stopped, then not stopped");
    if (!plan.early) VF_REQUIRE(c, all && done.size() == total, done.size() << " of " << total << " tasks ran in 5 s");
    VF_REQUIRE(c, !wrongThread, "a task runs on another thread than the one that runs the scheduler");
    VF_REQUIRE(c, !overlap, "two tasks run at the same time");
    VF_REQUIRE(c, startedAfterStop <= 1, startedAfterStop << " tasks started after Stop() had returned");
    std::vector<long> next(P + 1, 0);
    for (auto& d : done)
    {
        VF_REQUIRE(c, d.seq == next[d.poster], "task " << d.seq << " of thread " << d.poster << " runs where " << next[d.poster] << " is expected");
        ++next[d.poster];
    }
    // the scheduler, or its context, goes
#ifndef VARIANT_LOOP
    sched.reset();
    guard.reset();
#endif
}

void run(Ctx& c)
{
    auto& s = c.src;
    Plan plan;
    const auto P = s.draw(6);
    std::size_t total = 0;
    for (std::uint64_t i = 0; i < P; ++i)
    {
        Span sp(s);
        Poster p;
        const auto n = s.size(40);
        const bool steady = s.coin();
        const auto q = genPause(s);
        std::string t = "poster:";
        for (std::size_t k = 0; k < n; ++k)
        {
            p.before.push_back(steady ? q : genPause(s));
            p.inTask.push_back(s.chance(1, 4) ? genPause(s) : Pause{});
            p.children.push_back(s.chance(1, 10) ? 1 + static_cast<int>(s.draw(2)) : 0);
            if (k < 12) t += " " + text(p.before.back()) + "/" + text(p.inTask.back()) + (p.children.back() ? "+" : "");
            ++total;
        }
        c.note(t + " (" + std::to_string(n) + ")");
        plan.posters.push_back(p);
    }
    plan.mode = static_cast<int>(s.weighted({6, 3, 2}));
    plan.early = s.coin();
    plan.stopInTask = s.chance(1, 6);
    const auto st = s.draw(4);
    for (std::uint64_t i = 0; i < st; ++i) plan.stops.push_back(genPause(s));
    plan.runnerDelay = genPause(s);
    plan.watch = s.chance(1, 4);
    plan.borrowed = s.chance(1, 3);
    c.note("mode " + std::to_string(plan.mode) + (plan.early ? " stopped early" : "") + ", " + std::to_string(st) + " stopping threads" + (plan.stopInTask ? " and a task" : "") + ", runner delay "
        + text(plan.runnerDelay) + (plan.watch ? ", watched" : "") + (plan.borrowed ? ", context of the caller" : ""));
    if ((P > 1 && total > 3) || (P == 0 && plan.early)) c.nontrivial();
    c.label(plan.early ? "stopped early" : "stopped at the end");
    if (P == 0) c.label("idle");
    for (int i = 0; i < 5 && !c.failed(); ++i) round(c, plan);
}

// a runner that is idle again and again is woken up each time
void wake(Ctx& c)
{
    auto& s = c.src;
    Sched sched;
    std::atomic<int> ran{0};
    const auto mode = s.draw(2);
    std::thread runner([&]
    {
        if (mode == 0) sched.Run();
        else while (!sched.Stopped()) sched.ExecOne();
    });
    const auto n = 1 + s.draw(60);
    bool ok = true;
    int posted = 0;
    std::string t = "mode " + std::to_string(mode) + ":";
    for (std::uint64_t i = 0; i < n && ok; ++i)
    {
        Span sp(s);
        const auto k = 1 + static_cast<int>(s.draw(3));
        const auto p = genPause(s);
        t += " " + std::to_string(k) + text(p);
        doPause(p);
        std::vector<std::thread> ths;
        if (s.chance(1, 4)) for (int j = 0; j < k; ++j) ths.emplace_back([&] { sched.Post([&] { ++ran; }); });
        else for (int j = 0; j < k; ++j) sched.Post([&] { ++ran; });
        for (auto& x : ths) x.join();
        posted += k;
        ok = waitFor([&] { return ran == posted; }, 5);
    }
    c.note(t);
    sched.Stop();
    runner.join();
    VF_REQUIRE(c, ok, "the idle runner does not wake up: " << ran << " of " << posted << " tasks ran in 5 s");
    c.nontrivial();
}

// several threads run the same scheduler
void runners(Ctx& c)
{
    auto& s = c.src;
    const auto R = 2 + s.draw(3);
    struct Runner { int mode; Pause delay; };
    std::vector<Runner> rs;
    std::string t = "runners:";
    for (std::uint64_t i = 0; i < R; ++i)
    {
        Span sp(s);
        rs.push_back({static_cast<int>(s.weighted({5, 3, 2})), genPause(s)});
        t += " " + std::to_string(rs.back().mode) + text(rs.back().delay);
    }
    c.note(t);
    std::vector<Poster> posters;
    const auto P = s.draw(4);
    std::size_t total = 0;
    for (std::uint64_t i = 0; i < P; ++i)
    {
        Span sp(s);
        Poster p;
        const auto n = 1 + s.size(25);
        std::string u = "poster:";
        for (std::size_t k = 0; k < n; ++k)
        {
            p.before.push_back(genPause(s));
            p.inTask.push_back(s.coin() ? genPause(s) : Pause{});
            p.children.push_back(s.chance(1, 8) ? 1 + static_cast<int>(s.draw(2)) : 0);
            total += 1 + static_cast<std::size_t>(p.children.back());
            if (k < 12) u += " " + text(p.before.back()) + "/" + text(p.inTask.back()) + (p.children.back() ? "+" : "");
        }
        c.note(u);
        posters.push_back(p);
    }
    const bool early = s.chance(1, 3);
    const int how = static_cast<int>(s.draw(3)); // who stops: this thread, a task, two threads
    const auto wait = genPause(s);
    c.note(std::string(early ? "stopped early" : "stopped at the end") + " by " + (how == 0 ? "a thread" : how == 1 ? "a task" : "two threads") + " after " + text(wait));
    for (int r = 0; r < 4 && !c.failed(); ++r)
    {
        Sched sched;
        std::vector<std::atomic<int>> times(total + 1);
        std::vector<std::thread::id> ids(R);
        std::atomic<std::size_t> ready{0}, count{0}, stray{0};
        std::atomic<int> after{0};
        std::vector<std::thread> runners;
        std::mutex m;
        std::vector<std::thread::id> seen;
        auto ran = [&](std::size_t id)
        {
            {
                std::lock_guard<std::mutex> l(m);
                if (std::find(seen.begin(), seen.end(), std::this_thread::get_id()) == seen.end()) seen.push_back(std::this_thread::get_id());
            }
            ++times[id];
            ++count;
        };
        for (std::size_t i = 0; i < R; ++i)
            runners.emplace_back([&, i]
            {
                ids[i] = std::this_thread::get_id();
                ++ready;
                doPause(rs[i].delay);
                if (rs[i].mode == 0) sched.Run();
                else if (rs[i].mode == 1) while (!sched.Stopped()) sched.ExecOne();
                else while (!sched.Stopped()) { sched.PollOne(); std::this_thread::yield(); }
            });
        std::vector<std::thread> threads;
        std::size_t first = 0;
        for (std::size_t p = 0; p < P; ++p)
        {
            const auto base = first;
            for (auto k : posters[p].children) first += 1 + static_cast<std::size_t>(k);
            threads.emplace_back([&, p, base]
            {
                auto& po = posters[p];
                auto id = base;
                for (std::size_t k = 0; k < po.before.size(); ++k)
                {
                    doPause(po.before[k]);
                    const auto kids = static_cast<std::size_t>(po.children[k]);
                    sched.Post([&, p, k, id, kids]
                    {
                        for (std::size_t j = 1; j <= kids; ++j) sched.Post([&ran, id, j] { ran(id + j); });
                        doPause(posters[p].inTask[k]);
                        ran(id);
                    });
                    id += 1 + kids;
                }
            });
        }
        bool all = true;
        if (!early) all = waitFor([&] { return count == total; }, 5);
        doPause(wait);
        if (how == 0) sched.Stop();
        else if (how == 1) sched.Post([&] { sched.Stop(); });
        else
        {
            std::thread a([&] { sched.Stop(); }), b([&] { doPause(wait); sched.Stop(); });
            a.join();
            b.join();
        }
        // (runners that do not return are caught as a hang)
        for (auto& x : runners) x.join();
        for (auto& x : threads) x.join();
        const auto end = count.load();
        VF_REQUIRE(c, sched.Stopped(), "the scheduler does not report that it was stopped");
        sched.PollOne();
        VF_REQUIRE(c, count == end, "a task runs after the scheduler was stopped and the runners returned");
        if (!early) VF_REQUIRE(c, all && end == total, end << " of " << total << " tasks ran in 5 s on " << R << " running threads");
        for (std::size_t i = 0; i < total; ++i) VF_REQUIRE(c, times[i] <= 1, "task " << i << " ran " << times[i] << " times");
        for (auto& x : seen) VF_REQUIRE(c, std::find(ids.begin(), ids.end(), x) != ids.end(), "a task runs on a thread that does not run the scheduler");
        if (seen.size() > 1) c.label("tasks on several threads");
    }
    if (total > 3 || P == 0) c.nontrivial();
    c.label(early ? "stopped early" : "stopped at the end");
    if (P == 0) c.label("idle");
}

// several threads run the same scheduler, and the tasks wait for each other: every idle runner is needed
void together(Ctx& c)
{
    auto& s = c.src;
    const auto R = 2 + s.draw(3);
    Sched sched;
    std::vector<std::thread> runners;
    std::string t;
    for (std::uint64_t i = 0; i < R; ++i)
    {
        const auto mode = s.weighted({5, 3, 1});
        t += " " + std::to_string(mode);
        runners.emplace_back([&sched, mode]
        {
            if (mode == 0) sched.Run();
            else if (mode == 1) while (!sched.Stopped()) sched.ExecOne();
            else while (!sched.Stopped()) { sched.PollOne(); std::this_thread::yield(); }
        });
    }
    t += ":";
    bool ok = true;
    std::size_t wanted = 0;
    const auto rounds = 1 + s.draw(12);
    for (std::uint64_t r = 0; r < rounds && ok; ++r)
    {
        Span sp(s);
        const auto k = 2 + s.draw(R - 1);
        const auto p = genPause(s);
        const auto how = s.draw(4); // posted by: this thread, as many threads, the first task (all the others), each task (the next one)
        t += " " + std::to_string(k) + "/" + std::to_string(how) + text(p);
        doPause(p);
        std::atomic<std::size_t> started{0}, left{0};
        std::atomic<bool> timeout{false};
        std::function<void(std::size_t)> task = [&](std::size_t i)
        {
            ++started;
            if (how == 2 && i == 0) for (std::size_t j = 1; j < k; ++j) sched.Post([&task, j] { task(j); });
            if (how == 3 && i + 1 < k) sched.Post([&task, i] { task(i + 1); });
            if (!waitFor([&] { return started == k || timeout; }, 5)) timeout = true;
            ++left;
        };
        std::vector<std::thread> ths;
        std::size_t posted = k;
        if (how == 0) for (std::size_t i = 0; i < k; ++i) sched.Post([&task, i] { task(i); });
        else if (how == 1) for (std::size_t i = 0; i < k; ++i) ths.emplace_back([&, i] { sched.Post([&task, i] { task(i); }); });
        else sched.Post([&task] { task(0); });
        for (auto& x : ths) x.join();
        ok = waitFor([&] { return left == posted; }, 12) && !timeout;
        if (!ok) waitFor([&] { return left == posted; }, 12);
        wanted = k;
        if (!ok && left != posted) break;
    }
    c.note("runners" + t);
    sched.Stop();
    for (auto& x : runners) x.join();
    VF_REQUIRE(c, ok, "of " << wanted << " tasks that wait for each other not all start, in 5 s, on " << R << " running threads: an idle runner does not wake up");
    c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C19";
    su.rule = "0 to 5 posting threads with random numbers of tasks and random pauses, a thread that runs the scheduler (Run, ExecOne, PollOne), 0 to 3 stopping threads or a stopping task, a thread that asks for the state; "
              "each plan is run 5 times; also a runner that is idle again and again, and 2 to 4 threads running the same scheduler, also with tasks that wait for each other. Under ThreadSanitizer and AddressSanitizer. Non-trivial: several posting threads, or stopping an idle runner.";
    su.props = {
        {"threads", run, 3000, 60000, 20, 20},
        {"wake-up", wake, 1500, 30000, 20, 20},
        {"runners", runners, 1500, 30000, 20, 20},
        {"together", together, 1500, 30000, 20, 40},
    };
    return su;
}
