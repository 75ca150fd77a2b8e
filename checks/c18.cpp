// C18 Schedulers run posted tasks once, in order, never inside the post call
#include "vf.h"

#ifdef VARIANT_LOOP
#include <cli/loopscheduler.h>
using Sched = cli::LoopScheduler;
#elif defined VARIANT_BOOST
#include <cli/boostasioscheduler.h>
using Sched = cli::BoostAsioScheduler;
namespace asio_ns = boost::asio;
#else
#include <cli/standaloneasioscheduler.h>
using Sched = cli::StandaloneAsioScheduler;
namespace asio_ns = asio;
#endif

#include <deque>
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>

using namespace vf;

namespace
{

struct TaskError : std::runtime_error { using runtime_error::runtime_error; };

// a task that knows whether its copies are released
struct Token
{
    explicit Token(int& l) : live(l) { ++live; }
    ~Token() { --live; }
    int& live;
};

struct Run
{
    explicit Run(Ctx& ctx) : c(ctx), s(ctx.src) {}
    Ctx& c;
    Src& s;
    struct Q
    {
        std::deque<int> tasks;
        bool stopped = false;
    };
    Q q;
    std::vector<Sched*> scheds; // all serve the same queue
    std::function<void(std::function<void()>)> direct; // posts on the context itself
    std::set<int> ran;
    int ids = 0, live = 0, budget = 60;
    bool posting = false, executing = false;
    std::thread::id thread;
    int inCall = 0, limit = 0; // tasks run by the current call, and how many it may run
    bool threw = false;
    int nested = 0, fromTask = 0, exceptions = 0;
    std::string trace;

    void post(bool stopper = false, bool nop = false)
    {
        if (scheds.empty() && !direct) return;
        const int id = ++ids;
        q.tasks.push_back(id);
        posting = true;
        auto token = std::make_shared<Token>(live);
        std::function<void()> f = [this, id, token, stopper, nop] { exec(id, stopper, nop); };
        token.reset();
        const auto how = s.draw(3);
        if (scheds.empty() || (direct && s.chance(1, 4))) direct(f);
        else
        {
            auto& x = *scheds[s.draw(scheds.size())];
            if (how == 0) x.Post(f);
            else if (how == 1) static_cast<cli::Scheduler&>(x).Post(f);
            else static_cast<cli::Scheduler&>(x).Post([f] { f(); });
        }
        posting = false;
        trace += " post" + std::to_string(id) + (stopper ? "(stop)" : "");
    }
    // many at once
    void burst()
    {
        c.label("many tasks");
        for (auto n = 100 + s.draw(3000); n > 0; --n) post(false, true);
    }
    void stop()
    {
        if (scheds.empty()) return;
        scheds[s.draw(scheds.size())]->Stop();
        q.stopped = true;
        trace += " stop";
    }
    void exec(int id, bool stopper, bool nop)
    {
        const auto name = "task " + std::to_string(id);
        if (posting) c.fail(name + " runs inside Post:" + trace);
        if (!executing) c.fail(name + " runs outside the calls that execute tasks:" + trace);
        if (std::this_thread::get_id() != thread) c.fail(name + " runs on another thread");
        if (q.stopped) c.fail(name + " runs after the scheduler was stopped:" + trace);
        if (!ran.insert(id).second) c.fail(name + " runs twice:" + trace);
        if (q.tasks.empty() || q.tasks.front() != id) c.fail(name + " runs, but the oldest is " + (q.tasks.empty() ? "none" : std::to_string(q.tasks.front())) + ":" + trace);
        else q.tasks.pop_front();
        if (++inCall > limit) c.fail("one call ran " + std::to_string(inCall) + " tasks:" + trace);
        trace += " [" + std::to_string(id);
        if (stopper) stop();
        if (nop || c.failed()) { trace += "]"; return; }
        Span sp(s);
        for (auto n = s.draw(4); n > 0 && budget > 0; --n)
            switch (s.weighted({50, 25, 4, 6, 5}))
            {
                case 0: break;
                case 1: --budget; ++fromTask; post(); break;
                case 2: stop(); break;
                case 3:
                    threw = true;
                    ++exceptions;
                    trace += " throw]";
                    if (s.coin()) throw TaskError("task");
                    throw id;
                default: // a task that polls (which Asio does not promise to support)
                {
#ifdef VARIANT_LOOP
                    if (scheds.empty()) break;
                    ++nested;
                    const auto wasIn = inCall, wasLimit = limit;
                    inCall = 0;
                    limit = 1;
                    const auto before = q.tasks.size();
                    const bool stoppedBefore = q.stopped;
                    trace += " poll(";
                    bool ex = false;
                    try { scheds[s.draw(scheds.size())]->PollOne(); }
                    catch (const TaskError&) { ex = true; }
                    catch (int) { ex = true; }
                    trace += ")";
                    if (ex != threw) c.fail("an exception is lost:" + trace);
                    threw = false;
                    if (inCall != (before && !stoppedBefore ? 1 : 0)) c.fail("polling with " + std::to_string(before) + " tasks ran " + std::to_string(inCall) + ":" + trace);
                    inCall = wasIn;
                    limit = wasLimit;
#endif
                    break;
                }
            }
        trace += "]";
    }
    // an executing call; returns how many tasks ran
    int call(const std::string& name, int lim, const std::function<void()>& f)
    {
        trace += " " + name + "{";
        executing = true;
        thread = std::this_thread::get_id();
        inCall = 0;
        limit = lim;
        threw = false;
        bool caught = false;
        try { f(); }
        catch (const TaskError&) { caught = true; }
        catch (int) { caught = true; }
        catch (const std::exception& e) { c.fail(name + " throws " + e.what() + ":" + trace); }
        executing = false;
        trace += "}";
        if (caught != threw) c.fail(name + (caught ? " throws an exception no task threw:" : " loses the exception of a task:") + trace);
        return inCall;
    }
};

// a scheduler that is not given a context
void owning(Ctx& c)
{
    auto& s = c.src;
    Run r(c);
    auto sched = std::make_unique<Sched>();
    r.scheds = {sched.get()};
    const auto n = 1 + s.size(30);
    for (std::size_t i = 0; i < n && !c.failed(); ++i)
    {
        Span sp(s);
        const auto size = r.q.tasks.size();
        const bool was = r.q.stopped;
        switch (s.weighted({50, 15, 15, 8, 2}))
        {
            case 0: r.post(); if (s.chance(1, 600)) r.burst(); break;
            case 1:
            {
                if (!size && !was) break; // would wait
#ifdef VARIANT_LOOP
                bool more = false;
                auto k = r.call("ExecOne", 1, [&] { more = sched->ExecOne(); });
                if (!r.threw && more != (k == 1)) c.fail("ExecOne returns " + std::to_string(more) + ":" + r.trace);
#else
                auto k = r.call("ExecOne", 1, [&] { sched->ExecOne(); });
#endif
                if (k != (was ? 0 : 1)) c.fail("ExecOne ran " + std::to_string(k) + " tasks:" + r.trace);
                break;
            }
            case 2:
            {
#ifdef VARIANT_LOOP
                bool more = false;
                auto k = r.call("PollOne", 1, [&] { more = sched->PollOne(); });
                if (!r.threw && more != (k == 1)) c.fail("PollOne returns " + std::to_string(more) + ":" + r.trace);
#else
                auto k = r.call("PollOne", 1, [&] { sched->PollOne(); });
#endif
                if (k != (was || !size ? 0 : 1)) c.fail("PollOne ran " + std::to_string(k) + " tasks:" + r.trace);
                break;
            }
            case 3: // running: something must stop it
            {
                r.post(true, s.coin());
                if (s.coin()) r.post();
                r.call("Run", 1 << 30, [&] { sched->Run(); });
                if (!r.threw && !r.q.stopped) c.fail("Run returned without being stopped:" + r.trace);
                break;
            }
            default: r.stop(); break;
        }
        if (sched->Stopped() != r.q.stopped) c.fail(std::string("the scheduler reports ") + (r.q.stopped ? "not " : "") + "stopped:" + r.trace);
        // a new scheduler, the tasks of the old one being dropped
        if (r.q.stopped && s.chance(2, 3))
        {
            const bool base = s.coin();
            if (base) { std::unique_ptr<cli::Scheduler> b = std::move(sched); b.reset(); }
            sched.reset();
            if (r.live) c.fail(std::to_string(r.live) + " tasks are still held after the scheduler has gone:" + r.trace);
            sched = std::make_unique<Sched>();
            r.scheds = {sched.get()};
            r.q = {};
            r.trace += " NEW";
        }
    }
    sched.reset();
    if (r.live) c.fail(std::to_string(r.live) + " tasks are still held after the scheduler has gone:" + r.trace);
    c.note(r.trace);
    if (r.ran.size() > 3) c.nontrivial();
    if (r.nested) c.label("a task polls");
    if (r.fromTask) c.label("a task posts");
    if (r.exceptions) c.label("a task throws");
}

// very many tasks waiting at once
void longQueue(Ctx& c)
{
    auto& s = c.src;
    auto sched = std::make_unique<Sched>();
    const auto n = 1000 + s.draw(1000000);
    const bool chained = s.coin(); // or each one posts the next one
    c.note(std::to_string(n) + (chained ? " tasks, each posted by the one before" : " tasks"));
    std::uint64_t ran = 0, wrong = 0;
    std::function<void(std::uint64_t)> add;
    bool inPost = false;
    add = [&](std::uint64_t i)
    {
        const auto before = inPost;
        inPost = true;
        sched->Post([&, i]
        {
            if (inPost || ran != i) ++wrong;
            ++ran;
            if (chained && i + 1 < n) add(i + 1);
            if (i + 1 == n) sched->Stop();
        });
        inPost = before;
    };
    if (chained) add(0);
    else for (std::uint64_t i = 0; i < n; ++i) add(i);
    VF_REQUIRE(c, ran == 0, ran << " tasks ran while they were posted");
    std::uint64_t polled = 0;
    for (auto k = s.draw(20); k > 0; --k) { sched->PollOne(); ++polled; }
    VF_REQUIRE(c, ran == polled, ran << " tasks ran in " << polled << " polls");
    sched->Run();
    VF_REQUIRE(c, ran == n && !wrong, ran << " of " << n << " tasks ran, " << wrong << " at the wrong moment");
    VF_REQUIRE(c, sched->Stopped(), "not reported as stopped");
    c.nontrivial();
}

#ifndef VARIANT_LOOP
// schedulers on a context that belongs to the caller
void borrowing(Ctx& c)
{
    auto& s = c.src;
    Run r(c);
    using Context = Sched::ContextType;
    auto ctx = s.chance(1, 4) ? std::make_unique<Context>(1) : std::make_unique<Context>();
    std::vector<std::unique_ptr<Sched>> scheds;
    auto refresh = [&] { r.scheds.clear(); for (auto& x : scheds) r.scheds.push_back(x.get()); };
    r.direct = [&](std::function<void()> f) { asio_ns::post(*ctx, std::move(f)); };
    scheds.push_back(std::make_unique<Sched>(*ctx));
    refresh();
    std::unique_ptr<Sched::WorkGuard> guard;
    if (s.coin()) guard = std::make_unique<Sched::WorkGuard>(asio_ns::make_work_guard(*ctx));
    const auto n = 1 + s.size(30);
    int made = 1;
    // a context that ran out of work or was stopped is restarted by its owner
    auto restart = [&] { if (ctx->stopped()) { ctx->restart(); r.trace += " restart"; r.q.stopped = false; } };
    for (std::size_t i = 0; i < n && !c.failed(); ++i)
    {
        Span sp(s);
        const auto what = s.weighted({50, 12, 12, 6, 6, 3, 4, 4});
        if (what >= 1 && what <= 4 && !(r.q.stopped && s.coin())) restart();
        const auto size = r.q.tasks.size();
        const bool was = r.q.stopped;
        switch (what)
        {
            case 0: r.post(); if (s.chance(1, 600)) r.burst(); break;
            case 1:
            {
                if ((!size && guard && !was) || scheds.empty()) break;
                auto k = r.call("ExecOne", 1, [&] { s.pick(scheds)->ExecOne(); });
                if (k != (was || !size ? 0 : 1)) c.fail("ExecOne ran " + std::to_string(k) + " tasks:" + r.trace);
                break;
            }
            case 2:
            {
                if (scheds.empty()) break;
                auto k = r.call("PollOne", 1, [&] { s.pick(scheds)->PollOne(); });
                if (k != (was || !size ? 0 : 1)) c.fail("PollOne ran " + std::to_string(k) + " tasks:" + r.trace);
                break;
            }
            case 3: // without a guard of the caller, running returns when there is nothing left
            {
                if (scheds.empty()) break;
                if (guard && !was) { r.post(true); if (r.q.stopped) break; }
                // (the stopping task can be preceded by one that throws)
                r.call("Run", 1 << 30, [&] { s.pick(scheds)->Run(); });
                if (!r.threw && !was && !r.q.stopped && !r.q.tasks.empty()) c.fail("Run returned with tasks left:" + r.trace);
                break;
            }
            case 4: // the owner runs its context
            {
                r.call("context", 1 << 30, [&] { ctx->poll(); });
                if (!r.threw && !was && !r.q.stopped && !r.q.tasks.empty()) c.fail("the context ran, but tasks are left:" + r.trace);
                break;
            }
            case 5:
                r.stop();
                if (!scheds.empty() && !scheds[0]->Stopped()) c.fail("the scheduler reports that it is not stopped:" + r.trace);
                break;
            case 6:
                if (scheds.size() < 3) { scheds.push_back(std::make_unique<Sched>(*ctx)); ++made; refresh(); r.trace += " NEW"; }
                break;
            default: // schedulers go, their tasks and the context stay
                if (!scheds.empty()) { scheds.erase(scheds.begin() + static_cast<long>(s.draw(scheds.size()))); refresh(); r.trace += " GONE"; }
                break;
        }
        for (auto& x : scheds)
            if (&x->AsioContext() != ctx.get()) c.fail("a scheduler uses another context");
    }
    const bool leave = s.coin();
    if (leave) { scheds.clear(); refresh(); r.trace += " ALL GONE"; }
    // what was posted is still there
    for (int k = 0; k < 100 && !c.failed() && (r.ids == 0 || !r.q.tasks.empty()); ++k)
    {
        restart();
        r.call("context", 1 << 30, [&] { ctx->poll(); });
        if (r.ids == 0) break;
    }
    if (!c.failed() && !r.q.tasks.empty()) c.fail("tasks are lost:" + r.trace);
    scheds.clear();
    guard.reset();
    ctx.reset();
    if (r.live) c.fail(std::to_string(r.live) + " tasks are still held:" + r.trace);
    c.note(r.trace);
    if (r.ran.size() > 3) c.nontrivial();
    if (made > 1) c.label("several schedulers on a context");
}
#endif

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C18";
    su.rule = "random histories of posting, executing one, polling one, running and stopping, with tasks that post, stop, throw or poll, on the scheduler that owns its context and (Asio) on one to three schedulers that "
              "share a context of the caller, which also uses it directly; each task checks, when it runs, that it is the oldest one of a reference queue and runs where it may. Up to a million tasks waiting at once. Non-trivial: more than three tasks ran.";
    su.props = {
        {"owning", owning, 150000, 2500000, 0, 10},
        {"long-queue", longQueue, 16, 300, 0, 60},
#ifndef VARIANT_LOOP
        {"borrowing", borrowing, 150000, 2500000, 0, 10},
#endif
    };
    return su;
}
