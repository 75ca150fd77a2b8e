// C24 The asynchronous stdin session executes every input line once, in order
#include "app.h"

#ifdef VARIANT_STANDALONE
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasiocliasyncsession.h>
#else
#include <cli/boostasioscheduler.h>
#include <cli/boostasiocliasyncsession.h>
#endif

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <mutex>
#include <set>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <termios.h>
#include <thread>
#include <unistd.h>

using namespace vf;
using app::App;
using app::collect;
using app::genLine;
using app::genNode;
using app::Node;
using Clock = std::chrono::steady_clock;

namespace
{

namespace asiolib = cli::detail::asiolib;
#ifdef VARIANT_STANDALONE
using Sched = cli::StandaloneAsioScheduler;
using Session = cli::StandaloneAsioCliAsyncSession;
#else
using Sched = cli::BoostAsioScheduler;
using Session = cli::BoostAsioCliAsyncSession;
#endif
using Context = Sched::ContextType;

struct Output : std::streambuf
{
    int overflow(int ch) override { add(std::string(1, static_cast<char>(ch))); return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { add(std::string(p, static_cast<std::size_t>(n))); return n; }
    void add(const std::string& t) { std::lock_guard<std::mutex> l(m); text += t; }
    std::string get() { std::lock_guard<std::mutex> l(m); return text; }
    std::size_t size() { std::lock_guard<std::mutex> l(m); return text.size(); }
    std::mutex m;
    std::string text;
};

// standard input, and what std::cout writes
struct Stdio
{
    enum Kind { pipe, pair, terminal, file };
    Stdio(Kind k, const std::string& dir, const std::string& content) : kind(k)
    {
        saved = fcntl(0, F_DUPFD_CLOEXEC, 100);
        int p[2] = {-1, -1};
        if (kind == pipe) { if (pipe2(p, O_CLOEXEC)) return; our = p[0]; their = p[1]; }
        else if (kind == pair) { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) return; our = p[0]; their = p[1]; }
        else if (kind == terminal)
        {
            their = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
            char name[100];
            if (their < 0 || grantpt(their) || unlockpt(their) || ptsname_r(their, name, sizeof name)) return;
            our = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
            if (our < 0) return;
        }
        else
        {
            auto name = dir + "/in.txt";
            int f = open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            if (f < 0 || ::write(f, content.data(), content.size()) != static_cast<ssize_t>(content.size())) return;
            lseek(f, 0, SEEK_SET);
            unlink(name.c_str());
            our = f;
        }
        if (their >= 0) fcntl(their, F_SETFL, O_NONBLOCK);
        ok = dup2(our, 0) == 0;
        old = std::cout.rdbuf(&out);
        std::cout.clear();
    }
    ~Stdio()
    {
        if (old) std::cout.rdbuf(old);
        if (saved >= 0) { dup2(saved, 0); ::close(saved); }
        end();
        if (our >= 0) ::close(our);
    }
    Stdio(const Stdio&) = delete;
    Stdio& operator=(const Stdio&) = delete;
    void end() { if (their >= 0) ::close(their); their = -1; }
    void drain()
    {
        char b[4096];
        if (kind == terminal && their >= 0) while (::read(their, b, sizeof b) > 0) {}
    }
    // how much was taken
    std::size_t write(const char* p, std::size_t n)
    {
        drain();
        const auto r = ::write(their, p, n);
        return r > 0 ? static_cast<std::size_t>(r) : 0;
    }
    Kind kind;
    int our = -1, their = -1, saved = -1;
    bool ok = false;
    Output out;
    std::streambuf* old = nullptr;
};

// the lines and what they do
struct Plan
{
    std::string input, want, wantLog, rest; // rest: after the last newline
    std::vector<std::size_t> ends;          // where each line ends in the input
    std::vector<std::size_t> shown;         // how much is shown after each line
    std::vector<std::size_t> logged;
};

Plan genPlan(Ctx& c, const Node& tree, const std::vector<std::string>& stored, Stdio::Kind kind)
{
    auto& s = c.src;
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    std::string tt;
    for (auto& p : all) tt += p.first + (p.second->menu ? "/" : ":" + std::to_string(p.second->kind)) + ", ";
    c.note("tree: " + tt);
    Plan p;
    App ref(tree, stored);
    std::ostringstream out;
    cli::CliSession session(*ref.cli, out, 1);
    session.Enter();
    session.Prompt();
    p.shown.push_back(out.str().size());
    p.logged.push_back(0);
    p.ends.push_back(0);
    std::string t;
    const auto n = s.size(s.chance(1, 20) ? 300 : 20);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        auto l = genLine(s, all);
        if (l == "exit" || l.find("exit") != std::string::npos) l = "";
        switch (s.draw(12))
        {
            case 0: l += " " + std::string(s.size(kind == Stdio::terminal ? 300 : 3000), static_cast<char>('a' + s.draw(26))); break;
            case 1: if (kind != Stdio::terminal && s.chance(1, 3)) { l += " "; for (auto k = s.draw(70000); k > 0; --k) l += static_cast<char>('a' + k % 26); c.label("long lines"); } break;
            case 2: if (kind != Stdio::terminal) l += static_cast<char>(s.draw(256)); break;
            default: break;
        }
        if (l.find('\n') != std::string::npos) l = "";
        if (kind != Stdio::terminal && i == 0 && s.chance(1, 700))
        {
            // megabytes
            l = "nothing " + std::string(static_cast<std::size_t>(900000 + s.draw(3000000)), static_cast<char>('a' + s.draw(26)));
            c.label("lines of megabytes");
        }
        t += quote(l, 80) + " ";
        p.input += l + "\n";
        session.Feed(l);
        session.Prompt();
        p.ends.push_back(p.input.size());
        p.shown.push_back(out.str().size());
        p.logged.push_back(ref.log.size());
    }
    if (s.chance(1, 4)) p.rest = genLine(s, all);
    if (p.rest == "exit") p.rest = "";
    c.note(t + (p.rest.empty() ? "" : "and " + quote(p.rest)));
    p.want = out.str();
    p.wantLog = ref.log;
    return p;
}

std::string different(const std::string& got, const std::string& want)
{
    std::size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    return "after " + std::to_string(k) + " bytes shown " + quote(got.substr(k), 300) + "\nexpected " + quote(want.substr(k), 300);
}

void asyncSession(Ctx& c)
{
    auto& s = c.src;
    int budget = 10;
    const auto tree = genNode(s, 0, budget);
    std::vector<std::string> stored;
    const auto kind = static_cast<Stdio::Kind>(s.weighted({10, 5, 4, 3}));
    auto plan = genPlan(c, tree, stored, kind);
    char dir[] = "c24-XXXXXX";
    std::string folder = ".";
    if (kind == Stdio::file) { if (!mkdtemp(dir)) { c.inconclusive("no folder"); return; } folder = dir; }
    Stdio io(kind, folder, plan.input + plan.rest);
    if (kind == Stdio::file) rmdir(dir);
    if (!io.ok) { c.inconclusive("no input"); return; }
    static const char* kinds[] = {"pipe", "socket pair", "terminal", "file"};
    std::string text = kinds[kind];
    App real(tree, stored);
    std::unique_ptr<Context> context;
    std::unique_ptr<Sched> sched;
    if (s.chance(1, 4)) { context = std::make_unique<Context>(); sched = std::make_unique<Sched>(*context); text += ", own context"; }
    else sched = std::make_unique<Sched>();
    auto session = std::make_unique<Session>(*sched, *real.cli);
    VF_REQUIRE(c, io.out.get() == plan.want.substr(0, plan.shown[0]), "at first: " << different(io.out.get(), plan.want.substr(0, plan.shown[0])));
    VF_REQUIRE(c, real.log.empty(), "a line is executed by the constructor");
    std::string escaped;
    auto& ctx = sched->AsioContext();
    if (context) ctx.restart(); // nothing has run yet
    auto one = [&]
    {
        try
        {
            if (ctx.stopped()) ctx.restart(); // a context without work of its own stops when it has nothing to do
            return ctx.poll_one() > 0;
        }
        catch (const std::exception& e) { escaped = e.what(); }
        catch (...) { escaped = "?"; }
        return true;
    };
    auto pump = [&] { for (int idle = 0; idle < 2;) idle = one() ? 0 : idle + 1; };
    // the output must be that after some number of lines that have been written
    std::size_t written = kind == Stdio::file ? plan.input.size() : 0;
    bool ended = kind == Stdio::file, destroyed = false;
    int tasks = 0, tasksRun = 0;
    auto lines = [&](std::size_t bytes) { return static_cast<std::size_t>(std::upper_bound(plan.ends.begin(), plan.ends.end(), bytes) - plan.ends.begin()) - 1; };
    auto state = [&](bool settled) -> std::string
    {
        if (!escaped.empty()) return "an exception leaves the context: " + escaped;
        auto g = io.out.get();
        auto log = real.log;
        const auto full = lines(written);
        if (settled)
            // timers can take their time
            for (const auto e = Clock::now() + std::chrono::seconds(5); tasksRun < tasks && Clock::now() < e;)
            {
                std::this_thread::sleep_for(std::chrono::microseconds(50));
                pump();
                g = io.out.get();
                log = real.log;
            }
        if (settled && !destroyed)
        {
            // pseudo terminals deliver with a delay
            const auto e = Clock::now() + std::chrono::seconds(5);
            while (kind == Stdio::terminal && g.size() < plan.shown[full] && Clock::now() < e)
            {
                io.drain();
                std::this_thread::sleep_for(std::chrono::microseconds(50));
                pump();
                g = io.out.get();
            }
            log = real.log;
            const auto w = plan.want.substr(0, plan.shown[full]);
            const bool tail = ended && !plan.rest.empty() && full + 1 == plan.ends.size(); // an unterminated line is not judged
            if (tail ? g.compare(0, w.size(), w) != 0 : g != w) return different(g, w);
            const auto wl = plan.wantLog.substr(0, plan.logged[full]);
            if (tail ? log.compare(0, wl.size(), wl) != 0 : log != wl) return "handlers called: " + quote(log, 2000) + "\nexpected " + quote(wl, 2000);
            if (tasksRun != tasks) return "of " + std::to_string(tasks) + " tasks " + std::to_string(tasksRun) + " have run";
            return "";
        }
        for (std::size_t i = 0; i <= full; ++i)
            if (g.size() == plan.shown[i] && log.size() == plan.logged[i] && plan.want.compare(0, g.size(), g) == 0 && plan.wantLog.compare(0, log.size(), log) == 0) return "";
        if (ended && !plan.rest.empty()) return "";
        return different(g, plan.want.substr(0, plan.shown[full])) + "\nhandlers called: " + quote(log, 2000);
    };
    const auto steps = 2 + s.size(30);
    const auto all = plan.input + plan.rest;
    std::size_t at = kind == Stdio::file ? all.size() : 0;
    std::string p;
    const bool willDestroy = s.chance(1, 3);
    const auto destroyAt = s.draw(steps);
    const auto pace = all.size() > 500000 ? 0 : all.size() > 3000 ? s.draw(2) * 3 : s.draw(4);
    for (std::size_t i = 0; p.empty() && !destroyed && (i < steps || (!willDestroy && at < all.size())); ++i)
    {
        Span sp(s);
        if (willDestroy && i == destroyAt)
        {
            const auto before = io.out.get();
            const auto how = s.draw(3);
            text += how == 0 ? " destroyed by a task" : " destroyed";
            c.label("destroyed");
            if (how == 0) { bool done = false; sched->Post([&] { session.reset(); done = true; }); for (int k = 0; k < 100000 && !done; ++k) one(); }
            else session.reset();
            destroyed = true;
            const auto g = io.out.size();
            const auto l = real.log.size();
            // what is in the input now is for others to read
            auto available = [&] { int n = 0; ioctl(0, FIONREAD, &n); return static_cast<std::size_t>(n); };
            auto left = available();
            if (io.their >= 0 && at < all.size() && s.coin())
            {
                const auto k = io.write(all.data() + at, all.size() - at);
                at += k;
                left += k;
                written = std::min(at, plan.input.size());
            }
            if (s.coin()) io.end();
            for (int k = 0; k < 3; ++k) { ++tasks; sched->Post([&] { ++tasksRun; }); }
            pump();
            p = state(true);
            if (p.empty() && (io.out.size() != g || real.log.size() != l)) p = "lines are executed after the destruction of the session";
            if (p.empty() && tasksRun != tasks) p = "of " + std::to_string(tasks) + " tasks " + std::to_string(tasksRun) + " have run after the destruction";
            if (p.empty() && kind != Stdio::terminal && available() != left) p = "of " + std::to_string(left) + " bytes of input only " + std::to_string(available()) + " are left some time after the destruction of the session";
            break;
        }
        switch (s.weighted({30, 10, 10, 12}))
        {
            case 0:
                if (!ended && at < all.size())
                {
                    const auto before = io.out.size();
                    auto k = pace == 0 ? all.size() : pace == 1 ? 1 + s.draw(3) : 1 + s.draw(pace == 2 ? 60 : 5000);
                    k = std::min<std::size_t>(k, all.size() - at);
                    if (kind == Stdio::terminal) k = std::min<std::size_t>(k, 500); // its buffer is small
                    const auto n = io.write(all.data() + at, k);
                    text += " " + std::to_string(n);
                    at += n;
                    written = std::min(at, plan.input.size());
                    if (n < k || kind == Stdio::terminal) { pump(); if (kind == Stdio::terminal) p = state(true); }
                    else if (io.out.size() != before) p = "something happens before the context runs";
                }
                break;
            case 1:
                text += " task";
                ++tasks;
                if (s.coin()) sched->Post([&] { ++tasksRun; });
                else
                {
                    auto timer = std::make_shared<asiolib::steady_timer>(ctx);
                    timer->expires_after(std::chrono::microseconds(0));
                    timer->async_wait([&, timer](const auto&) { ++tasksRun; });
                    std::this_thread::sleep_for(std::chrono::microseconds(20));
                }
                break;
            case 2: text += " one"; one(); p = state(false); break;
            default: text += " run"; pump(); p = state(true); break;
        }
    }
    if (p.empty() && !destroyed)
    {
        pump();
        p = state(true);
        if (s.coin() && p.empty() && kind != Stdio::terminal)
        {
            text += " end";
            c.label("end of input");
            io.end();
            ended = true;
            pump();
            p = state(true);
            for (int k = 0; k < 3 && p.empty(); ++k)
            {
                // the context goes on
                ++tasks;
                sched->Post([&] { ++tasksRun; });
                if (context == nullptr && ctx.stopped()) p = "the context was stopped by the end of the input";
                pump();
                if (p.empty()) p = state(true);
            }
        }
        if (s.coin()) { session.reset(); pump(); }
    }
    c.note(text);
    VF_REQUIRE(c, p.empty(), p);
    if (plan.ends.size() > 3) c.nontrivial();
}

// the context runs in its own thread
void running(Ctx& c)
{
    auto& s = c.src;
    int budget = 8;
    const auto tree = genNode(s, 0, budget);
    const auto kind = s.coin() ? Stdio::pipe : Stdio::pair;
    auto plan = genPlan(c, tree, {}, kind);
    Stdio io(kind, ".", "");
    if (!io.ok) { c.inconclusive("no input"); return; }
    App real(tree, {});
    std::string text, p, escaped;
    std::atomic<bool> returned{false};
    {
        Sched sched;
        auto session = std::make_unique<Session>(sched, *real.cli);
        std::thread runner([&]
        {
            try { sched.Run(); }
            catch (const std::exception& e) { escaped = e.what(); }
            catch (...) { escaped = "?"; }
            returned = true;
        });
        struct End { Sched& x; std::thread& t; ~End() { x.Stop(); if (t.joinable()) t.join(); } } end{sched, runner};
        auto until = [&](auto f)
        {
            const auto e = Clock::now() + std::chrono::seconds(6);
            for (int i = 0; !f(); ++i)
            {
                if (Clock::now() > e) return false;
                std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 300));
            }
            return true;
        };
        const auto all = plan.input + plan.rest;
        const bool early = s.chance(1, 4);
        const auto stopAt = early ? s.draw(all.size() + 1) : all.size();
        const auto pace = s.draw(3);
        std::atomic<int> tasks{0};
        int posted = 0;
        for (std::size_t at = 0; at < stopAt;)
        {
            auto k = std::min<std::size_t>(pace == 0 ? stopAt : 1 + s.draw(pace == 1 ? 20 : 4000), stopAt - at);
            const auto n = io.write(all.data() + at, k);
            at += n;
            if (n == 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
            if (s.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(200)));
            if (s.chance(1, 20)) { ++posted; sched.Post([&] { ++tasks; }); }
        }
        const auto atEnd = s.draw(3);
        if (early)
        {
            text = "destroyed by a task after " + std::to_string(stopAt) + " bytes";
            std::atomic<bool> done{false};
            sched.Post([&] { session.reset(); done = true; });
            if (!until([&] { return done.load(); })) p = "a task does not run";
            const auto g = io.out.get();
            if (s.coin()) io.write(all.data() + stopAt, all.size() - stopAt);
            if (s.coin()) io.end();
            for (int i = 0; i < 3; ++i) { ++posted; sched.Post([&] { ++tasks; }); }
            if (p.empty() && !until([&] { return tasks == posted; })) p = "tasks do not run after the destruction of the session";
            if (p.empty() && io.out.get() != g) p = "something is shown after the destruction of the session";
            bool prefix = false;
            for (auto n : plan.shown) prefix = prefix || (g.size() == n && plan.want.compare(0, n, g) == 0);
            if (p.empty() && !prefix) p = different(g, plan.want);
        }
        else
        {
            text = atEnd == 0 ? "end of input" : "no end";
            if (atEnd == 0) io.end();
            until([&] { return io.out.size() >= plan.want.size(); });
            ++posted;
            sched.Post([&] { ++tasks; });
            if (!until([&] { return tasks == posted; })) p = "tasks do not run after the end of the input";
            auto g = io.out.get();
            const bool tail = atEnd == 0 && !plan.rest.empty();
            if (p.empty() && (tail ? g.compare(0, plan.want.size(), plan.want) != 0 : g != plan.want)) p = different(g, plan.want);
            if (p.empty() && returned) p = "the loop ends with the input";
            sched.Stop();
            runner.join();
            if (p.empty() && (tail ? real.log.compare(0, plan.wantLog.size(), plan.wantLog) != 0 : real.log != plan.wantLog)) p = "handlers called: " + quote(real.log, 2000) + "\nexpected " + quote(plan.wantLog, 2000);
            if (s.coin()) session.reset();
        }
        if (p.empty() && !escaped.empty()) p = "an exception leaves the context: " + escaped;
    }
    c.note(text);
    VF_REQUIRE(c, p.empty(), p);
    if (plan.ends.size() > 3) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C24";
    su.rule = "random menu trees and lines, also of 70000 characters, given to the standard input (pipe, socket pair, terminal, file) in random pieces between single steps and full runs of the context and other tasks, with the end "
              "of the input and the destruction of the session at any point; also with the context running in another thread. Compared with a session that is given the lines. Non-trivial: three lines.";
    su.resetGlobals = [] { signal(SIGPIPE, SIG_IGN); world::resetLibraryState(); };
    su.props = {
        {"stepwise", asyncSession, 24000, 150000, 2, 30},
        {"running", running, 8000, 80000, 4, 30},
    };
    return su;
}
