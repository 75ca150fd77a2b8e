// C23 The local terminal session handles real key bytes and terminal modes
#include "app.h"

#include <cli/boostasioscheduler.h>
#include <cli/clilocalsession.h>
#include <cli/loopscheduler.h>

#include <atomic>
#include <chrono>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <poll.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <termios.h>
#include <thread>
#include <unistd.h>

using namespace vf;
using app::App;
using app::collect;
using app::genLine;
using app::genNode;
using app::Node;
using cli::detail::KeyType;
using editor::Keys;
using editor::Queue;
using Clock = std::chrono::steady_clock;

namespace
{

using K = std::pair<KeyType, char>;

template <class F> bool until(F f, double seconds = 6)
{
    const auto e = Clock::now() + std::chrono::duration<double>(seconds);
    for (int i = 0;; ++i)
    {
        if (f()) return true;
        if (Clock::now() > e) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 300));
    }
}

std::set<int> threads()
{
    std::set<int> r;
    if (auto* d = opendir("/proc/self/task"))
    {
        while (auto* e = readdir(d)) if (e->d_name[0] != '.') r.insert(atoi(e->d_name));
        closedir(d);
    }
    return r;
}

// what standard input is
struct Input
{
    enum Kind { terminal, pipe };
    explicit Input(Kind k, Src& s) : kind(k)
    {
        saved = fcntl(0, F_DUPFD_CLOEXEC, 100);
        if (kind == terminal)
        {
            their = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
            if (their < 0 || grantpt(their) || unlockpt(their)) return;
            char name[100];
            if (ptsname_r(their, name, sizeof name)) return;
            our = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
            if (our < 0) return;
            fcntl(their, F_SETFL, O_NONBLOCK);
            // any original mode
            termios m;
            tcgetattr(our, &m);
            if (s.chance(1, 3))
            {
                if (s.coin()) m.c_lflag ^= ISIG;
                if (s.coin()) m.c_lflag ^= ECHOE;
                if (s.coin()) m.c_lflag ^= ECHOK;
                if (s.chance(1, 3)) m.c_lflag &= ~static_cast<tcflag_t>(ECHO);
                if (s.coin()) m.c_lflag ^= NOFLSH;
                if (s.coin()) m.c_iflag ^= IXANY;
                if (s.coin()) m.c_oflag ^= ONLCR;
                if (s.coin()) m.c_cc[VKILL] = 24;
                if (s.chance(1, 3)) m.c_iflag &= ~static_cast<tcflag_t>(ICRNL);
                if (s.chance(1, 4)) m.c_iflag = 0;
                if (s.chance(1, 6)) m.c_oflag = 0;
                if (s.chance(1, 6)) m.c_lflag &= ~static_cast<tcflag_t>(ICANON);
                if (s.chance(1, 20)) m.c_lflag = 0;
                tcsetattr(our, TCSANOW, &m);
            }
            tcgetattr(our, &original);
        }
        else
        {
            int p[2];
            if (pipe2(p, O_CLOEXEC)) return;
            our = p[0];
            their = p[1];
            fcntl(their, F_SETFL, O_NONBLOCK);
        }
        ok = dup2(our, 0) == 0;
    }
    ~Input()
    {
        if (saved >= 0) { dup2(saved, 0); ::close(saved); }
        hangup();
        if (our >= 0) ::close(our);
    }
    Input(const Input&) = delete;
    Input& operator=(const Input&) = delete;
    void hangup()
    {
        if (their >= 0) ::close(their);
        their = -1;
    }
    // what the terminal echoes goes nowhere
    void drain()
    {
        char b[4096];
        if (kind == terminal && their >= 0) while (::read(their, b, sizeof b) > 0) {}
    }
    bool type(const std::string& t)
    {
        std::size_t at = 0;
        const auto e = Clock::now() + std::chrono::seconds(5);
        while (at < t.size())
        {
            drain();
            auto n = ::write(their, t.data() + at, t.size() - at);
            if (n > 0) { at += static_cast<std::size_t>(n); continue; }
            if (Clock::now() > e) return false;
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
        return true;
    }
    termios mode() const
    {
        termios m{};
        tcgetattr(our, &m);
        return m;
    }
    static bool same(const termios& a, const termios& b)
    {
        return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && memcmp(a.c_cc, b.c_cc, sizeof a.c_cc) == 0;
    }
    bool normal() const { return kind != terminal || same(mode(), original); }
    // unbuffered and unechoed, all else as it was
    bool forKeys() const
    {
        if (kind != terminal) return true;
        auto m = mode();
        if (m.c_lflag & (ICANON | ECHO)) return false;
        m.c_lflag |= original.c_lflag & (ICANON | ECHO);
        return same(m, original);
    }
    std::string modeText() const
    {
        const auto m = mode();
        auto t = std::string(m.c_lflag & ICANON ? "buffered" : "unbuffered") + (m.c_lflag & ECHO ? ", echoed" : ", not echoed");
        auto x = m;
        x.c_lflag = (x.c_lflag & ~static_cast<tcflag_t>(ICANON | ECHO)) | (original.c_lflag & (ICANON | ECHO));
        return t + (same(x, original) ? "" : ", other settings changed");
    }
    Kind kind;
    int our = -1, their = -1, saved = -1;
    bool ok = false;
    bool crIsEnter() const { return kind == terminal && (original.c_iflag & ICRNL) && !(original.c_iflag & (IGNCR | INLCR)); }
    bool lines() const { return kind == terminal && (original.c_lflag & ICANON); } // the terminal edits lines while a command runs
    termios original{};
};

// an output that can be looked at from another thread; remembers which threads write
struct Output : std::streambuf
{
    int overflow(int ch) override { add(std::string(1, static_cast<char>(ch))); return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { add(std::string(p, static_cast<std::size_t>(n))); return n; }
    void add(const std::string& t)
    {
        std::lock_guard<std::mutex> l(m);
        text += t;
        writers.insert(std::this_thread::get_id());
    }
    std::string get() { std::lock_guard<std::mutex> l(m); return text; }
    std::set<std::thread::id> who() { std::lock_guard<std::mutex> l(m); return writers; }
    void forget() { std::lock_guard<std::mutex> l(m); writers.clear(); }
    std::mutex m;
    std::string text;
    std::set<std::thread::id> writers;
};

// a scheduler run by hand
struct Manual : cli::Scheduler
{
    void Post(const std::function<void()>& f) override
    {
        std::lock_guard<std::mutex> l(m);
        q.push_back(f);
        ++posts;
    }
    bool one()
    {
        std::function<void()> f;
        {
            std::lock_guard<std::mutex> l(m);
            if (q.empty()) return false;
            f = q.front();
            q.pop_front();
        }
        f();
        return true;
    }
    std::size_t posted() { std::lock_guard<std::mutex> l(m); return posts; }
    std::mutex m;
    std::deque<std::function<void()>> q;
    std::size_t posts = 0;
};

std::string bytesOf(Src& s, const K& k, bool crIsEnter)
{
    switch (k.first)
    {
        case KeyType::ascii: return std::string(1, k.second);
        case KeyType::ret: return crIsEnter && s.coin() ? "\r" : "\n"; // the terminal may map CR to NL
        case KeyType::backspace: return s.coin() ? "\x7f" : "\x08";
        case KeyType::canc: return "\x1b[3~";
        case KeyType::up: return "\x1b[A";
        case KeyType::down: return "\x1b[B";
        case KeyType::right: return "\x1b[C";
        case KeyType::left: return "\x1b[D";
        case KeyType::home: return "\x1b[H";
        case KeyType::end: return "\x1b[F";
        case KeyType::clear: return "\x0c";
        case KeyType::eof: return "\x04";
        case KeyType::ignored: // a sequence that is no key
        {
            auto ch = static_cast<char>(32 + s.draw(95));
            return std::string("\x1b") + (ch == '[' || ch == 'O' ? '\x1b' : ch);
        }
        default: return "";
    }
}

// keys that the terminal itself acts upon while a command runs
bool sensitive(const K& k) { return k.first == KeyType::backspace || k.first == KeyType::eof; }

std::vector<K> genKeys(Ctx& c, const std::vector<std::pair<std::string, const Node*>>& all, std::size_t max)
{
    auto& s = c.src;
    std::vector<K> keys;
    std::string t;
    const auto n = s.size(max);
    for (std::size_t j = 0; j < n; ++j)
    {
        Span sp(s);
        switch (s.draw(6))
        {
            case 0: case 1: case 2:
            {
                auto l = genLine(s, all);
                if (s.chance(1, 10)) l += static_cast<char>(128 + s.draw(127));
                t += quote(l);
                for (char ch : l) keys.emplace_back(KeyType::ascii, ch);
                if (s.chance(3, 4)) { t += " ENTER "; keys.emplace_back(KeyType::ret, ' '); }
                break;
            }
            case 3: t += " TAB "; keys.emplace_back(KeyType::ascii, '\t'); break;
            case 4: { const auto ch = static_cast<char>(32 + s.draw(95)); t += ch; keys.emplace_back(KeyType::ascii, ch); break; }
            default:
            {
                static const std::vector<KeyType> ks = {KeyType::up, KeyType::down, KeyType::left, KeyType::left, KeyType::right, KeyType::backspace, KeyType::canc, KeyType::home,
                    KeyType::end, KeyType::ret, KeyType::clear, KeyType::ignored};
                K k{s.pick(ks), ' '};
                t += " " + editor::Key{k.first, k.second}.text() + " ";
                keys.push_back(k);
                break;
            }
        }
    }
    if (s.chance(1, 6)) { keys.emplace_back(KeyType::eof, ' '); t += " EOT"; }
    c.note(t);
    return keys;
}

// what a command that reads the input itself is given
struct Question
{
    bool asks = false;
    std::string typed, answer;
};

Question genQuestion(Src& s, bool tty)
{
    Question q;
    q.asks = s.chance(2, 3);
    if (!q.asks) return q;
    for (auto k = s.size(60); k > 0; --k)
    {
        if (tty && s.chance(1, 8) && !q.answer.empty()) { q.typed += '\x7f'; q.answer.pop_back(); continue; }
        const auto ch = static_cast<char>(32 + s.draw(95));
        q.typed += ch;
        q.answer += ch;
    }
    return q;
}

std::string readLine()
{
    std::string r;
    for (;;)
    {
        char ch = 0;
        const auto n = ::read(0, &ch, 1);
        if (n < 0 && errno == EINTR) continue;
        if (n != 1) return r + "(end)";
        if (ch == '\n') return r;
        r += ch;
    }
}

enum Loop { manual, loop, boost };

// one session in the real thing
struct Setup
{
    Setup(const Node& tree, const std::vector<std::string>& stored, Loop l, std::size_t history, Output& o) : kind(l), app(tree, stored), out(o), stream(&o)
    {
        before = threads();
        if (kind == Loop::manual) sched = std::make_unique<Manual>();
        else if (kind == Loop::loop) sched = std::make_unique<cli::LoopScheduler>();
        else sched = std::make_unique<cli::BoostAsioScheduler>();
        session = std::make_unique<cli::CliLocalTerminalSession>(*app.cli, *sched, stream, history);
        session->ExitAction([this](std::ostream&) { ++exits; });
        for (int t : threads()) if (!before.count(t)) keyboardThreads.push_back(t);
        runner = std::this_thread::get_id();
    }
    void run()
    {
        if (kind == Loop::manual || running) return;
        running = true;
        runnerThread = std::thread([this]
        {
            runner = std::this_thread::get_id();
            if (auto* l = dynamic_cast<cli::LoopScheduler*>(sched.get())) l->Run();
            else dynamic_cast<cli::BoostAsioScheduler*>(sched.get())->Run();
        });
    }
    void halt()
    {
        if (!running) return;
        if (auto* l = dynamic_cast<cli::LoopScheduler*>(sched.get())) l->Stop();
        else dynamic_cast<cli::BoostAsioScheduler*>(sched.get())->Stop();
        runnerThread.join();
        running = false;
    }
    void work() { if (kind == Loop::manual) while (dynamic_cast<Manual&>(*sched).one()) {} }
    ~Setup() { halt(); }
    Loop kind;
    App app;
    Output& out;
    std::ostream stream;
    std::unique_ptr<cli::Scheduler> sched;
    std::unique_ptr<cli::CliLocalTerminalSession> session;
    std::atomic<int> exits{0};
    std::set<int> before;
    std::vector<int> keyboardThreads;
    std::thread runnerThread;
    std::thread::id runner;
    bool running = false;
};

void typing(Ctx& c, Input::Kind kind)
{
    auto& s = c.src;
    const bool tty = kind == Input::terminal;
    int budget = 10;
    auto tree = genNode(s, 0, budget);
    {
        Node n; // at least one command that looks at the input
        n.name = "ask";
        n.kind = 5;
        tree.kids.push_back(n);
    }
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    std::string tt;
    for (auto& p : all) tt += p.first + (p.second->menu ? "/" : ":" + std::to_string(p.second->kind)) + ", ";
    c.note("tree: " + tt);
    std::vector<std::string> stored;
    for (std::uint64_t i = 0, n = s.draw(3); i < n; ++i) stored.push_back(genLine(s, all));
    const auto history = s.coin() ? 100 : static_cast<std::size_t>(s.draw(4));
    auto ks = genKeys(c, all, !tty && s.chance(1, 20) ? 300 : s.chance(1, 10) ? 60 : 14);
    ks.emplace_back(KeyType::ascii, 'Z'); // something that can be seen
    std::vector<Question> questions;
    std::string text;
    Input input(kind, s);
    if (!input.ok) { c.inconclusive("no terminal"); return; }
    if (tty) text += "terminal " + std::to_string(input.original.c_iflag) + " " + std::to_string(input.original.c_oflag) + " " + std::to_string(input.original.c_lflag) + " ";
    for (int i = 0; i < 8; ++i) questions.push_back(genQuestion(s, input.lines()));

    // what must happen
    struct State { std::size_t shown; bool over; std::size_t asked; };
    std::vector<State> states;
    std::string want, wantLog;
    {
        App ref(tree, stored);
        std::ostringstream out;
        Queue q;
        bool over = false;
        std::size_t asked = 0;
        cli::CliSession session(*ref.cli, out, history);
        session.ExitAction([&](std::ostream&) { over = true; });
        ref.poked = [&] { if (questions[asked % 8].asks) ref.log += "(" + questions[asked % 8].answer + ")"; ++asked; };
        Keys dev(q);
        cli::detail::CommandProcessor<cli::detail::LocalScreen> processor(session, dev);
        session.Enter();
        session.Prompt();
        states.push_back({out.str().size(), false, 0});
        for (auto& k : ks)
        {
            if (over) break; // what follows the end of the session is not specified
            dev.press(k.first, k.second);
            q.drain();
            states.push_back({out.str().size(), over, asked});
        }
        want = out.str();
        wantLog = ref.log;
    }
    const auto used = states.size() - 1;

    const auto how = static_cast<Loop>(s.draw(3));
    Output out;
    std::string problem;
    std::atomic<std::size_t> asking{0};
    std::atomic<bool> wrongThread{false};
    std::string badMode;
    const auto threadsBefore = threads();
    {
        Setup real(tree, stored, how, history, out);
        std::size_t pokes = 0; // used by the runner only
        real.app.poked = [&]
        {
            if (std::this_thread::get_id() != real.runner) wrongThread = true;
            if (!input.normal()) badMode = input.modeText();
            const auto& q = questions[pokes % 8];
            ++pokes;
            if (q.asks) { asking = pokes; real.app.log += "(" + readLine() + ")"; }
        };
        if (out.get() != want.substr(0, states[0].shown)) problem = "at first " + quote(out.get()) + " is shown, expected " + quote(want.substr(0, states[0].shown));
        out.forget();
        // hangs are ended by a hangup
        struct End { Input& i; Setup& r; ~End() { if (r.running) { i.hangup(); r.halt(); } } } end{input, real};
        const bool early = s.chance(1, 4); // keys typed before the scheduler runs
        if (!early) real.run();
        text += how == manual ? "scheduler run by hand" : how == loop ? "LoopScheduler" : "BoostAsioScheduler";
        if (how == manual && !input.forKeys()) problem = "before any key the terminal is " + input.modeText();

        auto reached = [&](std::size_t i)
        {
            const auto w = want.substr(0, states[i].shown);
            const bool r = until([&]
            {
                input.drain();
                real.work();
                const auto g = out.get();
                return g.size() >= w.size() && (states[i].over ? real.exits > 0 : input.forKeys());
            });
            const auto g = out.get();
            if (g.compare(0, w.size(), w) != 0 || g.size() < w.size() || (g.size() > w.size() && !states[i].over))
                return "after " + std::to_string(i) + " keys the terminal shows " + quote(g.size() > 1500 ? g.substr(g.size() - 1500) : g, 3000) + "\nexpected " + quote(w.size() > 1500 ? w.substr(w.size() - 1500) : w, 3000);
            if (!r) return states[i].over ? std::string("the exit action did not run") : "waiting for keys the terminal is " + input.modeText();
            return std::string();
        };
        std::size_t at = 0, loose = 0; // bytes typed since the last time all was at rest
        bool entered = false;          // a line ended since then
        while (at < used && problem.empty())
        {
            Span sp(s);
            // a burst of keys
            std::string b;
            const auto size = s.draw(3) == 0 ? 1 : 1 + s.draw(25);
            bool asks = false;
            std::size_t n = 0;
            std::vector<std::size_t> cuts;
            for (; n < size && at < used && !asks; ++n)
            {
                const auto& k = ks[at];
                if (tty && entered && sensitive(k)) break;
                auto x = bytesOf(s, k, input.crIsEnter());
                b += x;
                if (k.first == KeyType::ret) entered = true;
                for (auto q = states[at].asked; q < states[at + 1].asked; ++q) asks = true; // one poke at most by key
                ++at;
            }
            text += " " + quote(b, 200);
            const auto pace = s.draw(5);
            for (std::size_t i = 0; i < b.size();)
            {
                auto k = pace == 0 ? b.size() : pace == 1 ? 1 : 1 + s.draw(7);
                k = std::min<std::size_t>(k, b.size() - i);
                if (!input.type(b.substr(i, k))) { problem = "the terminal takes no keys"; break; }
                i += k;
                if (pace > 2 && s.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(400)));
                if (s.chance(1, 60) && !real.keyboardThreads.empty())
                {
                    text += "(signal)";
                    c.label("signals");
                    for (int t : real.keyboardThreads) syscall(SYS_tgkill, getpid(), t, SIGUSR1);
                }
                if (how == manual && s.chance(1, 3) && !asks) real.work();
            }
            if (!problem.empty()) break;
            loose += b.size();
            if (asks)
            {
                real.run();
                const auto number = states[at].asked;
                const auto& q = questions[(number - 1) % 8];
                if (q.asks)
                {
                    text += " (answer " + quote(q.typed) + ")";
                    auto answer = [&]
                    {
                        if (!until([&] { input.drain(); return asking >= number; })) { problem = "command " + std::to_string(number) + " that reads the input is not called; shown " + quote(out.get()); input.hangup(); return; }
                        if (!input.normal()) problem = "while a command runs the terminal is " + input.modeText();
                        if (s.coin()) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(500)));
                        const auto t = q.typed + "\n";
                        for (std::size_t i = 0; i < t.size();)
                        {
                            auto k = std::min<std::size_t>(1 + s.draw(s.coin() ? 3 : 100), t.size() - i);
                            input.type(t.substr(i, k));
                            i += k;
                            if (s.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(300)));
                        }
                    };
                    if (how == manual)
                    {
                        std::thread user(answer);
                        until([&] { real.work(); return asking >= number; });
                        user.join();
                    }
                    else answer();
                    c.label("a command reads the input");
                }
                if (problem.empty()) problem = reached(at);
                loose = 0;
                entered = false;
                continue;
            }
            const bool must = n == 0 || (tty && loose > 600) || (at < used && tty && entered && sensitive(ks[at]));
            if (must || s.chance(1, 3))
            {
                real.run();
                problem = reached(at);
                loose = 0;
                entered = false;
            }
        }
        if (early && used > 0 && !real.running && problem.empty() && how != manual)
        {
            if (out.get() != want.substr(0, states[0].shown)) problem = "something happens before the scheduler runs";
        }
        real.run();
        if (problem.empty()) problem = reached(used);
        const bool over = states[used].over;

        // the end
        const auto ending = s.draw(4);
        if (problem.empty() && !over && ending == 0)
        {
            text += " hangup";
            c.label("hangup");
            input.hangup();
            if (!until([&] { real.work(); return real.exits > 0; })) problem = "the end of the input does not end the session";
            else if (how == manual)
            {
                auto& m = dynamic_cast<Manual&>(*real.sched);
                const auto posts = m.posted();
                std::this_thread::sleep_for(std::chrono::microseconds(s.draw(2000)));
                if (m.posted() != posts) problem = "the end of the input counts more than once";
            }
            want += "bye\n";
        }
        std::size_t logSize = 0;
        if (problem.empty() && !over && ending == 1 && how == manual)
        {
            // keys that nobody has handled yet
            text += " pending keys";
            c.label("keys pending at the destruction");
            auto& m = dynamic_cast<Manual&>(*real.sched);
            const auto posts = m.posted(), n = 1 + s.draw(20);
            std::string b;
            for (std::uint64_t i = 0; i < n; ++i) b += s.chance(1, 4) ? "\n" : "a";
            input.type(b);
            const auto some = 1 + s.draw(n);
            if (!until([&] { return m.posted() >= posts + some; })) problem = "keys are not seen";
        }
        logSize = real.app.log.size();
        if (problem.empty() && real.exits != (over || ending == 0 ? 1 : 0)) problem = "the exit action ran " + std::to_string(real.exits) + " times";
        if (ending == 2 && how != manual)
        {
            // destroyed by a task
            text += " destroyed by a task";
            std::atomic<bool> done{false};
            real.sched->Post([&] { real.session.reset(); done = true; });
            if (!until([&] { return done.load(); }) && problem.empty()) problem = "the destruction of the session does not end";
            real.halt();
        }
        else
        {
            real.halt();
            const auto t0 = Clock::now();
            real.session.reset();
            if (std::chrono::duration<double>(Clock::now() - t0).count() > 4 && problem.empty()) problem = "the destruction of the session takes seconds";
        }
        if (problem.empty() && input.their >= 0 && !input.normal()) problem = "after the destruction the terminal is " + input.modeText();
        if (how == manual) real.work();
        if (problem.empty() && real.app.log.size() != logSize) problem = "a command runs after the destruction: " + quote(real.app.log.substr(logSize));
        if (problem.empty() && !over && ending != 1)
            if (out.get() != want) problem = "in the end the terminal shows " + quote(out.get(), 3000) + "\nexpected " + quote(want, 3000);
        if (problem.empty() && real.app.log != wantLog) problem = "commands executed: " + quote(real.app.log, 2000) + "\nexpected " + quote(wantLog, 2000);
        if (problem.empty() && wrongThread) problem = "a command runs in another thread than the scheduler's";
        for (auto w : out.who())
            if (problem.empty() && w != real.runner) problem = "something is written by another thread than the scheduler's";
        if (problem.empty() && !badMode.empty()) problem = "while a command runs the terminal is " + badMode;
        // what is typed now belongs to others
        if (problem.empty() && !over && input.their >= 0 && ending >= 2)
        {
            input.type("later\n");
            pollfd p{input.our, POLLIN, 0};
            char b[100];
            std::string got;
            while (got.size() < 6 && ::poll(&p, 1, 3000) > 0)
            {
                auto n = ::read(input.our, b, sizeof b);
                if (n <= 0) break;
                got.append(b, static_cast<std::size_t>(n));
            }
            if (got != "later\n") problem = "what is typed after the destruction is read as " + quote(got);
        }
    }
    if (problem.empty() && !until([&] { auto now = threads(); return std::includes(threadsBefore.begin(), threadsBefore.end(), now.begin(), now.end()); }, 2)) problem = "a thread is left behind";
    c.note(text);
    VF_REQUIRE(c, problem.empty(), problem);
    if (used > 5) c.nontrivial();
}

// the device: bytes to keys, end of input, activation
void device(Ctx& c)
{
    auto& s = c.src;
    const auto kind = s.coin() ? Input::terminal : Input::pipe;
    const bool tty = kind == Input::terminal;
    Input input(kind, s);
    if (!input.ok) { c.inconclusive("no terminal"); return; }
    Manual sched;
    std::vector<K> got, want;
    std::string text;
    const auto before = threads();
    {
        auto kb = std::make_unique<cli::detail::Keyboard>(sched);
        kb->Register([&](K k) { got.push_back(k); });
        std::vector<int> mine;
        for (int t : threads()) if (!before.count(t)) mine.push_back(t);
        auto problem = [&]() -> std::string
        {
            auto name = [](const std::vector<K>& v) { std::string r; for (auto& k : v) r += editor::Key{k.first, k.second}.text() + " "; return r; };
            if (!until([&] { while (sched.one()) {} input.drain(); return got.size() >= want.size(); }, 5) || got.size() != want.size()) return "keys " + name(got) + "\nexpected " + name(want);
            for (std::size_t i = 0; i < want.size(); ++i)
                if (got[i].first != want[i].first || (want[i].first == KeyType::ascii && got[i].second != want[i].second)) return "keys " + name(got) + "\nexpected " + name(want);
            return "";
        };
        const auto n = s.chance(1, 120) ? 200 + s.draw(2000) : s.size(20);
        std::string p;
        std::size_t loose = 0; // bytes typed and perhaps not yet read
        for (std::size_t i = 0; i < n && p.empty(); ++i)
        {
            Span sp(s);
            switch (s.weighted({60, 8, 8, 8}))
            {
                case 0:
                {
                    std::string b;
                    for (auto k = 1 + s.draw(12); k > 0; --k)
                    {
                        static const std::vector<KeyType> ks = {KeyType::ascii, KeyType::up, KeyType::down, KeyType::left, KeyType::right, KeyType::backspace, KeyType::canc, KeyType::home,
                            KeyType::end, KeyType::ret, KeyType::clear, KeyType::eof};
                        const auto kt = s.coin() ? KeyType::ascii : s.pick(ks);
                        // no flow control and no signals
                        static const std::string odd = "\t\x01\x02\x05\x06\x07\x0b\x0e\x10\x14\x19";
                        K x{kt, ' '};
                        if (kt == KeyType::ascii) x.second = s.chance(1, 8) ? odd[s.draw(odd.size())] : s.chance(1, 8) ? static_cast<char>(128 + s.draw(127)) : static_cast<char>(32 + s.draw(95));
                        b += bytesOf(s, x, input.crIsEnter());
                        want.push_back(x);
                    }
                    text += " " + quote(b);
                    const auto pace = s.draw(3);
                    for (std::size_t j = 0; j < b.size();)
                    {
                        auto k = std::min<std::size_t>(pace == 0 ? b.size() : pace == 1 ? 1 : 1 + s.draw(5), b.size() - j);
                        input.type(b.substr(j, k));
                        j += k;
                        if (s.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(300)));
                    }
                    loose += b.size();
                    if (loose > 1000) { p = problem(); loose = 0; }
                    break;
                }
                case 1:
                    text += " (signal)";
                    for (int t : mine) syscall(SYS_tgkill, getpid(), t, SIGUSR1);
                    break;
                case 2: // while the device is not active its input is for others
                {
                    if (!(p = problem()).empty()) break;
                    loose = 0;
                    kb->DeactivateInput();
                    if (!input.normal()) { p = "not active, the terminal is " + input.modeText(); break; }
                    const auto k = 1 + s.draw(20);
                    const auto mineToo = std::string(k, 'x') + "\n";
                    text += " (not active: " + quote(mineToo) + ")";
                    input.type(mineToo);
                    if (s.coin()) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(1000)));
                    std::string r;
                    while (r.size() < mineToo.size())
                    {
                        pollfd f{input.our, POLLIN, 0};
                        char b[100];
                        if (::poll(&f, 1, 3000) <= 0) break;
                        const auto m = ::read(input.our, b, 1);
                        if (m <= 0) break;
                        r.append(b, static_cast<std::size_t>(m));
                    }
                    if (r != mineToo) { p = "while the device was not active " + quote(mineToo) + " was read as " + quote(r); break; }
                    if (s.chance(1, 4)) { text += " (destroyed)"; goto end; }
                    kb->ActivateInput();
                    if (!input.forKeys()) p = "active again, the terminal is " + input.modeText();
                    break;
                }
                default:
                    if (!(p = problem()).empty()) break;
                    loose = 0;
                    if (!input.forKeys()) p = "the terminal is " + input.modeText();
                    break;
            }
        }
        if (p.empty()) p = problem();
        if (p.empty() && s.coin())
        {
            const auto how = s.draw(5);
            if (how < 3)
            {
                text += " (end)";
                c.label("end of input");
                input.hangup();
            }
            else
            {
                // while the device is not active the standard input goes, or becomes something at its end
                text += how == 3 ? " (closed)" : " (replaced)";
                c.label(how == 3 ? "input closed" : "input replaced");
                kb->DeactivateInput();
                if (how == 3) ::close(0);
                else
                {
                    const auto fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
                    dup2(fd, 0);
                    ::close(fd);
                }
                kb->ActivateInput();
                input.type("\n"); // the device can be waiting for what was there before: this is for nobody
            }
            want.emplace_back(KeyType::eof, ' ');
            p = problem();
            std::this_thread::sleep_for(std::chrono::microseconds(s.draw(3000)));
            while (sched.one()) {}
            if (p.empty()) p = problem();
        }
        c.note(std::string(tty ? "terminal:" : "pipe:") + text);
        if (!p.empty()) { c.fail(p); input.hangup(); }
    end:
        const auto pendingFrom = got.size();
        if (input.their >= 0 && s.coin()) { input.type("pending"); if (s.coin()) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(300))); }
        const auto t0 = Clock::now();
        kb.reset();
        const auto took = std::chrono::duration<double>(Clock::now() - t0).count();
        if (took > 4) c.fail("the destruction takes seconds");
        while (sched.one()) {}
        if (got.size() != pendingFrom && !c.failed()) c.fail("keys arrive after the destruction");
    }
    if (!c.failed() && input.their >= 0 && !input.normal()) c.fail("after the destruction the terminal is " + input.modeText());
    if (want.size() > 5) c.nontrivial();
}

// sessions one after the other on one terminal, destroyed while somebody types
void oneAfterTheOther(Ctx& c)
{
    auto& s = c.src;
    Input input(s.chance(3, 4) ? Input::terminal : Input::pipe, s);
    if (!input.ok) { c.inconclusive("no terminal"); return; }
    auto root = std::make_unique<cli::Menu>("main");
    std::atomic<int> calls{0};
    root->Insert("a", [&](std::ostream& o) { ++calls; o << "A\n"; });
    cli::Cli app(std::move(root));
    std::atomic<bool> over{false};
    const auto speed = s.draw(300);
    const auto n = 1 + s.draw(6);
    std::vector<std::uint64_t> lives, kinds;
    for (std::uint64_t i = 0; i < n; ++i) { lives.push_back(s.draw(1500)); kinds.push_back(s.draw(3)); }
    c.note(std::to_string(n) + " sessions, a key every " + std::to_string(speed) + " us");
    std::thread typist([&]
    {
        const std::string t = "a\na\n\x1b[A\n";
        for (std::size_t i = 0; !over; ++i)
        {
            char ch = t[i % t.size()];
            input.drain();
            auto r = ::write(input.their, &ch, 1); // what does not fit is lost
            static_cast<void>(r);
            std::this_thread::sleep_for(std::chrono::microseconds(speed));
        }
    });
    struct End { std::atomic<bool>& o; std::thread& t; ~End() { o = true; t.join(); } } end{over, typist};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Output out;
        std::ostream stream(&out);
        auto session = [&](auto& sched, auto stop)
        {
            cli::CliLocalTerminalSession se(app, sched, stream, 10);
            std::thread runner([&] { sched.Run(); });
            std::this_thread::sleep_for(std::chrono::microseconds(lives[i]));
            stop(sched);
            runner.join();
        };
        if (kinds[i] == 0)
        {
            cli::LoopScheduler sched;
            session(sched, [](auto& x) { x.Stop(); });
        }
        else if (kinds[i] == 1)
        {
            cli::BoostAsioScheduler sched;
            session(sched, [](auto& x) { x.Stop(); });
        }
        else
        {
            // the session goes first, the scheduler runs what is left
            Manual sched;
            {
                cli::CliLocalTerminalSession se(app, sched, stream, 10);
                std::this_thread::sleep_for(std::chrono::microseconds(lives[i]));
                if (lives[i] & 1) sched.one();
            }
            const int k = calls;
            while (sched.one()) {}
            VF_REQUIRE(c, calls == k, "a command runs after the destruction of its session");
        }
        VF_REQUIRE(c, input.normal(), "after the destruction the terminal is " << input.modeText());
    }
    if (n > 1) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C23";
    su.rule = "random menu trees and keys, typed as bytes on a pseudo terminal or a pipe that is the standard input, in random pieces and at random paces, with signals, commands that read the input themselves, hangups, closed or replaced input and "
              "destructions at any time, on three schedulers: compared with the line editor given the keys, and with the original terminal modes. Non-trivial: more than five keys, or two sessions.";
    su.resetGlobals = []
    {
        world::resetLibraryState();
        struct sigaction a{};
        a.sa_handler = [](int) {};
        sigaction(SIGUSR1, &a, nullptr);
        signal(SIGPIPE, SIG_IGN);
        std::thread([] {}).join(); // a sanitizer may start a thread of its own with the first one
    };
    su.props = {
        {"terminal", [](Ctx& c) { typing(c, Input::terminal); }, 16000, 100000, 4, 30},
        {"pipe", [](Ctx& c) { typing(c, Input::pipe); }, 6000, 30000, 4, 30},
        {"device", device, 12000, 60000, 4, 30},
        {"one-after-the-other", oneAfterTheOther, 5000, 30000, 8, 30},
    };
    return su;
}
