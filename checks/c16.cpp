// C16 The global output stream reaches every live session once and no other
#include "world.h"

#include <cli/clifilesession.h>

#include <iterator>
#include <thread>

using namespace vf;

namespace
{

// streams of several kinds that keep what they get
struct Unbuffered : std::streambuf
{
    int_type overflow(int_type ch) override
    {
        if (!traits_type::eq_int_type(ch, traits_type::eof())) text += traits_type::to_char_type(ch);
        return traits_type::not_eof(ch);
    }
    std::string text;
};
struct Buffered : std::streambuf
{
    explicit Buffered(std::size_t n) : buf(n) { setp(buf.data(), buf.data() + buf.size()); }
    int_type overflow(int_type ch) override
    {
        sync();
        if (!traits_type::eq_int_type(ch, traits_type::eof())) text += traits_type::to_char_type(ch);
        return traits_type::not_eof(ch);
    }
    int sync() override
    {
        text.append(pbase(), pptr());
        setp(buf.data(), buf.data() + buf.size());
        return 0;
    }
    std::vector<char> buf;
    std::string text;
};
struct Blocks : std::streambuf
{
    int_type overflow(int_type ch) override
    {
        if (!traits_type::eq_int_type(ch, traits_type::eof())) text += traits_type::to_char_type(ch);
        return traits_type::not_eof(ch);
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override { text.append(p, static_cast<std::size_t>(n)); return n; }
    std::string text;
};

// takes nothing, or only the first bytes
struct Refusing : std::streambuf
{
    explicit Refusing(std::streamsize n) : room(n) {}
    int_type overflow(int_type ch) override
    {
        if (room == 0) return traits_type::eof();
        --room;
        return traits_type::not_eof(ch);
    }
    std::streamsize xsputn(const char*, std::streamsize n) override { n = std::min(n, room); room -= n; return n; }
    int sync() override { return room == 0 ? -1 : 0; }
    std::streamsize room;
};

struct Out
{
    explicit Out(std::uint64_t kind, std::streamsize room = 0)
    {
        if (kind == 0) { auto o = std::make_unique<std::ostringstream>(); str = o.get(); os = std::move(o); }
        else if (kind == 1) { auto b = std::make_unique<Unbuffered>(); un = b.get(); buf = std::move(b); }
        else if (kind == 4) { auto b = std::make_unique<Refusing>(room); refuses = true; buf = std::move(b); }
        else if (kind == 5) { refuses = true; os = std::make_unique<std::ostream>(nullptr); }
        else if (kind == 2) { auto b = std::make_unique<Buffered>(7); bu = b.get(); buf = std::move(b); }
        else { auto b = std::make_unique<Blocks>(); bl = b.get(); buf = std::move(b); }
        if (!os) os = std::make_unique<std::ostream>(buf.get());
    }
    std::string text()
    {
        if (str) return before + str->str();
        if (un) return before + un->text;
        if (bl) return before + bl->text;
        if (refuses) return {};
        bu->pubsync();
        return before + bu->text;
    }
    // the stream is given another buffer
    void redirect(bool blocks)
    {
        if (refuses) return;
        before = text();
        str = nullptr; un = nullptr; bu = nullptr; bl = nullptr;
        std::unique_ptr<std::streambuf> b;
        if (blocks) { auto x = std::make_unique<Blocks>(); bl = x.get(); b = std::move(x); }
        else { auto x = std::make_unique<Unbuffered>(); un = x.get(); b = std::move(x); }
        static_cast<std::ios&>(*os).rdbuf(b.get());
        old.push_back(std::move(buf));
        buf = std::move(b);
    }
    std::string before;
    std::vector<std::unique_ptr<std::streambuf>> old;
    std::unique_ptr<std::streambuf> buf;
    std::unique_ptr<std::ostream> os;
    std::ostringstream* str = nullptr;
    Unbuffered* un = nullptr;
    Buffered* bu = nullptr;
    Blocks* bl = nullptr;
    bool refuses = false; // what it gets is not judged
};

struct Point { int x, y; };
std::ostream& operator<<(std::ostream& o, const Point& p) { return o << '(' << p.x << ',' << p.y << ')'; }
std::ostream& star(std::ostream& o) { return o.put('*'); }

// one output operation, the same on any stream
struct Op
{
    int kind = 0;
    std::string text;
    long long n = 0;
    double d = 0;
    static Op gen(Src& s)
    {
        Op o;
        o.kind = static_cast<int>(s.draw(34));
        auto len = s.chance(1, 40) ? s.draw(70000) : s.size(300);
        const bool raw = s.chance(1, 3);
        const auto base = s.draw(256);
        for (std::uint64_t i = 0; i < len; ++i)
            o.text += raw ? static_cast<char>((base + i * 7) % 256) : len < 60 ? "abcdefghijk \n\t"[s.draw(14)] : static_cast<char>('a' + (base + i) % 26);
        static const std::vector<long long> ns = {0, 1, -1, 255, 127, 1234567890, -2147483648ll, 9223372036854775807ll};
        o.n = s.coin() ? s.pick(ns) : s.range(0, 300);
        static const std::vector<double> ds = {0, 1.5, -2.25, 1e100, 3.14159265358979, 1.0 / 3, 1e-7};
        o.d = s.pick(ds);
        return o;
    }
    void apply(std::ostream& o) const
    {
        const auto ch = text.empty() ? static_cast<char>(n) : text[0];
        switch (kind)
        {
            case 0: o << text; break;
            case 1: o.write(text.data(), static_cast<std::streamsize>(text.size())); break;
            case 2: o.put(ch); break;
            case 3: o << ch; break;
            case 4: o << text.c_str(); break;
            case 5: o << n; break;
            case 6: o << static_cast<int>(n); break;
            case 7: o << d; break;
            case 8: o << std::setw(static_cast<int>(n % 20)) << text; break;
            case 9: o << std::setw(12) << std::setfill(ch) << n; break;
            case 10: o << std::hex << std::showbase << n; break;
            case 11: o << std::dec << std::noshowbase; break;
            case 12: o << std::boolalpha << (n > 0); break;
            case 13: o << std::fixed << std::setprecision(3) << d; break;
            case 14: o << std::scientific << d; break;
            case 15: o << std::endl; break;
            case 16: o << std::flush; break;
            case 17: o << std::ends; break;
            case 18: { std::stringbuf b(text); o << &b; break; }
            case 19: std::copy(text.begin(), text.end(), std::ostreambuf_iterator<char>(o)); break;
            case 20: { std::vector<int> v = {1, 2, static_cast<int>(n)}; std::copy(v.begin(), v.end(), std::ostream_iterator<int>(o, ", ")); break; }
            case 21: o << Point{static_cast<int>(n), 7}; break;
            case 22: o << std::left << std::setw(10) << text << '|'; break;
            case 23: o << std::right << std::setw(10) << n << '|'; break;
            case 24: o << static_cast<unsigned char>(n) << static_cast<short>(n) << static_cast<unsigned>(n); break;
            case 25: o << std::quoted(text); break;
            case 26: o << star << star; break;
            case 27: o << std::uppercase << std::hex << n << std::nouppercase << std::dec; break;
            case 28: o.rdbuf()->sputn(text.data(), static_cast<std::streamsize>(text.size())); break;
            case 29: o.rdbuf()->sputc(ch); break;
            case 30: o << std::showpos << n << std::noshowpos; break;
            case 31: o << 'x' << "y" << std::string("z") << 1 << '\n'; break;
            case 32: o << static_cast<const void*>(nullptr) << static_cast<float>(d) << static_cast<long double>(d); break;
            default: o << std::unitbuf << text << std::nounitbuf; break;
        }
        o.clear();
    }
    std::string show() const { return "op" + std::to_string(kind) + "(" + quote(text, 30) + "," + std::to_string(n) + ")"; }
};

void resetCout()
{
    auto& o = cli::Cli::cout();
    o.clear();
    std::ios fresh(nullptr);
    o.copyfmt(fresh);
    o.exceptions(std::ios::goodbit);
}

void run(Ctx& c)
{
    auto& s = c.src;
    struct S
    {
        std::unique_ptr<Out> out;
        std::unique_ptr<cli::CliSession> session;
        std::unique_ptr<std::istream> in;
        std::string want;
        bool alive = true, exited = false;
        std::size_t from = 0;
        int number = 0;
    };
    std::deque<S> all;       // sessions alive and dead: dead ones must not get anything more
    std::vector<std::unique_ptr<cli::Cli>> apps;
    std::ostringstream reference;
    reference.copyfmt(std::ios(nullptr));
    std::size_t taken = 0;
    std::function<void(std::ostream&)> inHandler; // what the next handler does
    // what a write adds to every live session
    auto broadcast = [&]
    {
        auto t = reference.str().substr(taken);
        taken += t.size();
        for (auto& x : all) if (x.alive && !x.out->refuses) x.want += t;
    };
    auto makeApp = [&]
    {
        auto root = std::make_unique<cli::Menu>("cli");
        root->Insert("do", [&](std::ostream& o) { inHandler(o); });
        apps.push_back(std::make_unique<cli::Cli>(std::move(root)));
        apps.back()->ExitAction([&](std::ostream&) {});
        if (s.chance(1, 4))
        {
            // an application that was moved before its sessions exist
            auto moved = std::make_unique<cli::Cli>(std::move(*apps.back()));
            apps.back() = std::move(moved);
        }
    };
    int numbers = 0;
    // now and then sessions live, and global output is written, on several threads (one at a time)
    const bool threads = s.chance(1, 8);
    if (threads) c.label("several threads");
    auto on = [&](const auto& f)
    {
        if (threads && s.coin()) std::thread(f).join();
        else f();
    };
    auto makeSession = [&]
    {
        if (apps.empty()) makeApp();
        auto& app = *apps[s.draw(apps.size())];
        all.emplace_back();
        auto& x = all.back();
        x.number = ++numbers;
        const auto room = s.coin() ? 0 : static_cast<std::streamsize>(s.draw(60));
        const bool nowhere = s.chance(1, 10);
        x.out = std::make_unique<Out>(nowhere ? 5 : s.chance(1, 6) ? 4 : s.draw(4), room);
        if (nowhere) c.label("stream without buffer");
        switch (s.draw(nowhere ? 2 : 3))
        {
            case 0: x.session = std::make_unique<cli::CliSession>(app, *x.out->os); break;
            case 1: x.session = std::make_unique<cli::CliSession>(app, *x.out->os, s.draw(3)); break;
            default: x.in = std::make_unique<std::istringstream>(); x.session = std::make_unique<cli::CliFileSession>(app, *x.in, *x.out->os); break;
        }
        c.note("session " + std::to_string(x.number));
    };
    auto live = [&] { std::vector<S*> v; for (auto& x : all) if (x.alive) v.push_back(&x); return v; };
    auto destroy = [&](S& x)
    {
        c.note("destroy " + std::to_string(x.number));
        x.session.reset();
        x.alive = false;
    };
    auto write = [&]
    {
        auto op = Op::gen(s);
        c.note(op.show());
        op.apply(reference);
        op.apply(cli::Cli::cout());
        broadcast();
    };
    std::size_t writes = 0, most = 0;
    // now and then many sessions
    const std::size_t limit = s.chance(1, 60) ? 80 : 6;
    for (auto k = limit > 6 ? 10 + s.draw(60) : s.draw(4); k > 0; --k) makeSession();
    if (limit > 6) c.label("many sessions");
    const auto n = 1 + s.size(40);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        auto v = live();
        most = std::max(most, v.size());
        switch (s.weighted({50, 18, 10, 3, 4, 3, 12, 4, 3}))
        {
            case 0: on(write); if (!v.empty()) ++writes; break;
            case 1: if (v.size() < limit) on(makeSession); break;
            case 2: if (!v.empty()) on([&] { destroy(*s.pick(v)); }); break;
            case 3: makeApp(); c.note("application"); break;
            case 4: // the application goes, its sessions stay
            {
                if (apps.empty()) break;
                auto k = s.draw(apps.size());
                c.note("application " + std::to_string(k) + " gone");
                apps.erase(apps.begin() + static_cast<long>(k));
                c.label("application gone before its sessions");
                // such sessions are only written to and destroyed from now on
                for (auto& x : all) x.exited = true;
                break;
            }
            case 5: // refused sessions leave nothing behind
            {
                if (apps.empty()) break;
                Out o(s.draw(4));
                std::istringstream in("x\n");
                if (s.chance(1, 3))
                {
                    // nor do those whose stored history cannot be read
                    struct Unreadable : cli::HistoryStorage
                    {
                        void Store(const std::vector<std::string>&) override {}
                        std::vector<std::string> Commands() const override { throw std::runtime_error("unreadable"); }
                        void Clear() override {}
                    };
                    cli::Cli other(std::make_unique<cli::Menu>("cli"), std::make_unique<Unreadable>());
                    try
                    {
                        if (s.coin()) cli::CliSession f(other, *o.os);
                        else cli::CliFileSession f(other, in, *o.os);
                    }
                    catch (const std::exception&) { c.note("session without history"); c.label("unreadable history"); }
                    break;
                }
                o.os->setstate(std::ios::failbit);
                try { cli::CliFileSession f(*apps[0], in, *o.os); }
                catch (const std::exception&) { c.note("refused session"); }
                break;
            }
            case 6: // written from a handler
            {
                std::vector<S*> able;
                for (auto x : v) if (!x->exited) able.push_back(x);
                if (able.empty()) break;
                auto x = s.pick(able);
                c.note("handler on " + std::to_string(x->number));
                const auto own = s.draw(3);
                inHandler = [&](std::ostream& o)
                {
                    if (own == 0) { o << "own"; if (!x->out->refuses) x->want += "own"; o.clear(); }
                    write();
                    if (own == 1) { o << "own"; if (!x->out->refuses) x->want += "own"; o.clear(); }
                    if (s.chance(1, 6)) makeSession();
                    auto w = live();
                    if (s.chance(1, 6) && w.size() > 1)
                    {
                        auto y = s.pick(w);
                        if (y != x) destroy(*y);
                    }
                    if (s.coin()) write();
                };
                on([&] { x->session->Feed("do"); });
                ++writes;
                break;
            }
            case 8: // e.g. standard output redirected to a file
                if (!v.empty())
                {
                    auto x = s.pick(v);
                    c.note("redirect " + std::to_string(x->number));
                    c.label("stream redirected");
                    x->out->redirect(s.coin());
                }
                break;
            default: // a session that has ended is still alive
            {
                std::vector<S*> able;
                for (auto x : v) if (!x->exited) able.push_back(x);
                if (able.empty()) break;
                auto x = s.pick(able);
                c.note("exit " + std::to_string(x->number));
                x->session->Exit();
                x->exited = true;
                break;
            }
        }
        for (auto& x : all)
        {
            auto t = x.out->text();
            VF_REQUIRE(c, t == x.want, "session " << x.number << (x.alive ? "" : " (destroyed)") << " got " << quote(t, 2000) << " expected " << quote(x.want, 2000));
        }
        VF_REQUIRE(c, cli::Cli::cout().good(), "the global stream is not usable any more");
    }
    if (most > 1 && writes) c.nontrivial();
    c.label(most > 2 ? "three or more sessions" : most == 2 ? "two sessions" : "at most one session");
    // the end, in any order
    while (!apps.empty() || !live().empty())
    {
        auto v = live();
        if (v.empty() || (!apps.empty() && s.coin())) { auto k = s.draw(apps.size()); apps.erase(apps.begin() + static_cast<long>(k)); }
        else destroy(*s.pick(v));
        write();
        for (auto& x : all)
        {
            auto t = x.out->text();
            VF_REQUIRE(c, t == x.want, "at the end, session " << x.number << (x.alive ? "" : " (destroyed)") << " got " << quote(t, 2000) << " expected " << quote(x.want, 2000));
        }
    }
}

// sessions one after the other on the same stream, and two at the same time on one stream of which one ends
void sameStream(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("cli");
    cli::Cli app(std::move(root));
    std::ostringstream out, reference;
    const auto n = 2 + s.draw(4);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        cli::CliSession x(app, out);
        const auto m = s.draw(3);
        for (std::uint64_t k = 0; k < m; ++k)
        {
            auto op = Op::gen(s);
            c.note(op.show());
            op.apply(reference);
            op.apply(cli::Cli::cout());
        }
        VF_REQUIRE(c, out.str() == reference.str(), "session " << i << " on the same stream: " << quote(out.str(), 2000) << " expected " << quote(reference.str(), 2000));
    }
    {
        auto a = std::make_unique<cli::CliSession>(app, out);
        auto b = std::make_unique<cli::CliSession>(app, out);
        if (s.coin()) a.reset(); else b.reset();
        cli::Cli::cout() << "once";
        reference << "once";
        VF_REQUIRE(c, out.str().size() >= 4 && out.str().substr(out.str().size() - 4) == "once", "the session left on the stream gets " << quote(out.str(), 2000));
    }
    if (n > 2) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C16";
    su.rule = "random histories of creating and destroying applications and sessions (on string, unbuffered, buffered and block streams, and on streams that refuse what they are given), of sessions that end, and of 34 kinds of output operation on the "
              "global stream, from outside and from handlers, in one or several threads; the text on every stream is compared after each step with the same operations on a string stream. Non-trivial: writes with two or more live sessions.";
    su.resetGlobals = [] { world::resetLibraryState(); resetCout(); };
    su.props = {
        {"broadcast", run, 60000, 900000, 0, 20},
        {"same-stream", sameStream, 10000, 100000, 0, 20},
    };
    return su;
}
