// C21 Telnet negotiation and output follow the protocol
#include "app.h"
#include "telnet.h"

#include <atomic>
#include <iterator>
#include <mutex>

using namespace vf;
using namespace telnet;

namespace
{

// what a request must be answered with; handled options may be answered in several ways
struct Answer
{
    std::string exact; // when not empty
    char option = 0;   // of a handled request: any one answer about this option, or none
};

bool match(const std::vector<std::string>& got, const std::vector<Answer>& want)
{
    std::size_t i = 0;
    for (auto& a : want)
    {
        if (!a.exact.empty())
        {
            if (i == got.size() || got[i] != a.exact) return false;
            ++i;
        }
        else if (i < got.size() && got[i].size() == 3 && got[i][2] == a.option && (got[i][1] == WILL || got[i][1] == DO || got[i][1] == WONT || got[i][1] == DONT)) ++i;
    }
    return i == got.size();
}

struct Texts { std::string enterG, enterS, prompt; };

// an application that says things; its texts hold no IAC
std::string genText(Src& s, std::size_t max)
{
    std::string t;
    const auto n = s.size(max);
    const auto style = s.draw(4);
    for (std::size_t i = 0; i < n; ++i)
        switch (style)
        {
            case 0: t += static_cast<char>('a' + s.draw(26)); break;
            case 1: t += "ab \n"[s.draw(4)]; break;
            case 2: t += "x\n\r\t"[s.draw(4)]; break;
            default: t += static_cast<char>(s.draw(255)); break;
        }
    return t;
}

void negotiation(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("main");
    root->Insert("say", [](std::ostream& o, const std::string& t) { o << "<" << t << ">\n"; });
    cli::Cli app(std::move(root));
    Host host(app);
    const auto enterG = s.coin() ? genText(s, 30) : "", enterS = s.coin() ? genText(s, 30) : "";
    if (!enterG.empty()) app.EnterAction([&](std::ostream& o) { o << enterG; });
    if (!enterS.empty()) host.server->EnterAction([&](std::ostream& o) { o << enterS; });
    auto client = host.pairClient();
    host.afterEach = [&] { client->receive(); };
    host.pump();
    client->receive();
    {
        const auto o = opening();
        VF_REQUIRE(c, client->got.compare(0, o.size(), o) == 0, "the connection opens with " << quote(client->got));
        const auto rest = client->got.substr(o.size());
        VF_REQUIRE(c, plain(rest) == plain(enterG + enterS + "main> "), "after the negotiation " << quote(rest) << " expected " << quote(enterG + enterS + "main> "));
        VF_REQUIRE(c, everyLfAfterCr(rest), "a line feed without carriage return in " << quote(rest));
        client->got.clear();
    }
    // what is sent: requests, offers, refusals, commands, keys
    std::string bytes, t;
    std::vector<Answer> want;
    std::string shown = "";
    const auto n = s.chance(1, 300) ? 1000 + s.draw(4000) : s.size(s.chance(1, 10) ? 400 : 40);
    std::size_t requests = 0;
    std::string line; // being typed
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        switch (s.weighted({40, 12, 8, 20, 6}))
        {
            case 0: // a request or an offer
            {
                const char verb = s.coin() ? WILL : DO;
                static const std::vector<int> special = {10, 13, 0, 1, 3, 31, 34, 254, 27, 240, 251, 253, 127, 128, 9, 8, 4};
                const auto option = static_cast<char>(s.chance(1, 3) ? s.pick(special) : static_cast<int>(s.draw(255)));
                bytes += {IAC, verb, option};
                const bool handled = option == 3 || (verb == DO && option == 1) || (verb == WILL && option == 31);
                Answer a;
                a.option = option;
                if (!handled) a.exact = {IAC, verb == WILL ? DONT : WONT, option};
                want.push_back(a);
                ++requests;
                t += std::string(verb == WILL ? " WILL" : " DO") + std::to_string(static_cast<unsigned char>(option));
                break;
            }
            case 1: // a refusal
            {
                const char verb = s.coin() ? WONT : DONT;
                const auto option = static_cast<char>(s.draw(255));
                bytes += {IAC, verb, option};
                t += std::string(verb == WONT ? " WONT" : " DONT") + std::to_string(static_cast<unsigned char>(option));
                break;
            }
            case 2: bytes += noise(s, nullptr, false); t += " (element)"; break;
            case 3:
            {
                const auto ch = static_cast<char>('a' + s.draw(26));
                bytes += ch;
                line += ch;
                shown += ch;
                t += std::string(" ") + ch;
                break;
            }
            default:
                bytes += s.coin() ? std::string("\r\0", 2) : std::string("\r\n");
                shown += "\r\n";
                if (!line.empty()) shown += "wrong command: " + line + "\n";
                shown += "main> ";
                line.clear();
                t += " ENTER";
                break;
        }
    }
    c.note(t);
    const auto how = s.draw(4);
    c.note("packets " + std::to_string(how));
    for (std::size_t at = 0; at < bytes.size();)
    {
        auto k = how == 0 ? bytes.size() : how == 1 ? 1 : 1 + s.draw(how == 2 ? 5 : 60);
        k = std::min<std::size_t>(k, bytes.size() - at);
        client->send(bytes.substr(at, k));
        at += k;
        host.pump();
        client->receive();
    }
    VF_REQUIRE(c, host.escaped.empty(), "an exception leaves the scheduler loop: " << host.escaped);
    std::vector<std::string> got;
    const auto text = withoutCommands(client->got, got);
    std::string w;
    for (auto& a : want) w += (a.exact.empty() ? "(" + std::to_string(static_cast<unsigned char>(a.option)) + ")" : commandText(a.exact)) + ", ";
    VF_REQUIRE(c, match(got, want), "answers " << commandText(got) << " expected " << w);
    VF_REQUIRE(c, plain(text) == plain(shown), "shown " << quote(text) << " expected " << quote(shown));
    VF_REQUIRE(c, everyLfAfterCr(text), "a line feed without carriage return in " << quote(text));
    if (requests > 1) c.nontrivial();
}

// every request, every option
void everyOption(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("main");
    cli::Cli app(std::move(root));
    Host host(app);
    auto client = host.pairClient();
    host.pump();
    client->receive();
    client->got.clear();
    const auto start = s.draw(255), step = 1 + s.draw(254);
    const bool cutInside = s.coin();
    c.note("from " + std::to_string(start) + " by " + std::to_string(step) + (cutInside ? ", in pieces" : ""));
    const int rounds = s.chance(1, 5) ? 1 + static_cast<int>(s.draw(5)) : 1;
    c.note(std::to_string(rounds) + " rounds");
    for (int i = 0; i < 255 * rounds; ++i)
        for (char verb : {WILL, DO, WONT, DONT})
        {
            const auto option = static_cast<char>((start + static_cast<std::uint64_t>(i) * step) % 255);
            const std::string q = {IAC, verb, option};
            for (std::size_t k = 0; k < 3; ++k)
            {
                client->send(q.substr(k, cutInside ? 1 : 3));
                host.pump();
                if (!cutInside) break;
            }
            client->receive();
            const auto got = client->got;
            client->got.clear();
            if (verb == WONT || verb == DONT) { VF_REQUIRE(c, got.empty(), commandText(q) << " is answered with " << quote(got)); continue; }
            const bool handled = option == 3 || (verb == DO && option == 1) || (verb == WILL && option == 31);
            const std::string want = {IAC, verb == WILL ? DONT : WONT, option};
            if (!handled) VF_REQUIRE(c, got == want, commandText(q) << " is answered with " << quote(got) << " expected " << commandText(want));
        }
    c.nontrivial();
}

// text of any size, written in any way, to clients that read slowly
void output(Ctx& c, bool big)
{
    auto& s = c.src;
    // the pieces written by each kind of writer
    std::ostringstream ref;
    auto root = std::make_unique<cli::Menu>("main");
    std::function<void(std::ostream&)> writer;
    root->Insert("w", [&](std::ostream& o) { writer(o); });
    root->Insert("fail", [&](std::ostream&, const std::string& t) { throw std::runtime_error("failed " + t); });
    cli::Cli app(std::move(root));
    app.ExitAction([](std::ostream& o) { o << "bye\nbye\n"; });
    Host host(app);
    if (s.coin()) host.server->ExitAction([](std::ostream& o) { o << "session\nover\n"; });
    const bool sessionExit = s.coin();
    host.server->ExitAction([&](std::ostream& o) { if (sessionExit) o << "session\nover\n"; });
    auto client = big ? Host::tcpClient(host.port()) : host.pairClient();
    if (!client) { c.inconclusive("no connection"); return; }
    // big texts need a reader
    std::atomic<bool> stop{false};
    std::thread reader;
    const bool megabytes = big && s.chance(1, 3);
    const auto slow = s.draw(megabytes ? 2 : 3);
    std::mutex m;
    if (big)
    {
        int size = 2000;
        if (!megabytes && s.coin()) setsockopt(client->fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
        host.pumpUntil([&] { client->receive(); return client->got.size() > opening().size() + 5; });
        reader = std::thread([&]
        {
            while (!stop)
            {
                { std::lock_guard<std::mutex> l(m); client->receive(); if (client->closed) return; }
                std::this_thread::sleep_for(std::chrono::microseconds(slow == 0 ? 10 : slow == 1 ? 100 : 700));
            }
        });
    }
    struct Joiner { std::atomic<bool>& b; std::thread& t; ~Joiner() { b = true; if (t.joinable()) t.join(); } } joiner{stop, reader};
    if (!big) host.afterEach = [&] { client->receive(); };
    host.pump();
    if (!big) client->receive();
    auto& cout = cli::Cli::cout();
    std::string want = "main> ", t;
    std::ostringstream r;
    auto take = [&] { auto x = r.str(); r.str(""); return x; };
    const auto n = 1 + s.draw(6);
    bool exited = false;
    std::size_t total = 0;
    for (std::uint64_t i = 0; i < n && !exited; ++i)
    {
        Span sp(s);
        const auto kind = s.weighted({40, 20, 15, 5});
        // a random way of writing, applied to both
        const auto text = genText(s, big ? 100 : 600);
        auto huge = text;
        if (big) for (auto k = s.draw(2000); k > 0; --k) huge += s.chance(1, 3) ? "line\n" + text : std::string(37, 'x');
        auto way = s.draw(7);
        if (megabytes && s.chance(1, 2))
        {
            // more than a connection holds, in one piece
            const auto size = 1000000 + s.draw(7000000);
            // (lines long enough for a translation of line ends that takes time for each)
            const std::string piece = "\npiece " + std::to_string(i) + " " + std::string(300 + size / 2000, 'p') + "\n";
            huge.reserve(size + piece.size());
            while (huge.size() < size) huge += piece;
            way = way < 3 ? 0 : way < 5 ? 2 : 3;
            c.label("megabytes in one piece");
        }
        total += huge.size();
        const auto number = s.range(0, 100000);
        const auto width = s.draw(30);
        auto write = [&](std::ostream& o)
        {
            switch (way)
            {
                case 0: o << huge; break;
                case 1: for (char ch : huge) o.put(ch); break;
                case 2: o.write(huge.data(), static_cast<std::streamsize>(huge.size())); break;
                case 3: o << std::setw(static_cast<int>(width)) << number << huge << std::endl; break;
                case 4: { std::istringstream is(huge); std::string l; while (std::getline(is, l)) o << l << '\n'; break; }
                case 5: std::copy(huge.begin(), huge.end(), std::ostreambuf_iterator<char>(o)); break;
                default: o << number << '\n' << 1.5 << std::flush << huge << true << 'c' << "\n"; break;
            }
        };
        switch (kind)
        {
            case 0:
                t += " handler writes " + std::to_string(huge.size()) + " bytes (way " + std::to_string(way) + ") " + quote(huge, 60);
                writer = write;
                client->send(std::string("w\r\0", 3));
                want += "w\r\n";
                write(r);
                want += take() + "main> ";
                break;
            case 1:
                t += " global stream: " + std::to_string(huge.size()) + " bytes (way " + std::to_string(way) + ") " + quote(huge, 60);
                write(r);
                want += take();
                write(cout);
                cout.clear();
                break;
            case 2:
                t += " an exception";
                client->send(std::string("fail x\r\0", 8));
                want += "fail x\r\nfailed x\nmain> ";
                break;
            default:
                t += " exit";
                client->send("exit\r\n");
                want += std::string("exit\r\n") + (sessionExit ? "session\nover\n" : "") + "bye\nbye\n";
                exited = true;
                break;
        }
        if (big) { const auto w = plain(want).size(); host.pumpUntil([&] { std::lock_guard<std::mutex> l(m); return client->got.size() >= w || client->closed; }, megabytes ? 12 : 3); }
        host.pump();
        if (!big) client->receive();
    }
    c.note(t + (big ? " (big)" : ""));
    const auto end = Clock::now() + std::chrono::seconds(megabytes ? 12 : 5);
    std::string got;
    for (;;)
    {
        host.pump();
        { std::lock_guard<std::mutex> l(m); client->receive(); got = client->got; }
        if (plain(got.substr(std::min(got.size(), opening().size()))) == plain(want) && (client->closed || !exited)) break;
        if (!big || Clock::now() > end) break;
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    VF_REQUIRE(c, host.escaped.empty(), "an exception leaves the scheduler loop: " << host.escaped);
    const auto o = opening();
    VF_REQUIRE(c, got.compare(0, o.size(), o) == 0, "the connection opens with " << quote(got));
    got.erase(0, o.size());
    const auto a = plain(got), b = plain(want);
    if (a != b)
    {
        std::size_t k = 0;
        while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
        VF_REQUIRE(c, false, "the client got " << a.size() << " bytes, expected " << b.size() << "; they differ at " << k << ": " << quote(a.substr(k, 80)) << " expected " << quote(b.substr(k, 80)));
    }
    VF_REQUIRE(c, everyLfAfterCr(got), "a line feed without carriage return");
    VF_REQUIRE(c, client->closed == exited, "the connection is " << (client->closed ? "" : "not ") << "closed");
    if (total > 50) c.nontrivial();
    if (big) c.label("big texts and a slow client");
    if (exited) c.label("until exit");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C21";
    su.rule = "random sequences of requests, offers, refusals of all options, telnet commands, subnegotiations and keys, cut into packets at random: the answers and the text shown are compared with a reference; every option "
              "with every verb in a random order; random texts written by handlers, actions and the global stream in several ways, also megabytes to a slow client. Non-trivial: two requests, or 50 bytes written.";
    su.resetGlobals = [] { world::resetLibraryState(); auto& o = cli::Cli::cout(); o.clear(); o.copyfmt(std::ios(nullptr)); o.exceptions(std::ios::goodbit); };
    su.props = {
        {"negotiation", negotiation, 25000, 400000, 0, 20},
        {"every-option", everyOption, 300, 4000, 0, 20},
        {"output", [](Ctx& c) { output(c, false); }, 30000, 400000, 0, 20},
        {"big-output", [](Ctx& c) { output(c, true); }, 40, 3000, 2, 90},
    };
    return su;
}
