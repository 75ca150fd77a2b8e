// C11 Up and Down browse the command history as documented: the history of every kind of session
#include "app.h"
#include "telnet.h"
#include <cli/clilocalsession.h>

using namespace vf;
using namespace telnet;

namespace
{

struct Manual : cli::Scheduler
{
    void Post(const std::function<void()>& f) override { std::lock_guard<std::mutex> l(m); tasks.push_back(f); }
    std::mutex m;
    std::vector<std::function<void()>> tasks;
};

// a session of any kind keeps as many commands as it was given, 100 by default, and Up goes back through all of them
void kinds(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    root->Insert("c", [&](std::ostream&, const std::string&) {});
    world::Words stored;
    for (std::uint64_t i = 0, n = s.coin() ? s.draw(130) : 0; i < n; ++i) stored.push_back("c old" + std::to_string(i));
    auto st = std::make_unique<cli::VolatileHistoryStorage>(500);
    st->Store(stored);
    cli::Cli cli(std::move(root), std::move(st));
    const bool given = s.coin();
    const auto size = given ? static_cast<std::size_t>(s.coin() ? s.draw(6) : s.draw(200)) : 100;
    const auto kind = s.draw(4);
    world::Hist h;
    h.max = size;
    h.load(stored);
    const auto n = s.chance(1, 4) ? s.draw(3) : size + s.draw(20) - (s.coin() ? std::min<std::size_t>(size, 10) : 0);
    static const char* const names[] = {"session", "local session", "telnet session", "telnet session on all addresses"};
    c.note(std::string(names[kind]) + (given ? " of size " + std::to_string(size) : " of default size") + ", " + std::to_string(stored.size()) + " commands loaded, " + std::to_string(n) + " entered");
    world::Words lines;
    for (std::uint64_t i = 0; i < n; ++i) lines.push_back("c " + std::to_string(s.chance(1, 20) ? i / 2 : i));
    for (auto& l : lines) h.enter(l);
    std::string text;
    if (kind < 2)
    {
        std::ostringstream out;
        Manual sched;
        std::unique_ptr<cli::CliSession> x;
        if (kind == 0) x = given ? std::make_unique<cli::CliSession>(cli, out, size) : std::make_unique<cli::CliSession>(cli, out);
        else if (given) x = std::make_unique<cli::CliLocalTerminalSession>(cli, sched, out, size);
        else x = std::make_unique<cli::CliLocalTerminalSession>(cli, sched, out);
        for (auto& l : lines) x->Feed(l);
        out.str("");
        x->ShowHistory();
        text = out.str();
    }
    else
    {
        Sched sched;
        std::unique_ptr<Server> server;
        if (kind == 2) server = given ? std::make_unique<Server>(cli, sched, "127.0.0.1", 0, size) : std::make_unique<Server>(cli, sched, "127.0.0.1", 0);
        else server = given ? std::make_unique<Server>(cli, sched, static_cast<unsigned short>(0), size) : std::make_unique<Server>(cli, sched, static_cast<unsigned short>(0));
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) { c.inconclusive("no socket"); return; }
        int room = 1 << 20; // the server writes without waiting
        setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &room, sizeof room);
        asiolib::ip::tcp::socket sock(sched.AsioContext());
        sock.assign(asiolib::ip::tcp::v4(), p[0]);
        server->CreateSession(std::move(sock))->Start();
        Client client(p[1]);
        auto pump = [&] { while (sched.AsioContext().poll_one()) client.receive(); client.receive(); };
        for (auto& l : lines) { client.send(l + "\r\n"); pump(); }
        client.got.clear();
        client.send("history\r\n");
        h.enter("history");
        pump();
        text = plain(client.got);
        // only the lines of the listing
        std::istringstream in(text);
        text.clear();
        for (std::string l; std::getline(in, l);) if (l.find('\t') != std::string::npos) text += l + "\n";
    }
    auto list = world::World::parseHistory(text);
    VF_REQUIRE(c, list == h.listing(), "the history is " << world::World::show(list) << " expected " << world::World::show(h.listing()));
    if (h.v.size() == size && size) c.nontrivial();
    c.label(names[kind]);
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C11";
    su.rule = "sessions of every kind with a history size, given or by default: filled near and over it. Non-trivial: filled.";
    su.resetGlobals = world::resetLibraryState;
    su.props = {{"kinds", kinds, 1000, 20000, 0, 20}};
    return su;
}
