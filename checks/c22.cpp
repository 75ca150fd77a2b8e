// C22 No client behaviour can disturb the server or other sessions
#include "telnet.h"
#include "world.h"

#include <atomic>
#include <csignal>
#include <mutex>
#include <sys/resource.h>

using namespace vf;
using namespace telnet;

namespace
{

// an application whose answers are known
struct Site
{
    explicit Site(Src& s)
    {
        auto root = std::make_unique<cli::Menu>("main");
        root->Insert("say", [](std::ostream& o, const std::string& t) { o << t << "\n"; });
        root->Insert("boom", [](std::ostream&) { throw std::runtime_error("broken"); });
        root->Insert("tell", [](std::ostream&, const std::string& t) { cli::Cli::cout() << '\x01' << t << '\x02'; });
        root->Insert("lots", [](std::ostream& o) { for (int i = 0; i < 60; ++i) o << "line " << i << '\n'; });
        root->Insert("down", [this](std::ostream& o) { o << "going\n"; shutdown(); o << "gone\n"; });
        auto sub = std::make_unique<cli::Menu>("sub");
        sub->Insert("where", [](std::ostream& o) { o << "here\n"; });
        root->Insert(std::move(sub));
        app = std::make_unique<cli::Cli>(std::move(root));
        globalEnter = s.coin();
        globalExit = s.coin();
        serverEnter = s.coin();
        serverExit = s.coin();
        if (globalEnter) app->EnterAction([](std::ostream& o) { o << "welcome\n"; });
        if (globalExit) app->ExitAction([](std::ostream& o) { o << "BYE\n"; });
    }
    void equip(Server& v) const
    {
        if (serverEnter) v.EnterAction([](std::ostream& o) { o << "hello\n"; });
        if (serverExit) v.ExitAction([](std::ostream& o) { o << "OVER\n"; });
    }
    std::string text() const
    {
        return std::string("actions: ") + (globalEnter ? "global enter " : "") + (globalExit ? "global exit " : "") + (serverEnter ? "server enter " : "") + (serverExit ? "server exit " : "");
    }
    std::string welcome() const { return std::string(globalEnter ? "welcome\n" : "") + (serverEnter ? "hello\n" : ""); }
    std::string goodbye() const { return std::string(serverExit ? "OVER\n" : "") + (globalExit ? "BYE\n" : ""); }
    std::function<void()> shutdown = [] {};
    std::unique_ptr<cli::Cli> app;
    bool globalEnter, globalExit, serverEnter, serverExit;
};

// one line for a well behaved client, and what it is answered
struct Talk
{
    bool inSub = false;
    std::string prompt() const { return inSub ? "sub> " : "main> "; }
    std::pair<std::string, std::string> next(Src& s, int& tag)
    {
        std::string line, answer;
        switch (s.weighted({40, 10, 10, 10, 8, 8, 6}))
        {
            case 0:
            {
                const auto w = "w" + std::to_string(s.draw(100000));
                line = (inSub ? "main say " : "say ") + w;
                answer = w + "\n";
                break;
            }
            case 1: line = inSub ? "main boom" : "boom"; answer = "broken\n"; break;
            case 2: line = "nothing"; answer = "wrong command: nothing\n"; break;
            case 3: line = inSub ? "main tell " : "tell "; line += std::to_string(++tag); break;
            case 4:
                if (inSub) { line = "main"; inSub = false; }
                else { line = "sub"; inSub = true; }
                break;
            case 5: line = inSub ? "where" : "sub where"; answer = "here\n"; break;
            default:
                line = inSub ? "main lots" : "lots";
                for (int i = 0; i < 60; ++i) answer += "line " + std::to_string(i) + "\n";
                break;
        }
        return {line, answer};
    }
};

// takes the marks of the global stream out of a text
std::string withoutTags(const std::string& t, std::vector<int>& tags)
{
    std::string r;
    for (std::size_t i = 0; i < t.size();)
    {
        std::size_t e;
        if (t[i] == '\x01' && (e = t.find('\x02', i)) != std::string::npos)
        {
            tags.push_back(atoi(t.c_str() + i + 1));
            i = e + 1;
        }
        else r += t[i++];
    }
    return r;
}

// a well behaved client and what it must have been shown
struct Good
{
    std::unique_ptr<Client> link;
    std::string name, want;
    Talk talk;
    bool exited = false, moreAfterExit = false, halfClosed = false, tcp = false;
    int tagsFrom = -1, tagsTo = 1 << 30; // certainly gets those after the first and before the second
    std::string shown(std::vector<int>& tags) const
    {
        auto t = link->got;
        if (t.compare(0, opening().size(), opening()) == 0) t.erase(0, opening().size());
        else if (t.size() < opening().size()) t.clear();
        return drawn(withoutTags(lineEnds(t), tags));
    }
    // "" when all is well
    std::string problem(const std::vector<int>& marks) const
    {
        std::vector<int> tags;
        const auto t = shown(tags);
        if (link->got.compare(0, opening().size(), opening()) != 0) return "the connection opens with " + quote(link->got, 100);
        if (moreAfterExit ? t.compare(0, want.size(), want) != 0 : t != want) return "is shown " + quote(t, 3000) + "\nexpected " + quote(want, 3000);
        if (exited && !link->closed) return "is still connected after the exit";
        if (!exited && !halfClosed && link->closed) return "was disconnected";
        if (!std::is_sorted(tags.begin(), tags.end()) || std::adjacent_find(tags.begin(), tags.end()) != tags.end()) return "gets the global output out of order or twice";
        for (int m : marks)
            if (m > tagsFrom && m < tagsTo && !std::binary_search(tags.begin(), tags.end(), m)) return "missed mark " + std::to_string(m) + " of the global output";
        return "";
    }
};

std::string enter(Src& s) { return s.coin() ? std::string("\r\0", 2) : std::string("\r\n"); }

// bytes of a client that behaves badly
std::string badBytes(Src& s, std::string& t)
{
    std::string b;
    const auto n = 1 + s.draw(5);
    for (std::uint64_t i = 0; i < n; ++i)
        switch (s.weighted({10, 10, 10, 6, 4, 8, 6, 5}))
        {
            case 0: { auto k = s.size(400); while (k--) b += static_cast<char>(s.draw(256)); t += " bytes"; break; }
            case 1: b += s.coin() ? "exit" + enter(s) : std::string("\x04"); t += " exit"; break;
            case 2: { for (auto k = 1 + s.draw(6); k > 0; --k) b += s.coin() ? std::string("\x04") : "exit" + enter(s); t += " exits"; break; }
            case 3: { for (auto k = s.draw(200); k > 0; --k) b += "\x1b[ABCDHF3~\t\r\n\x0c\x7f"[s.draw(15)]; t += " keys"; break; }
            case 4: { b += std::string(1 + s.draw(5000), static_cast<char>(s.draw(256))); t += " repeated byte"; break; }
            case 5:
            {
                static const std::vector<std::string> v = {"say x", "boom", "lots", "sub", "main", "", "history", "help", "!", "!!", "! 1", "\"", "'", "\\", "say 'a b"};
                const auto& l = s.pick(v);
                b += l + enter(s);
                t += " " + l;
                break;
            }
            case 6:
            {
                for (auto k = 1 + s.draw(8); k > 0; --k)
                    switch (s.draw(6))
                    {
                        case 0: b += IAC; break;
                        case 1: b += SB; break;
                        case 2: b += SE; break;
                        case 3: b += s.coin() ? DO : WILL; break;
                        case 4: b += s.coin() ? DONT : WONT; break;
                        default: b += static_cast<char>(s.draw(256)); break;
                    }
                t += " telnet";
                break;
            }
            default: b += noise(s, nullptr, true); t += " element"; break;
        }
    return b;
}

// "" or the problem
std::string settle(Host& host, std::vector<std::unique_ptr<Good>>& goods, const std::vector<int>& marks, double seconds = 4)
{
    auto all = [&]
    {
        bool r = true;
        for (auto& g : goods)
        {
            g->link->receive();
            if (r && !g->problem(marks).empty()) r = false;
        }
        return r;
    };
    host.pumpUntil([&] { return !host.escaped.empty() || all(); }, seconds);
    if (!host.escaped.empty()) return "an exception leaves the scheduler loop: " + host.escaped;
    if (host.sched.AsioContext().stopped() && host.sched.Stopped()) return "the scheduler was stopped";
    for (auto& g : goods)
    {
        auto p = g->problem(marks);
        if (!p.empty()) return g->name + " " + p;
    }
    return "";
}

void clients(Ctx& c)
{
    auto& s = c.src;
    Site site(s);
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(*site.app, s.coin() ? 100 : s.draw(3), s.coin()); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    site.equip(*host->server);
    const auto port = host->port();
    bool serving = true;
    site.shutdown = [&] { host->server.reset(); };
    std::vector<std::unique_ptr<Good>> goods;
    std::vector<std::unique_ptr<Client>> bads;
    std::vector<int> marks;
    int tag = 0, names = 0;
    std::size_t badActs = 0;
    host->afterEach = [&] { for (auto& b : bads) b->receive(); for (auto& g : goods) g->link->receive(); };
    std::ostringstream localOut;
    cli::CliSession local(*site.app, localOut, 10);
    std::string localWant, t;
    auto join = [&](bool tcp)
    {
        auto g = std::make_unique<Good>();
        g->link = tcp ? Host::tcpClient(port) : host->pairClient();
        if (!g->link) return false;
        g->tcp = tcp;
        g->name = "client " + std::to_string(++names);
        g->want = site.welcome() + "main> ";
        g->tagsFrom = 1 << 30; // until it is known to be connected
        t += "\n  " + g->name + " connects" + (tcp ? " (tcp)" : "");
        goods.push_back(std::move(g));
        return true;
    };
    auto connected = [&]
    {
        for (auto& g : goods)
        {
            g->link->receive();
            if (g->tagsFrom == 1 << 30 && g->link->got.size() > opening().size()) g->tagsFrom = tag;
        }
    };
    if (!join(s.chance(1, 5))) { c.inconclusive("no connection"); return; }
    auto fail = [&](const std::string& p) { c.note(site.text() + t); c.fail(p); };
    const std::size_t crowd = s.chance(1, 60) ? 60 : 5;
    if (crowd > 5)
    {
        c.label("many clients");
        for (auto k = 10 + s.draw(50); k > 0; --k) if (!join(s.chance(1, 5))) { c.inconclusive("no connection"); return; }
    }
    const auto n = 2 + s.size(s.chance(1, 10) ? 80 : 25);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        connected();
        switch (s.weighted({6, 24, 3, 10, 16, 12, 8, 5, serving ? 1u : 0u, 5}))
        {
            case 0: if (serving && goods.size() < crowd) { if (!join(s.chance(1, 5))) { c.inconclusive("no connection"); return; } } break;
            case 1: // a line from a good client
            {
                auto& g = *s.pick(goods);
                if (g.exited || g.halfClosed) break;
                const auto before = tag;
                std::pair<std::string, std::string> l;
                if (serving && !g.talk.inSub && s.chance(1, 60))
                {
                    if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                    l = {"down", "going\ngone\n"};
                    serving = false;
                    c.label("the server destroyed by a command");
                }
                else l = g.talk.next(s, tag);
                if (tag != before) marks.push_back(tag);
                t += "\n  " + g.name + ": " + l.first;
                std::string b;
                const bool noisy = s.chance(1, 4);
                for (char ch : l.first + enter(s)) { if (noisy && s.chance(1, 8)) b += noise(s, nullptr, false); b += ch; }
                if (s.chance(1, 4))
                    for (char ch : b) { g.link->send(std::string(1, ch)); host->pump(); }
                else g.link->send(b);
                g.want += l.first + "\n" + l.second + g.talk.prompt();
                // the commands of different clients must not be in flight together: their order would be open
                if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                break;
            }
            case 2: // a good client exits, perhaps several times
            {
                auto& g = *s.pick(goods);
                if (g.exited || g.halfClosed) break;
                const bool eot = s.coin();
                std::string b = eot ? std::string("\x04") : "exit" + enter(s), more;
                if (s.coin()) for (auto k = 1 + s.draw(5); k > 0; --k) more += s.coin() ? std::string("\x04") : s.coin() ? "exit" + enter(s) : s.coin() ? "say z" + enter(s) : std::string(s.draw(2000), 'x');
                g.link->send(b + more);
                g.want += (eot ? "" : "exit\n") + site.goodbye();
                g.exited = true;
                g.moreAfterExit = !more.empty();
                g.tagsTo = tag + 1;
                t += "\n  " + g.name + (eot ? ": EOT" : ": exit") + (more.empty() ? "" : " followed by " + quote(more, 60));
                c.label(more.empty() ? "exit" : "exit followed by input");
                if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                if (g.moreAfterExit)
                {
                    std::vector<int> tags;
                    const auto rest = g.shown(tags).substr(g.want.size());
                    if (rest.find("OVER") != std::string::npos || rest.find("BYE") != std::string::npos) { fail(g.name + ": the exit actions run again, shown " + quote(rest)); return; }
                }
                if (s.coin()) g.link->close();
                goods.erase(std::find_if(goods.begin(), goods.end(), [&](auto& x) { return x.get() == &g; }));
                if (!goods.empty()) break;
                if (!serving) { t += " (the last one)"; i = n; break; }
                if (!join(s.chance(1, 5))) { c.inconclusive("no connection"); return; }
                break;
            }
            case 3: // a bad client connects
            {
                if (bads.size() > 5 || !serving) break;
                auto b = s.chance(1, 4) ? Host::tcpClient(port) : host->pairClient();
                if (!b) { c.inconclusive("no connection"); return; }
                bads.push_back(std::move(b));
                t += "\n  a bad client connects";
                break;
            }
            case 4: // and sends
                if (!bads.empty())
                {
                    std::string w;
                    auto b = badBytes(s, w);
                    s.pick(bads)->send(b);
                    t += "\n  bad:" + w + " " + quote(b, 200);
                    ++badActs;
                }
                break;
            case 5: // and goes
                if (!bads.empty())
                {
                    auto& b = s.pick(bads);
                    int domain = 0;
                    socklen_t len = sizeof domain;
                    getsockopt(b->fd, SOL_SOCKET, SO_DOMAIN, &domain, &len);
                    const auto how = s.draw(domain == AF_UNIX ? 4 : 3); // a TCP connection would go on taking data without limit
                    ++badActs;
                    t += how == 0 ? "\n  bad: half close" : how == 1 ? "\n  bad: close" : how == 2 ? "\n  bad: reset" : "\n  bad: stops receiving";
                    if (how == 0) { b->halfClose(); break; }
                    if (how == 3) { shutdown(b->fd, SHUT_RD); break; }
                    if (how == 1) b->close();
                    else b->reset();
                    b.swap(bads.back());
                    bads.pop_back();
                }
                break;
            case 6: // the global stream
            {
                const bool known = s.coin();
                if (known) { host->pump(); connected(); }
                ++tag;
                marks.push_back(tag);
                cli::Cli::cout() << '\x01' << tag << '\x02' << (s.coin() ? "" : "\x01" + std::to_string(tag + 1) + "\x02");
                if (s.chance(1, 3)) cli::Cli::cout() << std::flush;
                t += "\n  global output";
                ++tag;
                break;
            }
            case 7: // a session that is no client
            {
                const auto w = "l" + std::to_string(s.draw(1000));
                t += "\n  local: say " + w;
                local.Feed("say " + w);
                localWant += w + "\n";
                std::vector<int> tags;
                const auto got = withoutTags(localOut.str(), tags);
                if (got != localWant) { fail("the local session shows " + quote(got) + " expected " + quote(localWant)); return; }
                break;
            }
            case 8: // the server goes
                // (clients that wait to be accepted go with it)
                if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                t += "\n  the server is destroyed";
                host->server.reset();
                serving = false;
                c.label("the server destroyed");
                break;
            default: // a good client sends all it has and stops
            {
                auto& g = *s.pick(goods);
                if (g.exited || g.halfClosed || !serving) break;
                if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                std::string b;
                for (auto k = 1 + s.draw(4); k > 0; --k)
                {
                    auto before = tag;
                    auto l = g.talk.next(s, tag);
                    if (tag != before) marks.push_back(tag);
                    b += l.first + enter(s);
                    g.want += l.first + "\n" + l.second + g.talk.prompt();
                }
                g.tagsTo = tag + 1;
                g.halfClosed = true;
                t += "\n  " + g.name + " sends " + quote(b) + " and the end";
                g.link->send(b);
                g.link->halfClose();
                if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
                host->pumpUntil([&] { g.link->receive(); return g.link->closed; }, 4);
                if (!g.link->closed) { fail(g.name + ": the connection is not given up after the end of its input"); return; }
                c.label("half close");
                goods.erase(std::find_if(goods.begin(), goods.end(), [&](auto& x) { return x.get() == &g; }));
                if (goods.empty() && !join(s.chance(1, 5))) { c.inconclusive("no connection"); return; }
                break;
            }
        }
        switch (s.draw(3))
        {
            case 0: break;
            case 1:
                for (auto k = s.draw(6); k > 0; --k)
                {
                    try { host->sched.PollOne(); }
                    catch (const std::exception& e) { host->escaped = e.what(); }
                    catch (...) { host->escaped = "?"; }
                }
                break;
            default: if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
        }
        connected();
    }
    t += "\n  end";
    if (auto p = settle(*host, goods, marks); !p.empty()) { fail(p); return; }
    if (serving)
    {
        // the server accepts
        Good g;
        g.name = "the last client";
        g.link = Host::tcpClient(port);
        if (!g.link) { fail("the server does not accept connections any more"); return; }
        g.want = site.welcome() + "main> say last\nlast\nmain> ";
        g.tagsFrom = 1 << 30;
        g.link->send(std::string("say last\r\0", 10));
        std::vector<std::unique_ptr<Good>> one;
        one.push_back(std::make_unique<Good>(std::move(g)));
        if (auto p = settle(*host, one, marks); !p.empty()) { fail(p); return; }
        one[0]->link->reset();
    }
    else
    {
        // nobody is served any more
        auto l = Host::tcpClient(port);
        if (l)
        {
            host->pump();
            l->receive();
            if (!l->got.empty()) { fail("a destroyed server serves a client: " + quote(l->got)); return; }
        }
    }
    c.note(site.text() + t);
    if (badActs > 1 || !serving) c.nontrivial();
    if (badActs) c.label("bad clients");
    if (s.coin()) { bads.clear(); for (auto& g : goods) g->link->reset(); host->afterEach = nullptr; host->pump(); }
    if (!host->escaped.empty()) fail("an exception leaves the scheduler loop: " + host->escaped);
    host->afterEach = nullptr;
}

// many clients, one after the other and several at a time, with few descriptors: each one must be given up
void churn(Ctx& c)
{
    auto& s = c.src;
    Site site(s);
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(*site.app, 100, s.coin()); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    site.equip(*host->server);
    const auto port = host->port();
    rlimit old{};
    getrlimit(RLIMIT_NOFILE, &old);
    int low = ::dup(0);
    const auto top = static_cast<rlim_t>(low) + 14;
    ::close(low);
    rlimit few{top, old.rlim_max};
    setrlimit(RLIMIT_NOFILE, &few);
    struct Back { rlimit o; ~Back() { setrlimit(RLIMIT_NOFILE, &o); } } back{old};
    std::string t;
    std::vector<std::unique_ptr<Client>> some;
    const auto rounds = 20 + s.draw(40);
    for (std::uint64_t i = 0; i < rounds; ++i)
    {
        Span sp(s);
        const bool tcp = s.chance(1, 4);
        auto l = tcp ? Host::tcpClient(port) : host->pairClient();
        if (!l)
        {
            c.note(t);
            c.fail("no descriptors left after " + std::to_string(i) + " connections, " + std::to_string(some.size()) + " of them open");
            return;
        }
        const auto how = s.draw(7);
        t += " " + std::to_string(how);
        if (s.coin()) host->pump();
        switch (how)
        {
            case 0: l->close(); break;
            case 1: l->reset(); break;
            case 2: l->send("say x" + enter(s)); l->close(); break;
            case 3: l->send("exit" + enter(s)); break;
            case 4: l->send(std::string("\x04\x04")); host->pump(); break;
            case 5: l->halfClose(); break;
            default: l->send("lots" + enter(s)); if (s.coin()) host->pump(); l->reset(); break;
        }
        if (l->fd >= 0) some.push_back(std::move(l));
        host->pump();
        if (some.size() > 3)
        {
            // all of these have ended: the server must close the connection
            for (auto& x : some)
            {
                host->pumpUntil([&] { x->receive(); return x->closed; }, 4);
                if (!x->closed) { c.note(t); c.fail("a connection is not given up; shown " + quote(x->got)); return; }
            }
            some.clear();
        }
        for (int k = 0; k < 50 && host->pump(); ++k) {}
    }
    c.note(site.text() + t);
    VF_REQUIRE(c, host->escaped.empty(), "an exception leaves the scheduler loop: " << host->escaped);
    some.clear();
    c.nontrivial();
}

// a server that has served many clients serves the next one
void longLife(Ctx& c)
{
    auto& s = c.src;
    Site site(s);
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(*site.app, 100, s.coin()); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    site.equip(*host->server);
    const auto port = host->port();
    const auto n = 50 + s.draw(s.chance(1, 4) ? 2000 : 700);
    const auto keep = s.draw(6); // connections that stay
    const auto mix = s.draw(4);  // how they end: all kinds, or always the same way
    c.note(site.text() + std::to_string(n) + " clients, one after the other, ending " + std::to_string(mix) + ", " + std::to_string(keep) + " stay");
    std::vector<std::unique_ptr<Client>> kept;
    const auto want = site.welcome() + "main> ";
    auto shown = [&](Client& l) { l.receive(); return plain(l.got.substr(std::min(l.got.size(), opening().size()))); };
    for (std::uint64_t i = 0; i < n; ++i)
    {
        // on real connections, which the server accepts
        auto l = Host::tcpClient(port);
        if (!l) { c.inconclusive("no connection"); return; }
        if (!host->pumpUntil([&] { return shown(*l) == want; }, 8)) { c.fail("client " + std::to_string(i + 1) + " is not served: it is shown " + quote(l->got)); return; }
        const auto how = mix == 0 ? i * 7 % 5 : mix;
        switch (how)
        {
            case 0: break;
            case 1: l->send("exit" + enter(s)); if (!host->pumpUntil([&] { l->receive(); return l->closed; }, 8)) { c.fail("the connection of client " + std::to_string(i + 1) + " is not closed after exit"); return; } break;
            case 2: l->send(std::string("say x\r\0", 7)); host->pump(); break;
            case 3: l->send("lots" + enter(s)); break;
            default: l->send("say"); host->pump(); break;
        }
        if (kept.size() < keep && i % 50 == 3 && how != 1) kept.push_back(std::move(l));
        else l->reset();
        host->pump();
    }
    for (auto& l : kept)
    {
        host->pump();
        l->receive();
        const auto from = l->got.size();
        l->send(std::string("\r\0say y\r\0", 9));
        const bool ok = host->pumpUntil([&] { l->receive(); return l->got.find("y\r\nmain> ", from) != std::string::npos; }, 8);
        VF_REQUIRE(c, ok, "after " << n << " others, a client that stayed is shown " << quote(l->got.substr(from)));
    }
    VF_REQUIRE(c, host->escaped.empty(), "an exception leaves the scheduler loop: " << host->escaped);
    c.nontrivial();
}

// more clients than the server has descriptors for
void shortage(Ctx& c)
{
    auto& s = c.src;
    Site site(s);
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(*site.app, 100, s.coin()); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    site.equip(*host->server);
    const auto port = host->port();
    host->pump();
    // the clients' own descriptors are out of the way
    const auto n = 3 + s.draw(8), room = 1 + s.draw(3);
    c.note(std::to_string(n) + " clients, room for " + std::to_string(room));
    std::vector<std::unique_ptr<Client>> all;
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), high = fcntl(fd, F_DUPFD_CLOEXEC, 500);
        ::close(fd);
        if (high < 0) { c.inconclusive("no descriptors"); return; }
        if (connect(high, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) { ::close(high); c.inconclusive("no connection"); return; }
        all.push_back(std::make_unique<Client>(high));
    }
    rlimit old{};
    getrlimit(RLIMIT_NOFILE, &old);
    int low = ::dup(0);
    ::close(low);
    rlimit few{static_cast<rlim_t>(low) + room, old.rlim_max};
    setrlimit(RLIMIT_NOFILE, &few);
    struct Back { rlimit o; ~Back() { setrlimit(RLIMIT_NOFILE, &o); } } back{old};
    host->pumpLimit = 300 + s.draw(3000);
    const auto want = site.welcome() + "main> ";
    auto served = [&](Client& l) { l.receive(); return plain(l.got.substr(std::min(l.got.size(), opening().size()))).find(want) == 0; };
    for (int i = 0; i < 4; ++i) host->pump();
    std::size_t k = 0;
    for (auto& l : all) k += served(*l);
    c.label(k < n ? "not all are served at once" : "all are served");
    // those that are served work
    for (auto& l : all)
        if (served(*l))
        {
            const auto from = l->got.size();
            l->send(std::string("say x\r\0", 7));
            for (int i = 0; i < 200 && l->got.find("x\r\nmain> ", from) == std::string::npos; ++i) { host->pump(); l->receive(); }
            VF_REQUIRE(c, l->got.find("say x\r\r\nx\r\nmain> ", from) != std::string::npos, "a client is not served while descriptors are short: " << quote(l->got.substr(from)));
        }
    // as some leave, the others come in
    const bool restore = s.coin();
    if (restore) setrlimit(RLIMIT_NOFILE, &old);
    std::vector<std::unique_ptr<Client>> gone;
    for (auto& l : all)
    {
        for (int i = 0; i < 400 && !served(*l); ++i) { host->pump(); if (i > 100) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
        VF_REQUIRE(c, served(*l), "a client that had to wait is not served, with " << (restore ? "descriptors to spare" : "others gone"));
        l->reset();
        for (int i = 0; i < 3; ++i) host->pump();
    }
    VF_REQUIRE(c, host->escaped.empty(), "an exception leaves the scheduler loop: " << host->escaped);
    c.nontrivial(k < n);
}

// the loop runs in its own thread, while clients come and go
void running(Ctx& c)
{
    auto& s = c.src;
    Site site(s);
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(*site.app, 100, s.coin()); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    site.equip(*host->server);
    const auto port = host->port();
    std::atomic<bool> returned{false};
    std::string escaped;
    std::thread loop([&]
    {
        try { host->sched.Run(); }
        catch (const std::exception& e) { escaped = e.what(); }
        catch (...) { escaped = "?"; }
        returned = true;
    });
    struct End { Host& h; std::thread& t; ~End() { h.sched.Stop(); if (t.joinable()) t.join(); } } end{*host, loop};
    std::string t;
    std::vector<std::unique_ptr<Good>> goods;
    std::vector<std::unique_ptr<Client>> bads;
    auto until = [&](auto f, double seconds = 5)
    {
        const auto e = Clock::now() + std::chrono::duration<double>(seconds);
        for (int i = 0; !f(); ++i)
        {
            for (auto& b : bads) b->receive(); // so that the server never waits for them
            if (Clock::now() > e || returned) return f();
            std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 500));
        }
        return true;
    };
    int tag = 0;
    bool serving = true;
    auto fail = [&](const std::string& p) { c.note(site.text() + t); c.fail((returned ? "(the loop has returned) " : "") + p + (returned && !escaped.empty() ? " exception: " + escaped : "")); };
    auto check = [&](Good& g) { return until([&] { g.link->receive(); return g.problem({}).empty(); }); };
    auto join = [&]
    {
        auto g = std::make_unique<Good>();
        g->link = Host::tcpClient(port);
        if (!g->link) return false;
        g->name = "client " + std::to_string(goods.size() + 1);
        g->want = site.welcome() + "main> ";
        t += "\n  connects";
        goods.push_back(std::move(g));
        return true;
    };
    if (!join()) { fail("the server does not accept"); return; }
    const auto n = 3 + s.draw(20);
    for (std::uint64_t i = 0; i < n && !goods.empty(); ++i)
    {
        Span sp(s);
        switch (s.weighted({5, 20, 3, 12, 15, 15, serving ? 2u : 0u}))
        {
            case 0: if (serving && goods.size() < 4 && !join()) { fail("the server does not accept"); return; } break;
            case 1:
            {
                auto& g = *s.pick(goods);
                auto l = g.talk.next(s, tag);
                t += "\n  " + g.name + ": " + l.first;
                g.want += l.first + "\n" + l.second + g.talk.prompt();
                g.link->send(l.first + enter(s));
                if (!check(g)) { fail(g.name + " " + g.problem({})); return; }
                break;
            }
            case 2:
            {
                auto& g = *s.pick(goods);
                const bool eot = s.coin();
                t += "\n  " + g.name + (eot ? ": EOT" : ": exit");
                g.want += (eot ? "" : "exit\n") + site.goodbye();
                g.exited = true;
                g.link->send(eot ? std::string("\x04") : "exit" + enter(s));
                if (!check(g)) { fail(g.name + " " + g.problem({})); return; }
                goods.erase(std::find_if(goods.begin(), goods.end(), [&](auto& x) { return x.get() == &g; }));
                break;
            }
            case 3:
            {
                if (!serving || bads.size() > 5) break;
                auto b = Host::tcpClient(port);
                if (!b) { fail("the server does not accept"); return; }
                bads.push_back(std::move(b));
                t += "\n  a bad client connects";
                break;
            }
            case 4:
                if (!bads.empty())
                {
                    std::string w;
                    auto b = badBytes(s, w);
                    s.pick(bads)->send(b);
                    t += "\n  bad:" + w + " " + quote(b, 200);
                }
                break;
            case 5:
                if (!bads.empty())
                {
                    auto& b = s.pick(bads);
                    const auto how = s.draw(3);
                    t += how == 0 ? "\n  bad: half close" : how == 1 ? "\n  bad: close" : "\n  bad: reset";
                    if (how == 0) { b->halfClose(); break; }
                    if (how == 1) b->close();
                    else b->reset();
                    b.swap(bads.back());
                    bads.pop_back();
                }
                break;
            default:
            {
                for (auto& g : goods) if (!check(*g)) { fail(g->name + " " + g->problem({})); return; }
                t += "\n  the server is destroyed";
                std::atomic<bool> done{false};
                host->sched.Post([&] { host->server.reset(); done = true; });
                if (!until([&] { return done.load(); })) { fail("a posted task does not run"); return; }
                serving = false;
                break;
            }
        }
        if (s.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(300)));
    }
    t += "\n  end";
    for (auto& g : goods) if (!check(*g)) { fail(g->name + " " + g->problem({})); return; }
    if (serving)
    {
        if (!join()) { fail("the server does not accept"); return; }
        auto& g = *goods.back();
        g.link->send("say z" + enter(s));
        g.want += "say z\nz\nmain> ";
        if (!check(g)) { fail(g.name + " " + g.problem({})); return; }
    }
    if (returned) { fail("the loop ends"); return; }
    c.note(site.text() + t);
    if (n > 5) c.nontrivial();
    for (auto& g : goods) g->link->reset();
}

// a client that never receives what it is sent
void neverReceives(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("main");
    const auto size = 20000000 + 1000000 * s.draw(10);
    root->Insert("big", [&](std::ostream& o) { o << std::string(size, 'x') << '\n'; });
    root->Insert("say", [](std::ostream& o, const std::string& t) { o << t << "\n"; });
    cli::Cli app(std::move(root));
    std::unique_ptr<Host> host;
    try { host = std::make_unique<Host>(app); }
    catch (const std::exception&) { c.inconclusive("no port"); return; }
    auto mute = Host::tcpClient(host->port()), other = Host::tcpClient(host->port());
    if (!mute || !other) { c.inconclusive("no connection"); return; }
    host->pumpUntil([&] { other->receive(); return other->got.size() > opening().size() + 5; });
    c.note("a client asks for " + std::to_string(size) + " bytes and never receives them");
    mute->send(std::string("big\r\0", 5));
    other->send(std::string("say hello\r\0", 11));
    // lets go of the server when it is stuck
    std::atomic<bool> answered{false}, stuck{false};
    std::thread guard([&]
    {
        const auto e = Clock::now() + std::chrono::seconds(3);
        while (!answered && Clock::now() < e) std::this_thread::sleep_for(std::chrono::milliseconds(5));
        if (!answered) { stuck = true; mute->reset(); }
    });
    host->pumpUntil([&] { other->receive(); return other->got.find("\nhello\r\n") != std::string::npos || stuck; }, 6);
    answered = !stuck && other->got.find("\nhello\r\n") != std::string::npos;
    const bool ok = answered;
    answered = true;
    guard.join();
    c.nontrivial();
    VF_REQUIRE(c, ok, "another client is not served while the server waits for one that does not receive its output");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C22";
    su.rule = "random histories of well behaved clients, whose output must be exactly the expected one, and clients that send arbitrary bytes, exit repeatedly, close, reset, stop half way, at any moment of the server's work, over TCP "
              "and socket pairs; output on the global stream; destruction of the server; descriptors running short; also with the loop running in its own thread. Non-trivial: two acts of bad clients, or the server destroyed.";
    su.resetGlobals = [] { signal(SIGPIPE, SIG_DFL); world::resetLibraryState(); auto& o = cli::Cli::cout(); o.clear(); };
    su.props = {
        {"clients", clients, 6000, 200000, 2, 30},
        {"churn", churn, 2500, 40000, 2, 30},
        {"long-life", longLife, 24, 1200, 2, 60},
        {"shortage", shortage, 400, 6000, 2, 30},
        {"running", running, 600, 20000, 5, 30},
        {"never-receives", neverReceives, 1, 2, 1, 30, 1},
    };
    return su;
}
