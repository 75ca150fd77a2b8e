// C20 Telnet input acts like the same keys typed, however it is segmented
#include "app.h"
#include "telnet.h"

using namespace vf;
using app::App;
using app::collect;
using app::genLine;
using app::genNode;
using app::Node;
using cli::detail::KeyType;
using editor::Keys;
using editor::Queue;
using namespace telnet;

namespace
{

using K = std::pair<KeyType, char>;

std::string keyName(const K& k)
{
    return editor::Key{k.first, k.second}.text();
}

// the bytes of a key
std::string bytesOf(Src& s, const K& k)
{
    switch (k.first)
    {
        case KeyType::ascii: return std::string(1, k.second);
        case KeyType::ret: return s.coin() ? std::string("\r\0", 2) : std::string("\r\n");
        case KeyType::backspace: return s.coin() ? "\x7f" : "\x08";
        case KeyType::canc: return "\x1b[3~";
        case KeyType::up: return "\x1b[A";
        case KeyType::down: return "\x1b[B";
        case KeyType::right: return "\x1b[C";
        case KeyType::left: return "\x1b[D";
        case KeyType::home: return "\x1b[H";
        case KeyType::end: return "\x1b[F";
        case KeyType::clear: return "\x0c";
        case KeyType::eof: return "\x04";
        case KeyType::ignored: // a sequence that is no key
        {
            auto ch = static_cast<char>(32 + s.draw(95));
            return std::string("\x1b") + (ch == '[' || ch == 'O' ? '\x1b' : ch);
        }
        default: return "";
    }
}

std::vector<K> genKeys(Ctx& c, const std::vector<std::pair<std::string, const Node*>>& all, std::size_t max)
{
    auto& s = c.src;
    std::vector<K> keys;
    std::string t;
    const auto n = s.size(max);
    for (std::size_t j = 0; j < n; ++j)
    {
        Span sp(s);
        switch (s.draw(6))
        {
            case 0: case 1: case 2:
            {
                auto l = genLine(s, all);
                if (s.chance(1, 10)) l += static_cast<char>(128 + s.draw(127));
                t += quote(l);
                for (char ch : l) keys.emplace_back(KeyType::ascii, ch);
                if (s.chance(3, 4)) { t += " ENTER "; keys.emplace_back(KeyType::ret, ' '); }
                break;
            }
            case 3: t += " TAB "; keys.emplace_back(KeyType::ascii, '\t'); break;
            case 4: { const auto ch = static_cast<char>(32 + s.draw(95)); t += ch; keys.emplace_back(KeyType::ascii, ch); break; }
            default:
            {
                static const std::vector<KeyType> ks = {KeyType::up, KeyType::down, KeyType::left, KeyType::left, KeyType::right, KeyType::backspace, KeyType::canc, KeyType::home,
                    KeyType::end, KeyType::ret, KeyType::clear, KeyType::ignored};
                K k{s.pick(ks), ' '};
                t += " " + keyName(k) + " ";
                keys.push_back(k);
                break;
            }
        }
    }
    if (s.chance(1, 6)) { keys.emplace_back(KeyType::eof, ' '); t += " EOT"; }
    c.note(t);
    return keys;
}

// how bytes are cut into packets, and between which of them the server runs
std::vector<std::string> cut(Src& s, const std::string& bytes, std::string& text)
{
    std::vector<std::string> r;
    const auto how = s.draw(5);
    text = how == 0 ? "one packet" : how == 1 ? "byte by byte" : how == 2 ? "small packets" : how == 3 ? "packets" : "large packets";
    std::size_t at = 0;
    while (at < bytes.size())
    {
        std::size_t n = bytes.size();
        if (how == 1) n = 1;
        else if (how == 2) n = 1 + s.draw(4);
        else if (how == 3) n = 1 + s.draw(40);
        else if (how == 4) n = 1000 + s.draw(100);
        n = std::min(n, bytes.size() - at);
        r.push_back(bytes.substr(at, n));
        at += n;
    }
    return r;
}

struct Outcome
{
    std::string text;      // shown, telnet commands taken out
    std::vector<std::string> commands;
    bool closed = false;
    std::string log;
    std::string problem;
};

Outcome overTelnet(Src& s, const Node& tree, const std::vector<std::string>& stored, std::size_t history, const std::vector<std::string>& packets, bool real, bool lazy, const Outcome* expected = nullptr, std::size_t nReplies = 0)
{
    Outcome o;
    App app(tree, stored);
    Host host(*app.cli, history);
    auto client = real ? Host::tcpClient(host.port()) : host.pairClient();
    if (!client) { o.problem = "inconclusive: no connection"; return o; }
    host.afterEach = [&] { client->receive(); };
    std::size_t sent = 0;
    for (auto& p : packets)
    {
        if (!client->send(p)) break; // closed by the server
        sent += p.size();
        if (!lazy || s.chance(1, 3))
        {
            if (real) host.pumpUntil([] { return true; });
            else host.pump();
            client->receive();
        }
    }
    if (real) // what is written can take its time
        host.pumpUntil([&]
        {
            client->receive();
            std::vector<std::string> cmds;
            auto t = client->got.substr(std::min(client->got.size(), opening().size()));
            return plain(withoutCommands(t, cmds)) == expected->text && cmds.size() == nReplies && client->closed == expected->closed;
        }, 3);
    host.pump();
    client->receive();
    auto got = client->got;
    if (got.compare(0, opening().size(), opening()) == 0) got.erase(0, opening().size());
    o.text = plain(withoutCommands(got, o.commands));
    o.closed = client->closed;
    o.log = app.log;
    if (!host.escaped.empty()) o.problem = "an exception leaves the scheduler loop: " + host.escaped;
    host.afterEach = nullptr;
    client.reset();
    host.pump();
    return o;
}

Outcome locally(const Node& tree, const std::vector<std::string>& stored, std::size_t history, const std::vector<K>& keys, std::size_t& used)
{
    Outcome o;
    App app(tree, stored);
    std::ostringstream out;
    Queue q;
    bool over = false;
    cli::CliSession session(*app.cli, out, history);
    session.ExitAction([&](std::ostream&) { over = true; });
    Keys dev(q);
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> processor(session, dev);
    session.Enter();
    session.Prompt();
    used = 0;
    for (auto& k : keys)
    {
        if (over) break; // what follows the end of the session is not specified
        dev.press(k.first, k.second);
        q.drain();
        ++used;
    }
    o.text = plain(out.str());
    o.closed = over;
    o.log = app.log;
    return o;
}

std::string treeText(const std::vector<std::pair<std::string, const Node*>>& all)
{
    std::string t;
    for (auto& p : all) t += p.first + (p.second->menu ? "/" : ":" + std::to_string(p.second->kind)) + ", ";
    return t;
}

void keys(Ctx& c, bool real)
{
    auto& s = c.src;
    int budget = 10;
    auto tree = genNode(s, 0, budget);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    c.note("tree: " + treeText(all));
    std::vector<std::string> stored;
    for (std::uint64_t i = 0, n = s.draw(4); i < n; ++i) stored.push_back(genLine(s, all));
    const auto history = s.coin() ? 100 : static_cast<std::size_t>(s.draw(5));
    auto ks = genKeys(c, all, s.chance(1, 10) ? 150 : 20);
    std::size_t used = 0;
    const auto want = locally(tree, stored, history, ks, used);
    ks.resize(used);
    // the bytes, with protocol elements anywhere in between
    std::string bytes;
    std::vector<std::string> replies;
    const auto noisy = s.draw(3);
    std::size_t elements = 0;
    auto maybe = [&]
    {
        if (noisy == 0 || !s.chance(noisy == 1 ? 1 : 4, 12)) return;
        std::string r;
        bytes += noise(s, &r, true);
        ++elements;
        if (!r.empty()) replies.push_back(r);
    };
    for (auto& k : ks)
        for (char ch : bytesOf(s, k)) { maybe(); bytes += ch; }
    if (!want.closed) maybe();
    std::string how;
    auto packets = cut(s, bytes, how);
    const bool lazy = s.chance(1, 3);
    c.note(how + (lazy ? ", the server runs now and then" : "") + ", " + std::to_string(elements) + " protocol elements: " + quote(bytes, 3000));
    auto got = overTelnet(s, tree, stored, history, packets, real, lazy, &want, replies.size());
    if (got.problem.find("inconclusive") == 0) { c.inconclusive(got.problem); return; }
    VF_REQUIRE(c, got.problem.empty(), got.problem);
    VF_REQUIRE(c, got.log == want.log, "handlers called: " << quote(got.log, 2000) << ", by the local editor: " << quote(want.log, 2000));
    VF_REQUIRE(c, got.text == want.text, "the client is shown " << quote(got.text, 3000) << "\nby the local editor: " << quote(want.text, 3000));
    VF_REQUIRE(c, got.closed == want.closed, "the connection is " << (got.closed ? "" : "not ") << "closed");
    VF_REQUIRE(c, got.commands == replies, "answers " << commandText(got.commands) << " expected " << commandText(replies));
    c.label(how);
    if (bytes.size() > 1024) c.label("more than 1024 bytes");
    if (ks.size() > 5) c.nontrivial();
}

// any bytes whatsoever: the same however they are cut and whatever protocol elements are added
void bytes(Ctx& c)
{
    auto& s = c.src;
    int budget = 8;
    auto tree = genNode(s, 0, budget);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    c.note("tree: " + treeText(all));
    // single bytes and protocol elements; elements marked as units so that more can be put between
    std::vector<std::string> units;
    const auto n = s.size(s.chance(1, 10) ? 500 : 60);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        switch (s.draw(8))
        {
            case 0: case 1:
            {
                auto l = genLine(s, all);
                if (l == "exit") l = "";
                for (char ch : l) units.push_back(std::string(1, ch));
                break;
            }
            case 2: units.push_back("\r"); if (s.chance(3, 4)) units.push_back(s.coin() ? "\n" : std::string(1, '\0')); break;
            case 3: units.push_back("\x1b"); if (s.chance(3, 4)) units.push_back("["); if (s.chance(3, 4)) units.push_back(std::string(1, "ABCDFH35126"[s.draw(11)])); if (s.coin()) units.push_back("~"); break;
            case 4: units.push_back(noise(s, nullptr, true)); break;
            default:
            {
                auto ch = static_cast<char>(s.draw(255)); // not 255
                if (ch == 4 || ch == 'e') ch = 'a';        // nothing that ends the session
                units.push_back(std::string(1, ch));
                break;
            }
        }
    }
    std::string a, b;
    std::vector<std::string> replies; // to what is added
    for (auto& u : units)
    {
        if (s.chance(1, 20)) { std::string r; b += noise(s, &r, false); }
        a += u;
        b += u;
    }
    std::string how[2];
    const auto pa = cut(s, a, how[0]);
    const bool same = s.coin();
    const auto pb = cut(s, same ? a : b, how[1]);
    const bool lazyA = s.chance(1, 3), lazyB = s.chance(1, 3);
    c.note(how[0] + ", " + how[1] + (same ? "" : ", with protocol elements added") + ": " + quote(same ? a : b, 3000));
    auto x = overTelnet(s, tree, {}, 100, pa, false, lazyA), y = overTelnet(s, tree, {}, 100, pb, false, lazyB);
    VF_REQUIRE(c, x.problem.empty() && y.problem.empty(), x.problem << y.problem);
    VF_REQUIRE(c, x.log == y.log, "handlers called: " << quote(x.log, 2000) << " and " << quote(y.log, 2000));
    VF_REQUIRE(c, x.text == y.text, "the client is shown " << quote(x.text, 3000) << "\nand " << quote(y.text, 3000));
    VF_REQUIRE(c, x.closed == y.closed, "the connection is closed in one of the two cases");
    VF_REQUIRE(c, x.commands == y.commands, "answers " << commandText(x.commands) << " and " << commandText(y.commands));
    VF_REQUIRE(c, !x.closed, "the connection is closed");
    if (a.size() > 5) c.nontrivial();
}

// a doubled IAC is a data byte of value 255: a character, or (as on the local keyboard) the end of input
void doubledIac(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("cli");
    std::vector<std::string> said;
    root->Insert("say", [&](std::ostream&, const std::string& t) { said.push_back(t); });
    cli::Cli app(std::move(root));
    Host host(app);
    auto client = host.pairClient();
    host.afterEach = [&] { client->receive(); };
    std::string bytes = "say a", data = "a";
    const auto n = 1 + s.draw(3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        if (s.chance(1, 3)) bytes += noise(s, nullptr, false);
        bytes += "\xff\xff";
        data += '\xff';
        if (s.coin()) { bytes += "\xfb"; data += '\xfb'; } // would be a command after a single one
    }
    bytes += "z\r";
    bytes += '\0';
    data += "z";
    std::string how;
    auto packets = cut(s, bytes, how);
    c.note(how + ": " + quote(bytes));
    for (auto& p : packets) { if (!client->send(p)) break; host.pump(); client->receive(); }
    host.pump();
    client->receive();
    VF_REQUIRE(c, host.escaped.empty(), "an exception leaves the scheduler loop: " << host.escaped);
    const bool ended = client->closed;
    if (!ended) VF_REQUIRE(c, said == std::vector<std::string>{data}, "the command got " << show(said) << " expected " << quote(data));
    c.label(ended ? "end of input" : "a character");
    c.nontrivial();
}

// lines do the same as in a session that is given the lines
void lines(Ctx& c)
{
    auto& s = c.src;
    int budget = 12;
    auto tree = genNode(s, 0, budget);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    c.note("tree: " + treeText(all));
    App ref(tree, {});
    std::ostringstream out;
    cli::CliSession session(*ref.cli, out, 100);
    bool over = false;
    session.ExitAction([&](std::ostream&) { over = true; });
    std::string bytes, t;
    const auto n = s.size(s.chance(1, 10) ? 200 : 20);
    std::vector<std::string> results;
    for (std::size_t i = 0; i < n && !over; ++i)
    {
        Span sp(s);
        auto l = genLine(s, all);
        t += quote(l) + " ";
        session.Feed(l);
        for (char ch : l) { bytes += ch; if (s.chance(1, 30)) bytes += noise(s, nullptr, false); }
        bytes += s.coin() ? std::string("\r\0", 2) : std::string("\r\n");
    }
    c.note(t);
    std::string how;
    auto packets = cut(s, bytes, how);
    c.note(how);
    auto got = overTelnet(s, tree, {}, 100, packets, false, s.coin());
    VF_REQUIRE(c, got.problem.empty(), got.problem);
    VF_REQUIRE(c, got.log == ref.log, "handlers called: " << quote(got.log, 2000) << " expected " << quote(ref.log, 2000));
    VF_REQUIRE(c, got.closed == over, "the connection is " << (got.closed ? "" : "not ") << "closed");
    if (n > 3) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C20";
    su.rule = "random menu trees, keys, lines and arbitrary bytes sent to a telnet session, cut into packets at random, with telnet commands, requests and subnegotiations between any two bytes: compared with the local line "
              "editor given the same keys, with a session given the same lines, and with the same bytes cut in another way. Non-trivial: more than five keys or bytes, or three lines.";
    su.resetGlobals = world::resetLibraryState;
    su.props = {
        {"keys", [](Ctx& c) { keys(c, false); }, 40000, 600000, 0, 20},
        {"keys-tcp", [](Ctx& c) { keys(c, true); }, 1500, 20000, 2, 20},
        {"bytes", bytes, 25000, 400000, 0, 20},
        {"doubled-iac", doubledIac, 2000, 20000, 0, 20},
        {"lines", lines, 20000, 300000, 0, 20},
    };
    return su;
}
