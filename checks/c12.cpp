// C12 History numbers are stable and '!' re-executes exactly that entry
#include "world.h"

#include <map>

using namespace vf;
using namespace world;

namespace
{

void run(Ctx& c, bool plain, bool chains = false)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 3;
    cfg.maxEntries = 4;
    cfg.maxTotal = 8;
    if (plain) cfg.maxTotal = 3;
    w.genTree(cfg);
    // what commands do must happen again, at that moment: some fail, some change the menus
    for (auto& e : w.entries)
        if (!e.isMenu && s.chance(1, 4))
        {
            Act a;
            a.kind = s.chance(1, 2) ? Act::throwIt : Act::print;
            a.n = static_cast<int>(s.draw(12));
            a.text = "text";
            e.acts.push_back(a);
        }
    w.customWrong = w.customExc = true;
    const bool deep = chains && s.chance(1, 100);
    const auto stored = s.draw(3) == 0 ? s.draw(20) : s.draw(3);
    if (chains) // entries that lead to each other over many steps
        for (std::uint64_t i = 0, n = deep ? 60 + s.draw(340) : 5 + s.draw(60); i < n; ++i)
        {
            static const Words ends = {"one", "nothing here", "boom", "history", "! 99999"};
            const auto back = i - s.draw(std::min<std::uint64_t>(i, 3));
            std::string l = i == 0 || s.chance(1, deep ? 200 : 10) ? (w.entries.size() > 1 && s.coin() ? w.entries[1 + s.draw(w.entries.size() - 1)].name : s.pick(ends)) : s.chance(1, deep ? 500 : 30) ? "! " + std::to_string(i + s.draw(3)) : "! " + std::to_string(back - 1);
            w.modelStore.push_back(l);
        }
    else
    for (std::uint64_t i = 0; i < stored; ++i) w.modelStore.push_back(s.chance(1, 3) ? "! " + std::to_string(s.draw(8)) : "stored" + std::to_string(s.draw(6)));
    c.note("stored " + vf::show(w.modelStore));
    w.makeCli();
    static const std::size_t sizes[] = {4, 0, 1, 2, 3, 6, 10, 100};
    const auto size = deep ? 100 + s.draw(400) : chains ? 20 + s.draw(80) : sizes[s.draw(8)];
    c.note("history size " + std::to_string(size));
    w.addSession(size);
    auto& x = w.sessions[0];
    const bool big = s.chance(1, 50);
    const auto n = s.chance(1, 1500) ? 900 + s.draw(300) : 1 + (big ? s.draw(250) : s.size(40));
    int reruns = 0;
    std::string current; // the line being edited
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        switch (s.weighted({30, 14, 14, 8, 8, 4}))
        {
            case 0: current = s.chance(1, 3) ? "word" + std::to_string(s.draw(5)) : w.genLine(0, cfg); break;
            case 1: // a number around what is there
            {
                auto k = static_cast<long long>(x.hist.firstId) + s.range(0, static_cast<long long>(x.hist.v.size()) + 3) - 2;
                current = "! " + std::to_string(k < 0 ? 0 : k);
                break;
            }
            case 2: // one that is there
                if (x.hist.v.empty()) current = "! 0";
                else current = "! " + std::to_string(x.hist.firstId + s.draw(x.hist.v.size()));
                break;
            case 3:
            {
                static const Words odd = {"! 4294967295", "! 4294967296", "! 99999999999999999999", "! -1", "!", "! x", "!0", "! 1 2", "!!", "! 1000000", "'!' 1", "!\"1\"", "! +1", "  ! 0 ", "! 0000001", "! \"\" 0"};
                current = s.pick(odd);
                break;
            }
            case 4: // browse, then maybe enter what is there
                for (std::uint64_t k = 0, m = 1 + s.draw(3); k < m; ++k)
                {
                    c.note("up with " + quote(current));
                    auto want = x.hist.up(current);
                    auto got = x.s->PreviousCmd(current);
                    // C11 judges what browsing gives; here only what it leaves behind
                    if (want != got) { c.label("browsing differs"); return; }
                    current = got;
                }
                if (s.coin()) continue;
                break;
            default: current = s.coin() ? "" : " "; break;
        }
        c.note(quote(current));
        if (current == "exit") continue;
        const bool browsing = x.hist.browsing;
        w.feed(0, current);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (w.info.rerun) { ++reruns; c.label("re-executed"); }
        if (w.info.histError) c.label("reported number");
        if (browsing) c.label("entered while browsing");
        auto want = only(w.expected, {"call", "wrong", "exc"});
        auto got = only(w.log, {"call", "wrong", "exc", "escaped"});
        // the error of a number names the line in a way that is not specified
        for (auto& e : want) if (e.text == "*") e.text = "*";
        VF_REQUIRE(c, got == want, "line " << quote(current) << " with history " << World::show(x.hist.listing()) << ": happened " << show(got) << " expected " << show(want));
        x.take();
        if (x.exited) break;
        if (s.chance(1, 3)) { w.feed(0, "history"); c.note("\"history\""); }
        else x.s->ShowHistory();
        auto list = World::parseHistory(x.take());
        VF_REQUIRE(c, list == x.hist.listing(), "after line " << quote(current) << " the history is " << World::show(list) << " expected " << World::show(x.hist.listing()));
        x.s->Prompt();
        auto p = x.take();
        VF_REQUIRE(c, p == w.modelPrompt(0), "after line " << quote(current) << " the prompt is " << quote(p) << " expected " << quote(w.modelPrompt(0)));
        current.clear();
    }
    if (reruns) c.nontrivial();
}

// a session created without a size keeps 100 commands
void defaultSize(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    std::vector<std::string> calls;
    root->Insert("c", [&](std::ostream&, const std::string& t) { calls.push_back(t); });
    Words stored;
    const auto loaded = s.chance(1, 2) ? s.draw(130) : 0;
    for (std::uint64_t i = 0; i < loaded; ++i) stored.push_back("c old" + std::to_string(i));
    auto st = std::make_unique<cli::VolatileHistoryStorage>(500);
    st->Store(stored);
    cli::Cli app(std::move(root), std::move(st));
    std::ostringstream out;
    cli::CliSession session(app, out);
    Hist h; h.max = 100; h.load(stored);
    auto n = s.chance(1, 4) ? s.draw(250) : 90 + s.draw(25);
    c.note(std::to_string(loaded) + " commands loaded, " + std::to_string(n) + " entered");
    for (std::uint64_t i = 0; i < n; ++i)
    {
        auto l = "c " + std::to_string(s.chance(1, 20) ? i / 2 : i);
        session.Feed(l);
        h.enter(l);
    }
    out.str("");
    session.ShowHistory();
    auto list = World::parseHistory(out.str());
    VF_REQUIRE(c, list == h.listing(), "the history of a session of default size is " << World::show(list) << " expected " << World::show(h.listing()));
    if (loaded + n > 100) c.nontrivial();
}

// numbers keep growing
void highNumbers(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    std::string called;
    root->Insert("c", [&](std::ostream&, const std::string& t) { called = "c " + t; });
    cli::Cli app(std::move(root));
    std::ostringstream out;
    const auto max = s.draw(40);
    cli::CliSession session(app, out, max);
    Hist h; h.max = max;
    std::uint64_t entered = 0;
    std::string t = "size " + std::to_string(max) + ":";
    const std::vector<std::uint64_t> marks = {s.draw(3) * 128, 256, 10000, 32768, 65536};
    for (auto mark : marks)
    {
        const auto goal = mark + s.draw(60);
        for (; entered < goal; ++entered)
        {
            const auto l = "c " + std::to_string(entered);
            session.Feed(l);
            h.enter(l);
        }
        t += " " + std::to_string(goal);
        c.note(t);
        std::vector<std::uint64_t> ids = {h.firstId + h.v.size() + s.draw(3), h.firstId + 65536, h.firstId - 1, h.firstId - 65536};
        for (auto n = 1 + s.draw(4); n > 0; --n) ids.push_back(h.firstId + s.draw(h.v.size() + 1));
        for (auto id : ids)
        {
            if (id > 1000000000) continue; // below 0
            const auto l = "! " + std::to_string(id);
            called.clear();
            session.Feed(l);
            h.enter(l);
            h.forget();
            const auto text = h.retains(id) ? h.at(id) : std::string();
            VF_REQUIRE(c, called == text, "entry " << id << " (" << quote(text) << ") runs " << quote(called));
            if (!text.empty()) h.enter(text);
        }
        out.str("");
        session.ShowHistory();
        auto list = World::parseHistory(out.str());
        VF_REQUIRE(c, list == h.listing(), "after " << entered << " commands the history is " << World::show(list) << " expected " << World::show(h.listing()));
        out.str("");
    }
    c.nontrivial();
}

// the exception handler of the application fails too: an entry works as the same line typed, again and again
void failingHandler(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    std::vector<std::string> calls;
    root->Insert("c", [&](std::ostream&, const std::string& t) { calls.push_back("c " + t); });
    root->Insert("boom", [&](std::ostream&, const std::string& t) { calls.push_back("boom " + t); throw std::runtime_error(t); });
    cli::Cli app(std::move(root));
    const int fails = static_cast<int>(s.draw(3)); // 0: never, 1: another exception, 2: the same
    app.StdExceptionHandler([&](std::ostream&, const std::string&, const std::exception& e)
    {
        calls.push_back(std::string("report ") + e.what());
        if (fails == 1) throw std::logic_error("handler");
        if (fails == 2) throw;
    });
    std::ostringstream out;
    cli::CliSession session(app, out, 30);
    Hist h; h.max = 30;
    // what the line did, and what came out
    auto feed = [&](const std::string& l)
    {
        calls.clear();
        try { session.Feed(l); }
        catch (const std::exception& e) { calls.push_back(std::string("escaped ") + e.what()); }
        catch (...) { calls.push_back("escaped"); }
        return calls;
    };
    std::vector<std::string> typed = {"c a", "c b", "boom x", "boom y"};
    std::map<std::string, std::vector<std::string>> did;
    std::string t;
    int reruns = 0;
    for (auto n = 3 + s.draw(20); n > 0; --n)
    {
        Span sp(s);
        if (h.v.empty() || s.coin())
        {
            const auto& l = s.pick(typed);
            t += quote(l) + " ";
            h.enter(l);
            auto d = feed(l);
            auto want = did.emplace(l, d).first->second;
            c.note(t);
            VF_REQUIRE(c, d == want, "entered again, " << quote(l) << " does " << vf::show(d) << ", before " << vf::show(want));
            VF_REQUIRE(c, !d.empty() && d[0] == l, "the command " << quote(l) << " does not run: " << vf::show(d));
        }
        else
        {
            const auto i = s.draw(h.v.size());
            const auto id = h.firstId + i;
            const auto l = h.listing()[static_cast<std::size_t>(i)].second;
            t += "! " + std::to_string(id) + " ";
            c.note(t);
            h.enter(l);
            auto d = feed("! " + std::to_string(id));
            // a further report, of what the exception handler threw, is possible
            auto want = did[l];
            want.erase(std::remove_if(want.begin(), want.end(), [](const std::string& x) { return x.compare(0, 7, "escaped") == 0; }), want.end());
            VF_REQUIRE(c, d.size() >= want.size() && std::equal(want.begin(), want.end(), d.begin()), "entry " << id << " (" << quote(l) << ") does " << vf::show(d) << ", typed it did " << vf::show(did[l]));
            ++reruns;
        }
        out.str("");
        session.ShowHistory();
        auto list = World::parseHistory(out.str());
        VF_REQUIRE(c, list == h.listing(), "the history is " << World::show(list) << " expected " << World::show(h.listing()));
    }
    if (fails && reruns) c.nontrivial();
}

// histories of thousands of entries, partly from the storage
void longHistory(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    std::string called;
    root->Insert("c", [&](std::ostream&, const std::string& t) { called = "c " + t; });
    static const std::size_t sizes[] = {5000, 256, 300, 501, 1000, 1001, 2000, 3000};
    const auto max = s.coin() ? sizes[s.draw(8)] : 100 + s.draw(5000);
    Hist h; h.max = max;
    auto store = std::make_unique<cli::VolatileHistoryStorage>(10000);
    const auto stored = s.coin() ? s.draw(6000) : 0;
    std::vector<std::string> old;
    for (std::uint64_t i = 0; i < stored; ++i) old.push_back("c old" + std::to_string(i));
    store->Store(old);
    h.load(old);
    cli::Cli app(std::move(root), std::move(store));
    std::ostringstream out;
    cli::CliSession session(app, out, max);
    std::uint64_t entered = 0;
    std::string t = "size " + std::to_string(max) + ", " + std::to_string(stored) + " stored:";
    for (auto rounds = 1 + s.draw(3); rounds > 0; --rounds)
    {
        Span sp(s);
        for (auto n = s.draw(2 * max); n > 0; --n)
        {
            const auto l = "c " + std::to_string(entered++);
            session.Feed(l);
            h.enter(l);
        }
        t += " " + std::to_string(entered);
        c.note(t);
        std::vector<std::uint64_t> ids = {h.firstId, h.firstId + h.v.size(), h.firstId - 1};
        for (auto n = 1 + s.draw(6); n > 0; --n) ids.push_back(h.firstId + s.draw(h.v.size() + 2));
        for (auto id : ids)
        {
            if (id > 1000000000) continue; // below 0
            const auto l = "! " + std::to_string(id);
            called.clear();
            session.Feed(l);
            h.enter(l);
            h.forget();
            const auto text = h.retains(id) ? h.at(id) : std::string();
            VF_REQUIRE(c, called == (text == "history" ? "" : text), "entry " << id << " (" << quote(text) << ") runs " << quote(called));
            if (!text.empty()) h.enter(text);
        }
        out.str("");
        session.Feed("history");
        h.enter("history");
        auto list = World::parseHistory(out.str());
        const auto want = h.listing();
        VF_REQUIRE(c, list.size() == want.size(), "the listing has " << list.size() << " entries, expected " << want.size());
        for (std::size_t i = 0; i < list.size(); ++i)
            VF_REQUIRE(c, list[i] == want[i], "the listing says " << list[i].first << " " << quote(list[i].second) << " expected " << want[i].first << " " << quote(want[i].second));
        out.str("");
    }
    c.nontrivial(h.v.size() > 100);
    c.label(h.v.size() > 1000 ? "more than 1000 entries" : "up to 1000 entries");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C12";
    su.rule = "sequences of lines (commands, wrong ones, blanks, repeated ones, '!' with numbers retained, dropped, not yet given, huge, malformed, referring to each other in cycles and long chains, also loaded from the storage) and "
              "browsing, with history sizes 0 to 100; after each the calls, reports, prompt and the numbered listing are compared with a reference history. Sessions of the default size (100) are filled near and over it. Numbers up to 65536 and more, histories of thousands of entries. Exception handlers that throw. Non-trivial: an entry was re-executed, or the default size was exceeded.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"menus", [](Ctx& c) { run(c, false); }, 30000, 800000, 0, 20},
        {"plain", [](Ctx& c) { run(c, true); }, 30000, 800000, 0, 20},
        {"chains", [](Ctx& c) { run(c, true, true); }, 6000, 160000, 0, 20},
        {"default-size", defaultSize, 200, 4000, 0, 20},
        {"long", longHistory, 250, 5000, 0, 20},
        {"high-numbers", highNumbers, 30, 600, 0, 20},
        {"failing-handler", failingHandler, 3000, 60000, 0, 20},
    };
    return su;
}
