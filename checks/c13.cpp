// C13 A session's commands, and only those, reach the shared history on exit
#include "world.h"

#include <cli/volatilehistorystorage.h>
#include <cli/filehistorystorage.h>

#include <unistd.h>

using namespace vf;
using namespace world;

namespace
{

// passes on to a storage of the library, and records what is stored
struct Forward : cli::HistoryStorage
{
    explicit Forward(std::unique_ptr<cli::HistoryStorage> b) : base(std::move(b)) {}
    void Store(const std::vector<std::string>& v) override { if (onStore) onStore(v); base->Store(v); }
    std::vector<std::string> Commands() const override { return base->Commands(); }
    void Clear() override { base->Clear(); }
    std::unique_ptr<cli::HistoryStorage> base;
    std::function<void(const std::vector<std::string>&)> onStore;
};

void run(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 2;
    cfg.maxEntries = 3;
    cfg.maxTotal = 6;
    w.genTree(cfg);
    // commands that end the session, or fail
    for (auto& e : w.entries)
        if (!e.isMenu && s.chance(1, 3))
        {
            Act a;
            a.kind = s.coin() ? Act::throwIt : Act::exitSession;
            a.n = static_cast<int>(s.draw(12));
            a.text = "text";
            e.acts.push_back(a);
        }
    w.customWrong = w.customExc = true;
    static const std::size_t caps[] = {1000, 5, 1, 2, 10, 100};
    w.modelStoreMax = caps[s.draw(6)];
    const auto kind = s.draw(3);
    const std::string file = "history." + std::to_string(getpid());
    unlink(file.c_str());
    std::unique_ptr<cli::HistoryStorage> base;
    if (kind == 1) base = std::make_unique<cli::VolatileHistoryStorage>(w.modelStoreMax);
    if (kind == 2) base = std::make_unique<cli::FileHistoryStorage>(file, w.modelStoreMax);
    c.note(std::string(kind == 0 ? "own storage" : kind == 1 ? "volatile storage" : "file storage") + " of " + std::to_string(w.modelStoreMax));
    cli::HistoryStorage* storage = nullptr;
    if (base)
    {
        auto f = std::make_unique<Forward>(std::move(base));
        f->onStore = [&](const std::vector<std::string>& v) { w.log.push_back({"store", -1, -1, joinArgs(v)}); };
        storage = f.get();
        w.makeCli(std::move(f));
    }
    else
    {
        for (std::uint64_t i = 0, n = s.draw(8); i < n; ++i) w.modelStore.push_back(s.chance(1, 3) ? "old" + std::to_string(i) : "a");
        if (w.modelStore.size() > w.modelStoreMax) w.modelStore.erase(w.modelStore.begin(), w.modelStore.end() - static_cast<long>(w.modelStoreMax));
        w.makeCli();
        storage = w.storage;
    }
    const auto steps = s.chance(1, 400) ? 300 + s.draw(300) : 1 + s.size(s.chance(1, 20) ? 150 : 50);
    std::vector<std::string> current; // edited lines
    int stores = 0;
    bool loadedThenStored = false;
    auto fresh = [&]
    {
        static const std::size_t sizes[] = {100, 0, 1, 2, 3, 4, 6};
        const auto size = sizes[s.draw(7)];
        const auto i = w.addSession(size);
        current.resize(i + 1);
        c.note("session " + std::to_string(i) + " with history size " + std::to_string(size));
        auto& x = w.sessions[i];
        x.s->ShowHistory();
        auto list = World::parseHistory(x.take());
        Words got, want;
        for (auto& e : list) got.push_back(e.second);
        for (auto& e : x.hist.listing()) want.push_back(e.second);
        if (got != want) c.fail("session " + std::to_string(i) + " (history size " + std::to_string(size) + ") starts with " + vf::show(got) + " expected " + vf::show(want) + ", stored " + vf::show(w.modelStore));
        if (!want.empty()) c.label("session with loaded commands");
    };
    fresh();
    for (std::uint64_t i = 0; i < steps && !c.failed(); ++i)
    {
        Span sp(s);
        std::vector<std::size_t> live;
        for (std::size_t k = 0; k < w.sessions.size(); ++k) if (w.sessions[k].s && !w.sessions[k].exited) live.push_back(k);
        if (live.empty() || s.chance(1, 12)) { fresh(); continue; }
        const auto si = s.pick(live);
        auto& x = w.sessions[si];
        auto& cur = current[si];
        const auto what = s.weighted({50, 12, 10, 8, 12, 3});
        w.log.clear();
        w.expected.clear();
        switch (what)
        {
            case 0: // a line
            {
                auto line = s.chance(1, 3) ? s.pick(Words{"a", "b", "stored", "old0", " ", "a  b", "x\ty"}) : w.genLine(si, cfg);
                if (line.find('\n') != std::string::npos) line = "a";
                cur.clear();
                c.note("s" + std::to_string(si) + " " + quote(line));
                if (x.hist.browsing && x.hist.v.size() == x.hist.max) c.label("line while browsing a full history");
                w.feed(si, line);
                if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
                break;
            }
            case 1: // '!'
            {
                auto line = "! " + std::to_string(x.hist.firstId + s.draw(x.hist.v.size() + 2));
                cur.clear();
                c.note("s" + std::to_string(si) + " " + quote(line));
                w.feed(si, line);
                if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
                break;
            }
            case 2: // up
            {
                if (s.chance(1, 4)) cur = s.pick(Words{"a", "typed", ""});
                c.note("s" + std::to_string(si) + " up with " + quote(cur));
                auto want = x.hist.up(cur);
                auto got = x.s->PreviousCmd(cur);
                if (got != want) { c.label("browsing differs"); return; } // judged by C11
                cur = got;
                continue;
            }
            case 3: // down
                if (!x.hist.browsing || x.hist.pos == 0) continue;
                c.note("s" + std::to_string(si) + " down");
                {
                    auto want = x.hist.down();
                    auto got = x.s->NextCmd();
                    if (got != want) { c.label("browsing differs"); return; }
                    cur = got;
                }
                continue;
            case 4: // exit, maybe again
                if (x.hist.browsing && x.hist.v.size() == x.hist.max) continue; // what happens to the entry that makes room is not specified
                c.note("s" + std::to_string(si) + " Exit()");
                w.modelExit(si);
                x.s->Exit();
                if (s.coin()) { x.s->Exit(); c.note("again"); }
                break;
            default: // goes away
                c.note("s" + std::to_string(si) + " is destroyed");
                x.s.reset();
                break;
        }
        auto want = only(w.expected, {"store"});
        auto got = only(w.log, {"store"});
        if (want.size()) { ++stores; c.label("exit"); if (x.hist.v.size() > x.hist.own().size()) loadedThenStored = true; }
        // storing nothing is as good as not storing
        auto drop = [](std::vector<Ev>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](const Ev& e) { return e.text.empty(); }), v.end()); };
        drop(want);
        drop(got);
        VF_REQUIRE(c, got == want, "session " << si << " stored " << show(got) << " expected " << show(want));
        auto all = storage->Commands();
        VF_REQUIRE(c, all == w.modelStore, "the storage holds " << vf::show(all) << " expected " << vf::show(w.modelStore));
    }
    unlink(file.c_str());
    if (stores > 1) c.nontrivial();
    if (loadedThenStored) c.label("case with loaded commands at exit");
}

// sessions of thousands of commands
void longSessions(Ctx& c)
{
    auto& s = c.src;
    const auto cap = s.coin() ? 100 + s.draw(10000) : 10000;
    const auto kind = s.draw(3);
    const std::string file = "long-history." + std::to_string(getpid());
    unlink(file.c_str());
    std::unique_ptr<cli::HistoryStorage> base;
    if (kind == 0) base = std::make_unique<RecorderStorage>(cap);
    if (kind == 1) base = std::make_unique<cli::VolatileHistoryStorage>(cap);
    if (kind == 2) base = std::make_unique<cli::FileHistoryStorage>(file, cap);
    auto storage = base.get();
    auto root = std::make_unique<cli::Menu>("m");
    root->Insert("c", [](std::ostream&, const std::string&) {});
    auto app = std::make_unique<cli::Cli>(std::move(root), std::move(base));
    std::ostringstream out;
    Words all; // what is stored
    std::string t = std::string(kind == 0 ? "own" : kind == 1 ? "volatile" : "file") + " storage of " + std::to_string(cap) + ":";
    std::uint64_t entered = 0, most = 0;
    for (auto n = 1 + s.draw(4); n > 0; --n)
    {
        Span sp(s);
        const auto size = s.coin() ? 100 + s.draw(6000) : 100;
        Hist h; h.max = size;
        h.load(all);
        cli::CliSession session(*app, out, size);
        out.str("");
        session.ShowHistory();
        auto list = World::parseHistory(out.str());
        auto want = h.listing();
        bool same = list.size() == want.size();
        for (std::size_t i = 0; same && i < list.size(); ++i) same = list[i].second == want[i].second;
        VF_REQUIRE(c, same, "a session of size " << size << " starts with " << list.size() << " entries, of " << all.size() << " stored, expected " << want.size() << " of them; first " << (list.empty() ? "" : list[0].second)
            << " expected " << (want.empty() ? "" : want[0].second));
        const auto lines = s.chance(1, 60) ? 65000 + s.draw(2000) : s.draw(5000);
        std::uint64_t own = 0;
        std::string last = all.empty() ? "" : all.back();
        for (auto i = lines; i > 0; --i)
        {
            const auto l = "c " + std::to_string(i % 97 == 1 ? entered : ++entered); // now and then a repetition
            session.Feed(l);
            h.enter(l);
            if (l != last) ++own;
            last = l;
        }
        t += " " + std::to_string(size) + "/" + std::to_string(lines);
        c.note(t);
        session.Exit();
        auto mine = h.own();
        most = std::max<std::uint64_t>(most, mine.size());
        all.insert(all.end(), mine.begin(), mine.end());
        if (all.size() > cap) all.erase(all.begin(), all.end() - static_cast<long>(cap));
        const auto got = storage->Commands();
        VF_REQUIRE(c, got.size() == all.size(), "the storage holds " << got.size() << " commands, expected " << all.size() << " (of " << own << " entered, history size " << size << ")");
        VF_REQUIRE(c, got == all, "the storage holds others than the newest commands: first " << quote(got.front()) << " expected " << quote(all.front()) << ", last " << quote(got.back()) << " expected " << quote(all.back()));
        if (s.chance(1, 6)) { storage->Clear(); all.clear(); t += " clear"; }
    }
    unlink(file.c_str());
    c.nontrivial(most > 100);
    c.label(most > 1000 ? "more than 1000 commands" : "up to 1000 commands");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C13";
    su.rule = "overlapping sessions (history sizes 0 to 100) of one application over an own, volatile or file storage (capacities 1 to 1000): lines, repeated lines, '!', browsing, exits in several ways and "
              "repeated, destruction without exit, new sessions; after every step what reached the storage, and for new sessions what they start with, is compared with reference histories. "
              "Family long: sessions of thousands of commands. Non-trivial: at least two sessions exited.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"sessions", run, 120000, 2000000, 0, 20},
        {"long", longSessions, 250, 5000, 0, 20},
    };
    return su;
}
