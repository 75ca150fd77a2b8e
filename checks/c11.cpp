// C11 Up and Down browse the command history as documented
#include "editor.h"

using namespace vf;
using namespace editor;

namespace
{

void run(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxEntries = 2;
    cfg.maxDepth = 2;
    cfg.maxTotal = 5;
    w.genTree(cfg);
    w.customWrong = w.customExc = true;
    // commands of earlier sessions
    static const Words texts = {"a", "b", "cc", "a b", "ab", "history", "x"};
    const auto stored = s.draw(4) == 0 ? s.draw(30) : s.draw(4);
    for (std::uint64_t i = 0; i < stored; ++i) w.modelStore.push_back(s.chance(1, 3) ? "stored" + std::to_string(i) : s.pick(texts));
    c.note("stored " + vf::show(w.modelStore));
    w.makeCli();
    static const std::size_t sizes[] = {3, 0, 1, 2, 4, 5, 10, 100};
    const auto size = sizes[s.draw(8)];
    c.note("history size " + std::to_string(size));
    w.addSession(size);
    Editor e(w, 0);
    const bool big = s.chance(1, 60);
    const auto n = 1 + (big ? s.draw(1500) : s.size(80));
    std::string pending;
    bool enter = false;
    int browsed = 0, editedWhileBrowsing = 0;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        Key k{KeyType::ascii, ' '};
        if (!pending.empty()) { k.ch = pending[0]; pending.erase(0, 1); }
        else if (enter) { k.k = KeyType::ret; enter = false; }
        else
            switch (s.weighted({14, 30, 20, 10, 3, 4, 6, 2, 3}))
            {
                case 0: // a whole line
                    pending = s.chance(1, 3) ? "line" + std::to_string(s.draw(200)) : s.pick(texts);
                    if (w.beLong()) pending = w.longText();
                    if (s.chance(1, 8)) pending = s.coin() ? " " : "  ";
                    if (s.chance(1, 8)) pending = "! " + std::to_string(s.draw(12));
                    enter = s.chance(3, 4);
                    k.ch = pending[0];
                    pending.erase(0, 1);
                    break;
                case 1: k.k = KeyType::up; break;
                case 2: k.k = KeyType::down; break;
                case 3: k.k = KeyType::ret; break;
                case 4: k.k = KeyType::left; break;
                case 5: k.k = KeyType::backspace; break;
                case 6: k.ch = static_cast<char>("ab c1"[s.draw(5)]); break;
                case 7: k.k = KeyType::home; break;
                default: k.k = KeyType::canc; break;
            }
        if (i + 1 == n) k = Key{KeyType::ret, ' '};
        c.note(k.text());
        const auto before = e.text;
        auto& h = w.sessions[0].hist;
        const bool was = h.browsing;
        const auto bad = e.press(k);
        if (e.browsed) { if (h.browsing) { ++browsed; c.label("browsed"); } }
        else if (was && h.browsing && before != e.text) { ++editedWhileBrowsing; c.label("edited while browsing"); }
        if (was && e.entered) c.label("entered while browsing");
        VF_REQUIRE(c, bad.empty(), "after key " << k.text() << " on line " << quote(before) << " (history size " << size << "): " << bad);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (e.entered)
        {
            auto want = only(w.expected, {"call", "wrong"});
            auto got = only(w.log, {"call", "wrong"});
            VF_REQUIRE(c, got == want, "entering " << quote(e.submitted) << ": happened " << show(got) << " expected " << show(want));
            // entering a line ends browsing and adds just that line
            w.sessions[0].take();
            e.session().ShowHistory();
            auto list = World::parseHistory(w.sessions[0].take());
            Words got2, want2;
            for (auto& x : list) got2.push_back(x.second);
            for (auto& x : h.listing()) want2.push_back(x.second);
            VF_REQUIRE(c, got2 == want2, "after entering " << quote(e.submitted) << " the history is " << vf::show(got2) << " expected " << vf::show(want2));
        }
        if (e.ended) break;
    }
    if (browsed > 1) c.nontrivial();
    if (browsed && editedWhileBrowsing) c.label("case with editing while browsing");
}

// histories of thousands of entries
void longHistory(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxEntries = 2;
    cfg.maxDepth = 1;
    cfg.maxTotal = 3;
    w.genTree(cfg);
    w.customWrong = w.customExc = true;
    const auto goal = 100 + s.draw(s.chance(1, 3) ? 4000 : 900);
    const auto stored = s.coin() ? s.draw(goal) : 0;
    for (std::uint64_t i = 0; i < stored; ++i) w.modelStore.push_back("stored " + std::to_string(i));
    w.modelStoreMax = 10000;
    w.makeCli();
    static const std::size_t sizes[] = {5000, 256, 257, 300, 1000, 1023, 2000, 3000};
    const auto size = s.coin() ? sizes[s.draw(8)] : 100 + s.draw(5000);
    w.addSession(size);
    auto& x = w.sessions[0];
    for (auto i = stored; i < goal; ++i) w.feed(0, "zz " + std::to_string(i));
    w.log.clear();
    w.expected.clear();
    c.note(std::to_string(stored) + " stored and " + std::to_string(goal - stored) + " entered commands, history size " + std::to_string(size));
    Editor e(w, 0);
    std::size_t far = 0;
    std::string t;
    auto keys = [&](KeyType k, std::uint64_t n) -> bool
    {
        t += Key{k, ' '}.text() + "*" + std::to_string(n) + " ";
        for (std::uint64_t i = 0; i < n; ++i)
        {
            if (k == KeyType::down && (!x.hist.browsing || x.hist.pos == 0)) return true;
            const auto before = e.text;
            auto bad = e.press({k, ' '});
            far = std::max(far, x.hist.pos);
            if (!bad.empty()) { c.note(t); c.fail("after key " + Key{k, ' '}.text() + ", " + std::to_string(x.hist.pos) + " lines back, on " + quote(before) + ": " + bad); return false; }
        }
        return true;
    };
    for (auto n = 1 + s.draw(5); n > 0; --n)
    {
        Span sp(s);
        const auto d = s.coin() ? s.draw(std::min<std::uint64_t>(goal, size) + 3) : s.draw(300);
        if (!keys(s.chance(2, 3) ? KeyType::up : KeyType::down, d)) return;
        if (s.chance(1, 4) && !keys(KeyType::ret, 1)) return;
    }
    if (!keys(KeyType::ret, 1)) return;
    c.note(t);
    x.take();
    e.session().ShowHistory();
    auto list = World::parseHistory(x.take());
    auto want = x.hist.listing();
    VF_REQUIRE(c, list.size() == want.size(), "the history has " << list.size() << " entries, expected " << want.size());
    for (std::size_t i = 0; i < list.size(); ++i) VF_REQUIRE(c, list[i].second == want[i].second, "entry " << i << " of the history is " << quote(list[i].second) << " expected " << quote(want[i].second));
    if (far > 100) c.nontrivial();
    c.label(far > 1000 ? "more than 1000 lines back" : far > 255 ? "more than 255 lines back" : "up to 255 lines back");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C11";
    su.rule = "key sequences of up, down, enter, characters, deletions and whole lines (also blank, repeated and '!' lines), with history sizes 0 to 100 and commands loaded at start; after every key the line "
              "shown must be the one the reference history gives, and after every enter the listed history must be the reference one. Non-trivial: at least two keys moved through the history.";
    su.rule += " Family long browses histories of up to 5000 entries; non-trivial there: more than 100 lines back.";
    su.rule += " Family all-keys mixes typing, moving, deleting, browsing, completing, clearing and entering; non-trivial there: a line replaced while the cursor was inside it.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"browsing", run, 160000, 3000000, 0, 20},
        {"long", longHistory, 400, 8000, 0, 20},
        {"all-keys", runAllKeys, 50000, 1000000, 0, 20},
    };
    return su;
}
