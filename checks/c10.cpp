// C10 Tab and clear-screen never lose or corrupt what was typed
#include "editor.h"

using namespace vf;
using namespace editor;

namespace
{

void run(Ctx& c, bool crowd)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 3;
    cfg.maxEntries = 7;
    cfg.maxTotal = 20;
    cfg.fewNames = s.chance(1, 5);
    cfg.commonStems = s.chance(1, 2);
    if (crowd) cfg.crowdOdds = 1 + static_cast<unsigned>(s.draw(3));
    w.genTree(cfg);
    for (auto& e : w.entries)
        if (e.parent && s.chance(1, 12)) { w.handles[static_cast<std::size_t>(e.id)][0].Disable(); e.enabled = false; c.note("disabled #" + std::to_string(e.id)); }
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(100);
    if (s.chance(1, 6)) cli::SetColor();
    Editor e(w, 0);
    const auto n = 1 + s.draw(c.thorough ? 60 : 30);
    std::string pending;
    int tabs = 0;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        Key k{KeyType::ascii, ' '};
        if (!pending.empty()) { k.ch = pending[0]; pending.erase(0, 1); }
        else
            switch (s.weighted({24, 26, 8, 5, 2, 2, 6, 4, 6, 4, 6}))
            {
                case 0: // the beginning of something
                {
                    auto v = w.present(true, true);
                    auto words = w.path(w.sessions[0].cur, s.pick(v));
                    for (std::size_t j = 0; j < words.size(); ++j) pending += (j ? " " : "") + words[j];
                    if (s.chance(3, 4) && !pending.empty()) pending.resize(static_cast<std::size_t>(s.draw(pending.size() + 1)));
                    if (s.chance(1, 8)) pending = " " + pending;
                    for (auto& ch : pending) if (static_cast<unsigned char>(ch) < 32) ch = ' ';
                    if (pending.empty()) { k.k = KeyType::ignored; break; }
                    k.ch = pending[0];
                    pending.erase(0, 1);
                    break;
                }
                case 1: k.ch = '\t'; break;
                case 2: k.k = KeyType::left; break;
                case 3: k.k = KeyType::home; break;
                case 4: k.k = KeyType::right; break;
                case 5: k.k = KeyType::end; break;
                case 6: k.k = KeyType::backspace; break;
                case 7: k.k = KeyType::canc; break;
                case 8: k.k = KeyType::clear; break;
                case 9: k.k = KeyType::ret; break;
                default: k.ch = static_cast<char>("abcsfo. x"[s.draw(9)]); break;
            }
        c.note(k.text());
        const auto before = e.text;
        const auto posBefore = e.pos;
        auto bad = e.press(k);
        const bool tab = k.k == KeyType::ascii && k.ch == '\t';
        if (tab)
        {
            c.label(e.listed ? "tab: list" : e.progressed ? "tab: progress" : "tab: nothing");
            if (e.progressed) ++tabs;
            if (posBefore < before.size()) c.label("tab inside the line");
        }
        if (k.k == KeyType::clear) c.label("clear");
        VF_REQUIRE(c, bad.empty(), "after key " << k.text() << " on line " << quote(before) << ": " << bad);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (e.entered)
        {
            auto want = only(w.expected, {"call", "wrong"});
            auto got = only(w.log, {"call", "wrong"});
            VF_REQUIRE(c, got == want, "entering " << quote(e.submitted) << ": happened " << show(got) << " expected " << show(want));
        }
        else
            VF_REQUIRE(c, w.log.empty(), "key " << k.text() << " on line " << quote(before) << " ran something: " << show(w.log));
        if (e.ended) break;
    }
    if (tabs) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C10";
    su.rule = "random menu trees with related names and key sequences mixing beginnings of paths, tab, clear-screen, cursor keys, deletions, characters and enter; after every key a terminal emulator must "
              "show prompt, line and cursor as the reference editor (with reference completions) has them, and lists of completions must be complete and in order. Non-trivial: a tab with at least one completion.";
    su.rule += " Family all-keys mixes typing, moving, deleting, browsing, completing, clearing and entering; non-trivial there: a line replaced while the cursor was inside it.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"tab-clear", [](Ctx& c) { run(c, false); }, 100000, 2000000, 0, 20},
        {"crowds", [](Ctx& c) { run(c, true); }, 1500, 30000, 0, 20},
        {"all-keys", runAllKeys, 50000, 1000000, 0, 20},
    };
    return su;
}
