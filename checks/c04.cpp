// C04 The prompt and current menu follow navigation exactly
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

// several sessions of the same application; after every line the prompts of all of them
void run(Ctx& c, bool disabled)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = s.chance(1, 12) ? 14 : 5;
    cfg.maxEntries = 5;
    cfg.menuBias = true;
    cfg.fewNames = s.chance(1, 3);
    w.customWrong = s.coin();
    w.customExc = s.coin();
    w.genTree(cfg);
    // failing and printing handlers
    for (auto& e : w.entries)
        if (!e.isMenu && s.chance(1, 3))
        {
            Act a;
            a.kind = s.coin() ? Act::throwIt : Act::print;
            a.text = "text of a handler";
            a.n = static_cast<int>(s.draw(nExceptions));
            e.acts.push_back(a);
        }
    if (disabled)
        for (auto& e : w.entries)
            if (e.parent && s.chance(1, 5))
            {
                Span sp(s);
                w.handles[static_cast<std::size_t>(e.id)][0].Disable();
                e.enabled = false;
                c.note("disabled #" + std::to_string(e.id));
            }
    w.makeCli();
    const auto nSessions = 1 + s.draw(3);
    for (std::uint64_t i = 0; i < nSessions; ++i) w.addSession(100);
    auto prompts = [&](const std::string& when)
    {
        for (std::size_t i = 0; i < w.sessions.size(); ++i)
        {
            auto& x = w.sessions[i];
            x.take();
            x.s->Prompt();
            auto got = x.take();
            auto want = w.modelPrompt(i);
            if (got != want) { c.fail("prompt of session " + std::to_string(i) + " " + when + ": " + quote(got) + " expected " + quote(want)); return false; }
        }
        return true;
    };
    if (!prompts("at the start")) return;
    const auto n = 1 + s.draw(c.thorough ? 40 : 20);
    int moves = 0, still = 0;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        const auto si = static_cast<std::size_t>(s.draw(w.sessions.size()));
        auto& x = w.sessions[si];
        if (x.exited) continue;
        auto line = w.genLine(si, cfg);
        c.note("s" + std::to_string(si) + " " + quote(line));
        const auto before = x.cur;
        w.feed(si, line);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (w.info.nav) { ++moves; c.label("navigation"); if (x.cur == before) c.label("navigation to the same menu"); }
        else ++still;
        if (w.info.wrong) c.label("wrong");
        if (w.info.threw) c.label("failing handler");
        if (!prompts("after " + quote(line) + " on session " + std::to_string(si))) return;
    }
    if (moves && still) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C04";
    su.rule = "random menu trees (custom prompts, repeated names, names equal to '..' or to the parent, up to 14 levels, failing and printing handlers) with 1-3 sessions; after every random line "
              "the prompts of all the sessions are compared with those of a reference model of the current menus. Non-trivial: at least one line navigated and one did not.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"navigation", [](Ctx& c) { run(c, false); }, 24000, 400000, 0, 20},
        {"with-disabled-entries", [](Ctx& c) { run(c, true); }, 12000, 200000, 0, 20},
    };
    return su;
}
