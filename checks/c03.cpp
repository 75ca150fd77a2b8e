// C03 Every line runs exactly the one command it names, or is reported wrong
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

void run(Ctx& c, bool collide)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = s.chance(1, 20) ? 12 : 4;
    cfg.maxEntries = collide ? 8 : 6;
    w.customWrong = s.chance(2, 3);
    if (collide) cfg.fewNames = true;
    w.genTree(cfg);
    // some entries are not usable
    if (s.chance(1, 3))
        for (auto& e : w.entries)
            if (e.parent && s.chance(1, 6))
            {
                Span sp(s);
                auto& h = w.handles[static_cast<std::size_t>(e.id)];
                if (s.chance(1, 4)) { h[0].Remove(); w.modelRemove(&e); c.note("removed #" + std::to_string(e.id)); }
                else { h[0].Disable(); e.enabled = false; c.note("disabled #" + std::to_string(e.id)); }
            }
    w.customExc = true;
    w.makeCli();
    std::size_t si = w.addSession(100);
    const auto n = 1 + s.draw(c.thorough ? 40 : 20);
    int calls = 0, deep = 0;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        auto line = w.genLine(si, cfg);
        c.note(quote(line));
        w.feed(si, line);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (w.info.call) { c.label("command"); ++calls; if (w.info.depth) ++deep; }
        if (w.info.wrong) c.label("wrong");
        if (w.info.nav) c.label("navigation");
        if (w.info.blank) c.label("blank");
        auto want = only(w.expected, {"call", "wrong"});
        auto got = only(w.log, {"call", "wrong", "escaped"});
        if (!w.customWrong)
        {
            // the default report is on the session
            auto out = w.sessions[si].take();
            const std::string msg = "wrong command: ";
            std::size_t reports = 0;
            for (std::size_t p = out.find(msg); p != std::string::npos; p = out.find(msg, p + 1)) ++reports;
            std::size_t due = 0;
            std::string line0 = line;
            for (auto& e : want) if (e.kind == "wrong") ++due;
            VF_REQUIRE(c, (reports > 0) == (due > 0), "line " << quote(line) << " was " << (reports ? "" : "not ") << "reported as wrong: " << quote(out));
            if (due && !w.info.rerun)
                VF_REQUIRE(c, out == msg + line + "\n", "report for " << quote(line) << ": " << quote(out));
            want = only(want, {"call"});
        }
        VF_REQUIRE(c, got == want, "line " << quote(line) << " in menu " << quote(w.sessions[si].cur->name) << ": happened " << show(got) << " expected " << show(want));
        if (w.sessions[si].exited) si = w.addSession(100);
    }
    if (calls) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C03";
    su.rule = "random menu trees (up to 12 levels, 20 entries a menu, names that repeat, overlap, hold blanks or quotes, or equal '..', the parent, or a global command; 17 kinds of signature; "
              "some entries disabled or removed) and sessions of random lines: paths to commands with fitting and unfitting arguments, menus, '..' chains, random words, global commands, blanks, "
              "history references. The handler calls and wrong-command reports of every line are compared with a reference dispatcher. Non-trivial: at least one command ran.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"trees", [](Ctx& c) { run(c, false); }, 20000, 400000, 0, 20},
        {"same-names", [](Ctx& c) { run(c, true); }, 20000, 400000, 0, 20},
    };
    return su;
}
