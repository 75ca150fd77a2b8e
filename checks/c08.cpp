// C08 Completion offers exactly the reachable entries for the typed text
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

// what a user may have typed: a beginning of a path, sometimes damaged
std::string genTyped(World& w, std::size_t si, const Config& cfg)
{
    auto& s = w.s;
    std::string t;
    switch (s.draw(6))
    {
        case 0: // nothing, or blanks
            return std::string(static_cast<std::size_t>(s.draw(3)), ' ');
        case 1: // random words
            for (std::uint64_t i = 0, n = 1 + s.draw(3); i < n; ++i) t += (i ? " " : "") + (s.chance(1, 4) ? std::string("..") : w.genName(cfg));
            break;
        case 2: // dots and parents
        {
            auto m = w.sessions[si].cur;
            for (std::uint64_t i = 0, n = 1 + s.draw(5); i < n && m; ++i)
            {
                m = m->parent;
                t += (i ? " " : "") + (m && s.coin() ? m->name : std::string(".."));
            }
            if (s.coin()) t += " ";
            if (m && !m->kids.empty() && s.coin()) t += s.pick(m->kids)->name;
            break;
        }
        default:
        {
            auto v = w.present(true, true);
            auto words = w.path(w.sessions[si].cur, s.pick(v));
            for (std::size_t i = 0; i < words.size(); ++i)
                t += (i ? std::string(s.chance(1, 8) ? 2 : 1, ' ') : "") + words[i];
            break;
        }
    }
    if (s.coin() && !t.empty()) t.resize(static_cast<std::size_t>(s.draw(t.size() + 1))); // a prefix
    if (s.chance(1, 4)) t += ' ';
    if (s.chance(1, 8)) t += s.coin() ? "\t" : "x";
    if (s.chance(1, 6)) t = std::string(s.coin() ? " " : " \t ") + t;
    if (s.chance(1, 30)) { auto at = s.draw(t.size() + 1); t.insert(static_cast<std::size_t>(at), 1, static_cast<char>(0x80 + s.draw(128))); }
    return t;
}

void run(Ctx& c, bool crowd)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = s.chance(1, 12) ? 10 : 4;
    cfg.maxEntries = 6;
    cfg.fewNames = s.chance(1, 4);
    cfg.menuBias = s.coin();
    if (crowd) cfg.crowdOdds = 1 + static_cast<unsigned>(s.draw(3));
    w.genTree(cfg);
    for (auto& e : w.entries)
        if (e.parent && s.chance(1, 8))
        {
            Span sp(s);
            w.handles[static_cast<std::size_t>(e.id)][0].Disable();
            e.enabled = false;
            c.note("disabled #" + std::to_string(e.id));
        }
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(100);
    w.addSession(7);
    const auto n = 1 + s.draw(12);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        const auto si = static_cast<std::size_t>(s.draw(2));
        auto& x = w.sessions[si];
        if (s.chance(1, 4))
        {
            std::vector<MEntry*> v;
            for (auto& e : w.entries) if (e.parent && !e.gone) v.push_back(&e);
            if (!v.empty())
            {
                auto e = s.pick(v);
                auto& h = w.handles[static_cast<std::size_t>(e->id)];
                switch (s.draw(3))
                {
                    case 0: h[1].Enable(); e->enabled = true; c.note("enable #" + std::to_string(e->id)); break;
                    case 1: h[2].Disable(); e->enabled = false; c.note("disable #" + std::to_string(e->id)); break;
                    default: h[0].Remove(); w.modelRemove(e); w.fixSessions(); c.note("remove #" + std::to_string(e->id)); break;
                }
            }
        }
        if (s.chance(2, 5))
        {
            auto v = w.present(true, false);
            auto line = w.renderLine(w.path(x.cur, s.pick(v)));
            c.note("s" + std::to_string(si) + " " + quote(line));
            w.feed(si, line);
        }
        const auto text = genTyped(w, si, cfg);
        c.note("complete on s" + std::to_string(si) + " " + quote(text));
        x.take();
        x.s->ShowHistory();
        const auto history = x.take();
        const auto want = w.modelCompletions(si, text);
        const auto got = x.s->GetCompletions(text);
        c.label("completions " + std::string(want.size() > 100 ? "101+" : want.size() > 3 ? "4+" : std::to_string(want.size())));
        bool nested = false;
        for (auto& t : want) if (t.find(' ') != std::string::npos) nested = true;
        if (nested) c.label("inside a menu");
        if (!want.empty() && !text.empty()) c.nontrivial();
        VF_REQUIRE(c, got == want, "completions of " << quote(text) << " in menu " << quote(x.cur->name) << ": " << vf::show(got) << " expected " << vf::show(want));
        VF_REQUIRE(c, std::as_const(*x.s).GetCompletions(text) == want, "asking again gives something else");
        const auto noise = x.take();
        VF_REQUIRE(c, noise.empty(), "asking for completions printed " << quote(noise));
        x.s->ShowHistory();
        VF_REQUIRE(c, x.take() == history, "asking for completions changed the history");
        x.s->Prompt();
        const auto p = x.take();
        VF_REQUIRE(c, p == w.modelPrompt(si), "after asking for completions the prompt is " << quote(p));
    }
    // asking changed nothing
    for (std::size_t si = 0; si < 2; ++si)
    {
        auto& x = w.sessions[si];
        x.take();
        x.s->Help();
        auto got = World::parseHelp(x.take());
        auto want = w.modelHelp(si);
        VF_REQUIRE(c, got.size() == want.size(), "after completions help lists " << World::show(got) << " expected " << World::show(want));
    }
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C08";
    su.rule = "random menu trees (overlapping names, names that are prefixes of each other, hold blanks, equal '..' or global commands, disabled, removed and re-enabled entries, up to 10 levels), random "
              "current menus of two sessions, menus of hundreds of entries (crowds), and typed texts: beginnings of paths, '..' chains, extra blanks, random words. The completions are compared with a recursive reference definition. "
              "Non-trivial: some text was typed and there is at least one completion.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"completions", [](Ctx& c) { run(c, false); }, 24000, 400000, 0, 20},
        {"crowds", [](Ctx& c) { run(c, true); }, 1200, 20000, 0, 20},
    };
    return su;
}
