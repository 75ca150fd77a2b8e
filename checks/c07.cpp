// C07 Help lists exactly the usable commands with their parameters
#define WORLD_ALL_TYPES
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

std::string rtrim(std::string t)
{
    while (!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back();
    return t;
}

void run(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 4;
    cfg.maxEntries = 8;
    cfg.fewNames = s.chance(1, 4);
    cfg.menuBias = s.chance(1, 3);
    w.genTree(cfg);
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(100);
    w.addSession(5);
    const auto n = 1 + s.draw(10);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        // change something
        switch (s.draw(4))
        {
            case 0: case 1:
            {
                std::vector<MEntry*> v;
                for (auto& e : w.entries) if (e.parent && !e.gone) v.push_back(&e);
                if (v.empty()) break;
                auto e = s.pick(v);
                auto& h = w.handles[static_cast<std::size_t>(e->id)];
                switch (s.draw(4))
                {
                    case 0: h[1].Enable(); e->enabled = true; c.note("enable #" + std::to_string(e->id)); break;
                    case 1: case 2: h[2].Disable(); e->enabled = false; c.note("disable #" + std::to_string(e->id)); break;
                    default: h[0].Remove(); w.modelRemove(e); w.fixSessions(); c.note("remove #" + std::to_string(e->id)); break;
                }
                break;
            }
            case 2:
            {
                std::vector<MEntry*> v = w.present(true, false);
                auto m = s.pick(v);
                const bool isMenu = s.chance(1, 3);
                auto a = w.genInsert(cfg, isMenu);
                auto id = w.newId();
                w.modelInsert(m, id, isMenu, a);
                if (isMenu) w.realInsertMenu(m->id, id, a.name, a.desc, a.prompt, nullptr);
                else w.realInsertCmd(m->id, id, a.sig, a.variant, a.name, a.desc, a.pars);
                c.note("insert into #" + std::to_string(m->id) + " " + w.treeText(&w.entries.back()));
                break;
            }
            default: break;
        }
        const auto si = static_cast<std::size_t>(s.draw(2));
        if (s.chance(2, 3))
        {
            auto line = w.genLine(si, cfg);
            if (line != "exit")
            {
                c.note("s" + std::to_string(si) + " " + quote(line));
                w.feed(si, line);
                if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
                if (w.sessions[si].exited) return;
            }
        }
        auto& x = w.sessions[si];
        auto& other = w.sessions[1 - si];
        x.take();
        other.take();
        if (s.coin()) { c.note("help on s" + std::to_string(si)); w.feed(si, "help"); }
        else { c.note("Help() on s" + std::to_string(si)); x.s->Help(); }
        const auto text = x.take();
        auto got = World::parseHelp(text);
        auto want = w.modelHelp(si);
        for (auto& h : got) h.head = rtrim(h.head);
        for (auto& h : want) h.head = rtrim(h.head);
        if (want.size() > 5) c.nontrivial();
        c.label(x.cur->parent ? "in a submenu" : "in the root menu");
        for (auto k : x.cur->kids) if (!k->enabled) { c.label("a disabled entry in the menu"); break; }
        VF_REQUIRE(c, got == want, "help in menu " << quote(x.cur->name) << " lists\n  " << World::show(got) << "\nexpected\n  " << World::show(want));
        auto o = other.take();
        VF_REQUIRE(c, o.empty(), "help also wrote on the other session: " << quote(o));
    }
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C07";
    su.rule = "random menu trees (30 signatures, parameter names given or not, descriptions, disabled, removed and later inserted entries) and random navigation of two sessions; the entries listed by the "
              "help command or Help() are compared, in order, with a reference listing (name, parameters, description). Non-trivial: more than one entry besides the global commands.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"help", run, 24000, 400000, 0, 20},
    };
    return su;
}
