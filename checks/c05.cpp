// C05 Enabling, disabling, removing and inserting entries acts at once and safely
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

Act genHandleAct(World& w, const Config& cfg, bool insertOnly)
{
    auto& s = w.s;
    Act a;
    if (insertOnly || s.chance(1, 4))
    {
        auto v = w.present(true, false);
        auto m = s.pick(v);
        a = w.genInsert(cfg, s.chance(1, 3));
        a.target = m->id;
        return a;
    }
    std::vector<MEntry*> v;
    for (auto& e : w.entries) if (e.parent) v.push_back(&e); // also those already removed
    if (v.empty()) return a;
    a.target = s.pick(v)->id;
    static const Act::Kind k[] = {Act::disable, Act::enable, Act::remove};
    a.kind = k[s.draw(3)];
    a.n = static_cast<int>(s.draw(4));
    if (a.kind != Act::remove && s.chance(1, 12)) { a.target = w.root->id; a.n = 3; }
    return a; // n: which copy of the handle, or 3 for the menu itself
}

// compares everything that can be seen from a session
bool look(World& w, const Config& cfg, const std::string& when)
{
    auto& c = w.c;
    for (std::size_t i = 0; i < w.sessions.size(); ++i)
    {
        auto& x = w.sessions[i];
        if (x.exited) continue;
        const std::string at = when + ", session " + std::to_string(i) + " in menu " + quote(x.cur->name) + ": ";
        x.take();
        x.s->Prompt();
        auto p = x.take();
        if (p != w.modelPrompt(i)) { c.fail(at + "prompt " + quote(p) + " expected " + quote(w.modelPrompt(i))); return false; }
        x.s->Help();
        auto help = World::parseHelp(x.take());
        auto wantHelp = w.modelHelp(i);
        auto heads = [](const std::vector<World::HelpEntry>& v) { Words r; for (auto& h : v) r.push_back(h.head.substr(0, h.head.find(' '))); return r; };
        if (heads(help) != heads(wantHelp)) { c.fail(at + "help lists " + vf::show(heads(help)) + " expected " + vf::show(heads(wantHelp))); return false; }
        Words texts = {"", ".. "};
        for (auto& e : w.entries) if (e.isMenu && texts.size() < 6 && w.s.chance(1, 3)) texts.push_back(e.name + " ");
        for (auto& t : texts)
        {
            auto got = x.s->GetCompletions(t);
            auto want = w.modelCompletions(i, t);
            if (got != want) { c.fail(at + "completions of " + quote(t) + " " + vf::show(got) + " expected " + vf::show(want)); return false; }
        }
    }
    return true;
}

void run(Ctx& c, bool inHandlers)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 4;
    cfg.maxEntries = 5;
    cfg.maxTotal = 16;
    cfg.fewNames = s.chance(1, 3);
    cfg.menuBias = s.coin();
    w.genTree(cfg);
    if (inHandlers)
    {
        // handlers that change the menus, in particular what is running
        const auto n0 = w.entries.size();
        for (std::size_t i = 0; i < n0; ++i)
        {
            auto& e = w.entries[i];
            if (e.isMenu || !s.chance(3, 5)) continue;
            Span sp(s);
            for (std::uint64_t k = 0, n = 1 + s.draw(4); k < n; ++k)
            {
                Span sp2(s);
                auto a = genHandleAct(w, cfg, false);
                if (s.chance(1, 3) && a.target >= 0 && a.newId < 0 && a.kind != Act::insertCmd && a.kind != Act::insertMenu)
                {
                    // itself, or a menu it is in
                    MEntry* t = &e;
                    for (auto up = s.draw(3); up > 0 && t->parent && t->parent->parent; --up) t = t->parent;
                    if (t->parent) a.target = t->id;
                }
                if (a.kind == Act::insertCmd || a.kind == Act::insertMenu) a.newId = w.newId();
                e.acts.push_back(a);
            }
            if (s.chance(1, 6))
            {
                Act a;
                a.kind = Act::throwIt;
                a.n = static_cast<int>(s.draw(nExceptions));
                a.text = "thrown";
                e.acts.push_back(a);
            }
            std::string t = "#" + std::to_string(e.id) + " does";
            for (auto& a : e.acts) t += " " + World::actText(a);
            c.note(t);
        }
    }
    w.customWrong = w.customExc = true;
    w.makeCli();
    const std::size_t nSessions = 1 + static_cast<std::size_t>(s.draw(3));
    for (std::size_t i = 0; i < nSessions; ++i) w.addSession(30);
    int changes = 0, calls = 0;
    const auto n = 1 + s.draw(c.thorough ? 30 : 16);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        std::string when;
        if (s.chance(inHandlers ? 1 : 3, 6))
        {
            auto a = genHandleAct(w, cfg, false);
            if (a.kind == Act::none) continue;
            if (a.kind == Act::insertCmd || a.kind == Act::insertMenu) a.newId = w.newId();
            when = "outside: " + World::actText(a);
            c.note(when);
            if (w.modelAct(a, 0))
            {
                w.fixSessions();
                w.realAct(a, std::cout);
                if (s.chance(1, 5)) w.realActAgain(a);
                ++changes;
                c.label(when.substr(9, when.find('#') - 9));
            }
        }
        else
        {
            const auto si = static_cast<std::size_t>(s.draw(nSessions));
            auto& x = w.sessions[si];
            if (x.exited) continue;
            auto line = w.genLine(si, cfg);
            if (s.chance(1, 5))
            {
                // an entry that should not be there
                std::vector<MEntry*> v;
                for (auto& e : w.entries) if (e.parent && (e.gone || !e.enabled || !e.parent->enabled)) v.push_back(&e);
                if (!v.empty()) line = s.pick(v)->name + (s.coin() ? "" : " " + s.pick(v)->name);
            }
            when = "s" + std::to_string(si) + " " + quote(line);
            c.note(when);
            w.feed(si, line);
            if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
            auto want = only(w.expected, {"call", "wrong"});
            auto got = only(w.log, {"call", "wrong", "escaped"});
            VF_REQUIRE(c, got == want, when << ": happened " << show(got) << " expected " << show(want));
            if (w.info.call) ++calls;
            for (auto& p : w.plans) for (auto& a : p.acts) if (a.kind != Act::print && a.kind != Act::throwIt) { ++changes; c.label("in a handler: " + World::actText(a).substr(0, 6)); }
            for (auto& p : w.plans) if (w.entry(p.id)->gone) c.label("a command removed by itself or with its menu");
        }
        if (!look(w, cfg, "after " + when)) return;
    }
    if (changes && calls) c.nontrivial();
    // handles outlive everything, in any order
    const bool sessionsFirst = s.coin();
    if (sessionsFirst) w.sessions.clear();
    if (sessionsFirst) w.cli.reset();
    else { w.sessions.clear(); w.cli.reset(); }
    for (auto& v : w.handles)
        for (auto& h : v) { h.Disable(); h.Enable(); h.Remove(); h.Remove(); h.Enable(); }
    cli::CmdHandler none;
    none.Enable();
    none.Disable();
    none.Remove();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C05";
    su.rule = "random menu trees with 1-3 sessions and histories of operations on handles (enable, disable, remove, on any copy, repeated, after removal) and insertions, done between lines or by running "
              "handlers - also on the running command, its menu, a session's current menu - interleaved with lines. After every step the calls, and on every session prompt, help and completions, are "
              "compared with the model; memory errors by ASan. Non-trivial: at least one change took effect and one handler ran.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"between-lines", [](Ctx& c) { run(c, false); }, 10000, 200000, 0, 20},
        {"in-handlers", [](Ctx& c) { run(c, true); }, 20000, 400000, 0, 20},
    };
    return su;
}
