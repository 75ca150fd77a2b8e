// C06 Handler exceptions are contained and reported once, and change nothing else
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

void run(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 4;
    cfg.maxEntries = 6;
    cfg.maxTotal = 25;
    cfg.fewNames = s.chance(1, 3);
    w.genTree(cfg);
    // most commands fail, in every way; some print before, some are all right
    for (auto& e : w.entries)
        if (!e.isMenu && s.chance(4, 5))
        {
            Span sp(s);
            Act a;
            if (s.chance(1, 4))
            {
                a.kind = Act::print;
                a.text = "printed.";
                e.acts.push_back(a);
            }
            a.kind = Act::throwIt;
            a.n = static_cast<int>(s.draw(nExceptions));
            static const Words texts = {"boom", "x", "a message with blanks", "wrong command: x", "bad from_string conversion", "\xc3\xa9"};
            a.text = w.beLong() ? w.longText() : s.pick(texts);
            e.acts.push_back(a);
            c.note("#" + std::to_string(e.id) + " throws " + std::to_string(a.n) + " " + quote(a.text));
        }
    w.customExc = s.chance(2, 3);
    w.customWrong = s.chance(2, 3);
    w.makeCli();
    const std::size_t nSessions = 1 + static_cast<std::size_t>(s.draw(2));
    const std::size_t sizes[] = {100, 3, 1};
    for (std::size_t i = 0; i < nSessions; ++i) w.addSession(sizes[s.draw(3)]);
    const auto n = 1 + s.draw(c.thorough ? 30 : 15);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        const auto si = static_cast<std::size_t>(s.draw(nSessions));
        auto& x = w.sessions[si];
        if (x.exited) continue;
        auto line = w.genLine(si, cfg);
        if (s.chance(1, 6))
        {
            // back to an entry that is there
            if (!x.hist.v.empty()) line = "! " + std::to_string(x.hist.firstId + s.draw(x.hist.v.size()));
        }
        c.note("s" + std::to_string(si) + " " + quote(line));
        for (auto& y : w.sessions) y.take();
        w.feed(si, line);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
        if (w.info.threw) { c.nontrivial(); c.label("failing handler"); if (w.info.rerun) c.label("failing handler through '!'"); if (x.cur->parent) c.label("failing in a submenu"); }
        const std::string at = "line " + quote(line) + ": ";
        auto want = only(w.expected, {"call", "wrong", "exc"});
        auto got = only(w.log, {"call", "wrong", "exc", "escaped"});
        if (!w.customExc) want = only(want, {"call", "wrong"});
        if (!w.customWrong) want.erase(std::remove_if(want.begin(), want.end(), [](const Ev& e) { return e.kind == "wrong"; }), want.end());
        VF_REQUIRE(c, got == want, at << "happened " << show(got) << " expected " << show(want));
        // what is written
        auto out = x.take();
        if (w.info.threw)
        {
            std::string msg, pre;
            bool std_ = false;
            for (auto& p : w.plans)
                for (auto& a : p.acts)
                    if (a.kind == Act::print) pre += a.text;
                    else if (a.kind == Act::throwIt)
                    {
                        auto t = exceptionText(a.n, a.text);
                        if (!t.empty()) { std_ = true; msg = t.substr(t.find('|') + 1); }
                    }
            VF_REQUIRE(c, out.compare(0, pre.size(), pre) == 0, at << "the handler wrote " << quote(pre) << " but the output is " << quote(out));
            auto rest = out.substr(pre.size());
            if (std_ && w.customExc) VF_REQUIRE(c, rest.empty(), at << "written besides the report to the handler: " << quote(rest));
            if (std_ && !w.customExc) VF_REQUIRE(c, rest == msg + "\n", at << "the message " << quote(msg) << " was reported as " << quote(rest));
            if (!std_) VF_REQUIRE(c, !rest.empty() && rest.find("wrong command: ") != 0, at << "an exception of another type was reported as " << quote(rest));
            c.label(std_ ? (w.customExc ? "std, own handler" : "std, default report") : "not derived from std::exception");
        }
        for (std::size_t k = 0; k < nSessions; ++k)
            if (k != si)
            {
                auto o = w.sessions[k].take();
                VF_REQUIRE(c, o.empty(), at << "written on another session: " << quote(o));
            }
        // nothing else has changed
        x.s->Prompt();
        auto p = x.take();
        VF_REQUIRE(c, p == w.modelPrompt(si), at << "the prompt is " << quote(p) << " expected " << quote(w.modelPrompt(si)));
        x.s->ShowHistory();
        auto h = World::parseHistory(x.take());
        VF_REQUIRE(c, h == x.hist.listing(), at << "the history is " << World::show(h) << " expected " << World::show(x.hist.listing()));
    }
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C06";
    su.rule = "random menu trees whose handlers throw any of 16 kinds of exceptions (standard ones, own classes derived from them, std::bad_cast, non-standard types), with own or default exception and "
              "wrong-command handlers, reached through paths, parents, overloads, free-form commands and '!'. Calls, reports (type, message, line, stream), output, prompt and history are compared "
              "with the model after every line. Non-trivial: a handler threw.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"exceptions", run, 40000, 600000, 0, 20},
    };
    return su;
}
