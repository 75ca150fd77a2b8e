// C15 Sessions start and end once, with all actions, and run every input line once
#include "editor.h"

#include <cli/clifilesession.h>

#include <fstream>
#include <unistd.h>

using namespace vf;
using namespace editor;

namespace
{

// input that arrives in pieces, and can fail at its end
struct Pieces : std::streambuf
{
    Pieces(std::string t, std::vector<std::size_t> c, bool f) : text(std::move(t)), cuts(std::move(c)), fails(f) {}
    int_type underflow() override
    {
        if (at >= text.size())
        {
            if (fails) throw std::runtime_error("read error");
            return traits_type::eof();
        }
        auto n = std::min(text.size() - at, cuts.empty() ? text.size() : cuts[k++ % cuts.size()]);
        setg(&text[at], &text[at], &text[at] + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
    std::string text;
    std::vector<std::size_t> cuts;
    bool fails;
    std::size_t at = 0, k = 0;
};

void setActs(World& w, const std::string& end = {})
{
    auto& s = w.s;
    for (auto& e : w.entries)
        if (!e.isMenu && s.chance(1, 2))
        {
            Act a;
            switch (s.draw(5))
            {
                case 0: a.kind = Act::throwIt; a.n = static_cast<int>(s.draw(12)); a.text = "t"; break;
                case 1: a.kind = Act::exitSession; break;
                default: a.kind = Act::print; a.text = "<" + std::to_string(e.id) + ">" + end; break;
            }
            e.acts.push_back(a);
            if (a.kind == Act::exitSession && s.coin())
            {
                // and again, or go on
                Act b;
                b.kind = s.coin() ? Act::exitSession : Act::print;
                b.text = "after" + end;
                e.acts.push_back(b);
            }
            std::string t = "#" + std::to_string(e.id) + " does";
            for (auto& x : e.acts) t += " " + World::actText(x);
            w.c.note(t);
        }
}

void fileSession(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    w.printActions = true;
    Config cfg;
    cfg.maxDepth = 3;
    cfg.maxEntries = 5;
    cfg.maxTotal = 10;
    w.genTree(cfg);
    setActs(w);
    w.customWrong = w.customExc = true;
    const bool noGlobalActions = s.chance(1, 6), noSessionActions = s.chance(1, 6);
    w.makeCli();
    if (noGlobalActions) { w.cli->EnterAction(std::function<void(std::ostream&)>()); w.cli->ExitAction(std::function<void(std::ostream&)>()); }

    std::string input;
    std::unique_ptr<std::istream> in;
    const std::size_t si = 0;
    // the session must exist to generate lines in step with the model: the stream is filled afterwards
    struct Late : std::streambuf
    {
        std::streambuf* b = nullptr;
        int_type underflow() override
        {
            auto ch = b->sbumpc();
            if (traits_type::eq_int_type(ch, traits_type::eof())) return ch;
            buf = traits_type::to_char_type(ch);
            setg(&buf, &buf, &buf + 1);
            return ch;
        }
        char buf = 0;
    } late;
    std::istream lateIn(&late);
    const bool direct = s.coin(); // the session is created on the stream itself
    std::istringstream stringIn;
    const std::string file = "input." + std::to_string(getpid());
    std::ifstream fileIn;
    const auto source = s.draw(3);
    if (direct && source == 2) { std::ofstream f(file); f << "\n"; f.close(); fileIn.open(file); }
    std::istream& used = !direct ? lateIn : source == 2 ? static_cast<std::istream&>(fileIn) : stringIn;
    w.addSession(1, [&](std::ostream& o) { return std::make_unique<cli::CliFileSession>(*w.cli, used, o); });
    auto& x = w.sessions[si];
    if (noSessionActions) { x.s->EnterAction([](std::ostream&) {}); x.s->ExitAction([](std::ostream&) {}); }

    w.log.clear();
    w.expected.clear();
    w.plans.clear();
    std::vector<Ev> want;
    std::string text;
    if (!noGlobalActions) { want.push_back({"enterG", 0, -1, ""}); text += "[EG]"; }
    if (!noSessionActions) { want.push_back({"enterS", 0, -1, ""}); text += "[ES]"; }
    auto exitText = [&] { return std::string(noSessionActions ? "" : "[XS]") + (noGlobalActions ? "" : "[XG]"); };
    const auto n = s.chance(1, 1000) ? 500 + s.draw(2000) : s.size(s.chance(1, 20) ? 200 : 25);
    std::uint64_t executed = 0;
    std::string ignored;
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        auto line = w.genLine(si, cfg);
        if (s.chance(1, 12)) line = "exit";
        if (s.chance(1, 12)) line += "\r \t\0\x1a\v"[s.draw(6)]; // all of these belong to the line
        auto first = model::split(line);
        if (line.find('\n') != std::string::npos || (!first.empty() && (first[0] == "help" || first[0] == "history"))) line = "nothing";
        c.note(quote(line));
        input += line + "\n";
        if (x.exited) { ignored += line + "\n"; continue; }
        ++executed;
        text += w.modelPrompt(si);
        w.expected.clear();
        const auto plansBefore = w.plans.size();
        std::vector<unsigned long> refs;
        w.modelFeed(si, line, refs);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
        want.insert(want.end(), w.expected.begin(), w.expected.end());
        // what is printed, in order
        bool exitDone = false;
        for (std::size_t k = plansBefore; k < w.plans.size(); ++k)
            for (auto& a : w.plans[k].acts)
            {
                if (a.kind == Act::print) text += a.text;
                if (a.kind == Act::exitSession && !exitDone) { text += exitText(); exitDone = true; }
            }
        if (x.exited && !exitDone) text += exitText();
    }
    std::string tail;
    if (!x.exited && s.chance(1, 5)) { tail = s.coin() ? "nothing" : " "; input += tail; c.note("unterminated " + quote(tail)); }
    const bool fails = !direct && s.chance(1, 5) && tail.empty();
    std::string last; // may be shown before the end of input is noticed
    const bool ended = x.exited;
    if (!ended)
    {
        last = w.modelPrompt(si);
        w.expected.clear();
        w.modelExit(si);
        want.insert(want.end(), w.expected.begin(), w.expected.end());
    }
    // the input
    std::unique_ptr<std::streambuf> buf;
    if (!direct)
    {
        std::vector<std::size_t> cuts;
        for (std::uint64_t k = 0, m = s.draw(4); k < m; ++k) cuts.push_back(1 + s.draw(9));
        auto p = std::make_unique<Pieces>(input, cuts, fails);
        late.b = p.get();
        buf = std::move(p);
        if (fails) c.note("the input fails at its end");
    }
    else if (source == 2)
    {
        fileIn.close();
        std::ofstream f(file);
        f << input;
        f.close();
        fileIn.open(file);
    }
    else stringIn.str(input);
    w.log.clear();
    static_cast<cli::CliFileSession&>(*x.s).Start();
    unlink(file.c_str());
    auto got = w.log;
    // what is stored is judged by C13, but it must happen once
    std::size_t stores = 0;
    for (auto& e : got) if (e.kind == "store") { ++stores; e.text = "*"; }
    for (auto& e : want) if (e.kind == "store") e.text = "*";
    if (noGlobalActions || noSessionActions)
        want.erase(std::remove_if(want.begin(), want.end(), [&](const Ev& e) { return (noGlobalActions && e.kind == "exitG") || (noSessionActions && e.kind == "exitS"); }), want.end());
    if (!tail.empty()) // whether the unterminated last line is run is not specified
        got.erase(std::remove_if(got.begin(), got.end(), [&](const Ev& e) { return e.kind == "wrong" && e.text == quote(tail); }), got.end()),
        want.erase(std::remove_if(want.begin(), want.end(), [&](const Ev& e) { return e.kind == "wrong" && e.text == quote(tail); }), want.end());
    c.label(ended ? "ended by exit" : fails ? "ended by a failing stream" : "ended by end of input");
    if (!ignored.empty()) c.label("lines after exit");
    VF_REQUIRE(c, got == want, "input " << quote(input) << ": happened " << world::show(got) << " expected " << world::show(want));
    const auto out = x.take();
    bool ok = out == text + (ended ? "" : exitText()) || (!ended && out == text + last + exitText());
    // (neither is how often the prompt is shown when reading fails instead of ending)
    if (!ok && (!tail.empty() || fails)) ok = out == text + last + last + exitText();
    VF_REQUIRE(c, ok, "output " << quote(out) << " expected " << quote(text + last + (ended ? "" : exitText())));
    // it is over
    x.s->Prompt();
    x.s->Exit();
    VF_REQUIRE(c, x.take().empty() && w.log.size() == got.size() + (w.log.size() - got.size()), "written after the end");
    std::size_t exits = 0;
    for (auto& e : w.log) if (e.kind == "exitS" || e.kind == "exitG") ++exits;
    VF_REQUIRE(c, exits == 2u - noGlobalActions - noSessionActions, exits << " exit actions after calling Exit() again");
    if (executed > 1) c.nontrivial();
}

// long inputs: many lines, lines of megabytes
void longInput(Ctx& c)
{
    auto& s = c.src;
    std::string did, want, shown, input, t;
    auto root = std::make_unique<cli::Menu>("m");
    const auto mark = [](const std::string& x) { return std::to_string(x.size()) + x.substr(x.size() > 20 ? x.size() - 20 : 0) + ";"; };
    root->Insert("say", [&](std::ostream& o, const std::string& x) { did += "say" + mark(x); o << x << '\n'; });
    cli::Cli app(std::move(root));
    app.WrongCommandHandler([&](std::ostream&, const std::string& l) { did += "wrong" + mark(l); });
    app.ExitAction([&](std::ostream& o) { o << "[X]"; });
    const bool huge = s.coin();
    const auto n = huge ? 1 + s.draw(6) : s.draw(20000);
    const auto plain = s.draw(3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        std::string text = "w" + std::to_string(i);
        if (huge)
        {
            Span sp(s);
            const auto k = s.chance(1, 3) ? s.draw(2500000) : s.draw(200000);
            text += std::string(static_cast<std::size_t>(k), static_cast<char>('a' + s.draw(26))) + std::to_string(i);
            t += " " + std::to_string(k);
        }
        shown += "m> ";
        if (plain == 0 || i % 3) { input += "say " + text + "\n"; want += "say" + mark(text); shown += text + "\n"; }
        else if (plain == 1) { input += text + "\n"; want += "wrong" + mark(text); }
        else { input += "say " + text + " x\n"; want += "wrong" + mark("say " + text + " x"); }
    }
    const bool ends = s.coin();
    shown += "m> [X]";
    if (ends) input += "exit\nsay no\n";
    c.note(std::to_string(n) + " lines" + t + ", " + std::to_string(plain) + (ends ? ", exit" : ""));
    std::istringstream in(input);
    std::ostringstream out;
    cli::CliFileSession session(app, in, out);
    session.Start();
    std::size_t k = 0;
    while (k < did.size() && k < want.size() && did[k] == want[k]) ++k;
    VF_REQUIRE(c, did == want, "done, after " << k << " bytes of the log, " << quote(did.substr(k), 200) << " expected " << quote(want.substr(k), 200));
    VF_REQUIRE(c, out.str() == shown, "the output has " << out.str().size() << " bytes, expected " << shown.size());
    c.nontrivial(n > 1);
    c.label(huge ? "huge lines" : "many lines");
}

// handlers that read the input of the session themselves
void readingHandlers(Ctx& c)
{
    auto& s = c.src;
    std::istringstream in;
    std::ostringstream out;
    std::string did, want;
    auto root = std::make_unique<cli::Menu>("cli");
    root->Insert("take", [&](std::ostream& o, unsigned n)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            std::string l;
            if (!std::getline(in, l)) { did += "(end)"; break; }
            did += "(" + l + ")";
        }
        o << "[taken]";
    });
    root->Insert("word", [&](std::ostream&) { std::string t; if (in >> t) did += "(" + t + ")"; else did += "(end)"; });
    root->Insert("number", [&](std::ostream&) { int v = 0; if (in >> v) did += "(" + std::to_string(v) + ")"; else did += "(bad)"; });
    root->Insert("close", [&](std::ostream&) { in.setstate(std::ios::badbit); did += "(closed)"; });
    root->Insert("skip", [&](std::ostream&) { in.ignore(100000, '\n'); did += "(skipped)"; });
    root->Insert("say", [&](std::ostream& o, const std::string& t) { did += "say " + t + ";"; o << t; });
    cli::Cli app(std::move(root));
    std::size_t exits = 0;
    app.WrongCommandHandler([&](std::ostream&, const std::string& l) { did += "wrong " + l + ";"; });
    app.ExitAction([&](std::ostream& o) { ++exits; o << "[X]"; });
    const auto n = s.size(25);
    std::vector<std::string> lines;
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        switch (s.draw(9))
        {
            case 6: lines.push_back("number"); break;
            case 7: lines.push_back(s.chance(1, 6) ? "close" : "number"); break;
            case 8: lines.push_back(std::to_string(s.draw(100))); break;
            case 0: lines.push_back("take " + std::to_string(s.draw(4))); break;
            case 1: lines.push_back("skip"); break;
            case 2: lines.push_back(s.chance(1, 4) ? "exit" : ""); break;
            case 3: lines.push_back("word"); break;
            default: lines.push_back("say " + std::to_string(i)); break;
        }
    }
    std::string text;
    for (auto& l : lines) text += l + "\n";
    c.note(quote(text));
    in.str(text);
    // reference
    std::istringstream ref(text);
    std::string shown;
    bool over = false, consumed = false, failed = false;
    while (!over)
    {
        failed = !ref.good();
        if (failed) break; // whether the prompt is shown again before this is noticed is not specified
        shown += "cli> ";
        std::string l;
        if (!std::getline(ref, l)) break;
        if (l == "exit") over = true;
        else if (l.compare(0, 5, "take ") == 0)
        {
            for (int k = l[5] - '0'; k > 0; --k)
            {
                std::string t;
                if (!std::getline(ref, t)) { want += "(end)"; break; }
                want += "(" + t + ")";
                consumed = true;
            }
            shown += "[taken]";
        }
        else if (l == "word") { std::string t; if (ref >> t) { want += "(" + t + ")"; consumed = true; } else want += "(end)"; }
        else if (l == "number") { int v = 0; if (ref >> v) { want += "(" + std::to_string(v) + ")"; consumed = true; } else want += "(bad)"; }
        else if (l == "close") { ref.setstate(std::ios::badbit); want += "(closed)"; }
        else if (l == "skip") { ref.ignore(100000, '\n'); want += "(skipped)"; }
        else if (l.compare(0, 4, "say ") == 0) { want += "say " + l.substr(4) + ";"; shown += l.substr(4); }
        else if (!l.empty()) want += "wrong " + l + ";"; // the rest of a line a handler has read from
    }
    const auto again = shown + "cli> [X]";
    shown += "[X]";
    cli::CliFileSession session(app, in, out);
    session.Start();
    VF_REQUIRE(c, did == want, "input " << quote(text) << ": done " << quote(did) << " expected " << quote(want));
    VF_REQUIRE(c, out.str() == shown || (failed && out.str() == again), "input " << quote(text) << ": output " << quote(out.str()) << " expected " << quote(shown));
    VF_REQUIRE(c, exits == 1, exits << " exit actions");
    if (failed) c.label(ref.eof() ? "a handler ran out of input" : "a handler failed to read");
    if (consumed) c.nontrivial();
}

// actions that end the session, feed it the exit command or ask for the prompt themselves
void actionsThatExit(Ctx& c)
{
    auto& s = c.src;
    enum { enterG, enterS, exitS, exitG };
    static const char* names[] = {"enterG", "enterS", "exitS", "exitG"};
    std::vector<int> ops[4];
    std::string text;
    for (int i = 0; i < 4; ++i)
    {
        for (auto n = s.draw(3); n > 0; --n) ops[i].push_back(static_cast<int>(s.weighted({3, 3, 3, 2, 2})));
        text += std::string(names[i]) + ":";
        for (auto o : ops[i]) text += " " + std::to_string(o);
        text += "; ";
    }
    std::vector<std::string> lines;
    for (auto n = s.draw(5); n > 0; --n) lines.push_back(s.chance(1, 3) ? "exit" : s.chance(1, 3) ? "" : s.chance(1, 3) ? "stop" : "say");
    const bool file = s.coin();
    c.note(text + (file ? "file" : "calls") + " " + show(lines));
    // reference
    struct Model
    {
        std::vector<int>* ops;
        std::string out;
        bool over = false, nested = false;
        int depth = 0;
        std::vector<std::string> said;
        void act(int k)
        {
            out += std::string("[") + names[k] + "]";
            ++depth;
            for (auto o : ops[k])
            {
                if (o == 1) exit();
                else if (o == 2) prompt();
                else if (o == 3) feed("exit");
                else if (o == 4) { prompt(); exit(); prompt(); }
                if (o) nested = true;
            }
            --depth;
        }
        void prompt() { if (!over) out += "m> "; }
        void exit()
        {
            if (over) return;
            over = true;
            act(exitS);
            act(exitG);
        }
        void feed(const std::string& l)
        {
            if (l == "exit") exit();
            else if (l == "stop") { out += "stop"; exit(); prompt(); out += "ped"; }
            else if (l == "say") out += "said";
        }
    } m;
    m.ops = ops;
    m.act(enterG);
    m.act(enterS);
    std::string input;
    for (auto& l : lines) input += l + "\n";
    std::size_t k = 0;
    while (!m.over)
    {
        m.prompt();
        if (k == lines.size()) m.exit();
        else m.feed(lines[k++]);
    }
    // real
    std::ostringstream out;
    std::istringstream in(input);
    cli::CliSession* session = nullptr;
    auto root = std::make_unique<cli::Menu>("m");
    root->Insert("say", [](std::ostream& o) { o << "said"; });
    root->Insert("stop", [&](std::ostream& o) { o << "stop"; session->Exit(); session->Prompt(); o << "ped"; });
    auto st = std::make_unique<RecorderStorage>(100);
    int stores = 0;
    st->onStore = [&](const std::vector<std::string>&) { ++stores; };
    cli::Cli app(std::move(root), std::move(st));
    int depth = 0;
    auto action = [&](int i)
    {
        return [&, i](std::ostream& o)
        {
            o << "[" << names[i] << "]";
            if (++depth > 20) throw std::logic_error("endless actions");
            for (auto op : ops[i])
            {
                if (op == 1) session->Exit();
                else if (op == 2) session->Prompt();
                else if (op == 3) session->Feed("exit");
                else if (op == 4) { session->Prompt(); session->Exit(); session->Prompt(); }
            }
            --depth;
        };
    };
    app.EnterAction(action(enterG));
    app.ExitAction(action(exitG));
    std::unique_ptr<cli::CliSession> own;
    if (file) own = std::make_unique<cli::CliFileSession>(app, in, out);
    else own = std::make_unique<cli::CliSession>(app, out);
    session = own.get();
    session->EnterAction(action(enterS));
    session->ExitAction(action(exitS));
    try
    {
        if (file) static_cast<cli::CliFileSession&>(*own).Start();
        else
        {
            // as a keyboard session does; the end of a session is that of its exit action
            session->Enter();
            for (std::size_t i = 0; i <= lines.size() && out.str().find("[exitG]") == std::string::npos; ++i)
            {
                session->Prompt();
                if (i == lines.size()) session->Exit();
                else session->Feed(lines[i]);
            }
            session->Prompt();
        }
    }
    catch (const std::exception& e) { c.fail(std::string("exception: ") + e.what()); return; }
    VF_REQUIRE(c, out.str() == m.out, "written " << quote(out.str(), 2000) << " expected " << quote(m.out, 2000));
    VF_REQUIRE(c, stores == 1, "the commands were stored " << stores << " times");
    if (m.nested) c.nontrivial();
}

// sessions driven by keys and calls: every way to end, combined and repeated
void keySession(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    w.printActions = true;
    Config cfg;
    cfg.maxDepth = 2;
    cfg.maxEntries = 4;
    cfg.maxTotal = 6;
    w.genTree(cfg);
    setActs(w, "\n");
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(s.coin() ? 100 : static_cast<std::size_t>(s.draw(4)));
    auto& x = w.sessions[0];
    w.log.clear();
    x.s->Enter();
    {
        const std::vector<Ev> want = {{"enterG", 0, -1, ""}, {"enterS", 0, -1, ""}};
        VF_REQUIRE(c, w.log == want, "entering: happened " << world::show(w.log) << " expected " << world::show(want));
        VF_REQUIRE(c, x.out->str() == "[EG][ES]", "entering wrote " << quote(x.out->str()));
    }
    Editor e(w, 0);
    std::size_t exitS = 0, exitG = 0, stores = 0;
    auto count = [&]
    {
        for (auto& ev : w.log)
        {
            if (ev.kind == "exitS") ++exitS;
            if (ev.kind == "exitG") { if (exitG == exitS) c.fail("the global exit action ran before that of the session"); ++exitG; }
            if (ev.kind == "store") ++stores;
        }
        w.log.clear();
    };
    auto type = [&](const std::string& t)
    {
        for (char ch : t) { auto bad = e.press({KeyType::ascii, ch == '\t' || ch == '\n' ? ' ' : ch}); if (!bad.empty() && !x.exited) { c.fail(bad); return; } }
    };
    const auto before = s.draw(6);
    for (std::uint64_t i = 0; i < before && !x.exited && !c.failed(); ++i)
    {
        Span sp(s);
        auto line = w.genLine(0, cfg);
        c.note(quote(line));
        if (line.find('!') != std::string::npos) continue;
        type(line);
        e.press({KeyType::ret, ' '});
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); return; }
        count();
        VF_REQUIRE(c, exitS == (x.exited ? 1u : 0u) && exitG == exitS, "after " << quote(line) << " the exit actions ran " << exitS << " and " << exitG << " times");
    }
    // the endings
    const auto m = 1 + s.draw(4);
    for (std::uint64_t i = 0; i < m && !c.failed(); ++i)
    {
        Span sp(s);
        w.log.clear();
        x.take();
        switch (s.draw(4))
        {
            case 0: c.note("EOF key"); w.modelExit(0); e.keys.press(KeyType::eof); e.queue.drain(); break;
            case 1: c.note("Exit()"); w.modelExit(0); x.s->Exit(); break;
            case 2: c.note("Feed exit"); w.modelExit(0); x.s->Feed("exit"); break;
            default:
            {
                c.note("keys: exit");
                w.modelExit(0);
                e.keys.press(KeyType::home);
                e.keys.press(KeyType::end);
                // whatever is on the line
                for (int k = 0; k < 60; ++k) e.keys.press(KeyType::backspace);
                for (char ch : std::string("exit")) e.keys.press(KeyType::ascii, ch);
                e.keys.press(KeyType::ret);
                e.queue.drain();
                break;
            }
        }
        const auto out = x.take();
        const bool first = exitS == 0;
        const auto p = out.find("> ");
        count();
        VF_REQUIRE(c, exitS == 1 && exitG == 1 && stores == 1, "the exit actions ran " << exitS << " and " << exitG << " times, the history was stored " << stores << " times");
        if (first) VF_REQUIRE(c, out.find("[XS][XG]") != std::string::npos, "ending wrote " << quote(out));
        VF_REQUIRE(c, p == std::string::npos, "a prompt is shown after the end: " << quote(out));
        x.s->Prompt();
        const auto prompt = x.take();
        VF_REQUIRE(c, prompt.empty(), "a prompt is shown after the end: " << quote(prompt));
    }
    if (m > 1) c.nontrivial();
}

void unusable(Ctx& c)
{
    auto& s = c.src;
    static const std::vector<std::ios::iostate> bits = {std::ios::failbit, std::ios::badbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit, std::ios::failbit | std::ios::eofbit};
    auto root = std::make_unique<cli::Menu>("cli");
    cli::Cli app(std::move(root));
    std::istringstream in("exit\n");
    std::ostringstream out;
    const bool badIn = s.coin(), badOut = s.coin();
    if (badIn) in.setstate(s.pick(bits));
    if (badOut) out.setstate(s.pick(bits));
    c.note(std::string(badIn ? "bad" : "good") + " input " + std::to_string(in.rdstate()) + ", " + (badOut ? "bad" : "good") + " output " + std::to_string(out.rdstate()));
    bool refused = false;
    try
    {
        cli::CliFileSession session(app, in, out);
        session.Start();
    }
    catch (const std::invalid_argument&) { refused = true; }
    VF_REQUIRE(c, refused == (badIn || badOut), "the session is " << (refused ? "" : "not ") << "refused");
    if (refused)
    {
        out.clear();
        cli::Cli::cout() << "x" << std::flush;
        VF_REQUIRE(c, out.str().empty(), "a refused session still gets the global output");
        c.nontrivial();
    }
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C15";
    su.rule = "file sessions on generated inputs (up to 20000 lines, lines of megabytes, strings, files, streams that deliver in pieces or fail at the end; exits by command, by handlers, repeated, none; lines after exit), with and without actions: the whole "
              "sequence of actions, calls and prompts is compared with a model; sessions driven by keys and calls that end in every combination of ways; actions that end the session, feed it exit or ask for the prompt; unusable streams. "
              "Non-trivial: more than one line executed, more than one ending, or a refusal.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"file-sessions", fileSession, 80000, 1200000, 0, 20},
        {"long-input", longInput, 120, 3000, 0, 30},
        {"reading-handlers", readingHandlers, 20000, 300000, 0, 20},
        {"actions", actionsThatExit, 40000, 500000, 0, 20},
        {"endings", keySession, 60000, 800000, 0, 20},
        {"unusable-streams", unusable, 200, 2000, 0, 20},
    };
    return su;
}
