// C25 Colours never change the text
#include "app.h"

#include <cli/clifilesession.h>

#include <fcntl.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

using namespace vf;
using app::App;
using app::collect;
using app::genLine;
using app::genNode;
using app::Node;
using cli::detail::KeyType;
using editor::Keys;
using editor::Queue;

namespace
{

// a piece of output with the colouring it is shown in
struct Piece { std::string text; bool coloured; };

// takes the colour sequences out; returns a problem or an empty string
std::string uncolour(const std::string& t, std::string& plain, std::vector<Piece>& pieces, bool& coloured, bool& any, bool& set)
{
    for (std::size_t i = 0; i < t.size();)
    {
        if (t[i] == '\033' && i + 1 < t.size() && t[i + 1] == '[')
        {
            auto j = i + 2;
            while (j < t.size() && (isdigit(static_cast<unsigned char>(t[j])) || t[j] == ';')) ++j;
            if (j < t.size() && t[j] == 'm')
            {
                const auto p = t.substr(i + 2, j - i - 2);
                any = true;
                coloured = !(p.empty() || p == "0");
                if (coloured) set = true;
                pieces.push_back({"", coloured});
                i = j + 1;
                continue;
            }
            if (j == t.size() || !isalpha(static_cast<unsigned char>(t[j]))) return "an odd sequence in " + quote(t);
        }
        if (pieces.empty()) pieces.push_back({"", coloured});
        pieces.back().text += t[i];
        plain += t[i++];
    }
    return {};
}

struct Step
{
    int kind;          // keys or calls
    KeyType k = KeyType::ascii;
    char ch = ' ';
    std::string text;
    int toggle = 0;    // before the step: 0 nothing, 1 on, 2 off
};

struct Result
{
    std::vector<std::string> out;  // per step
    std::string extra;
};

enum Mode { off, on, toggled };

bool isPart(const std::string& part, const std::string& whole) { return whole.find(part) != std::string::npos; }

std::string run(Ctx& c, const Node& tree, const std::vector<std::string>& stored, const std::vector<Step>& steps, Mode mode, bool keyboard, Result& r)
{
    cli::SetNoColor();
    App app(tree, stored);
    if (mode == toggled) app.colour = [](bool b) { if (b) cli::SetColor(); else cli::SetNoColor(); };
    std::ostringstream out;
    std::size_t mark = 0;
    bool coloured = false, ever = false, steadyOff;
    if (mode == on) cli::SetColor();
    auto session = std::make_unique<cli::CliSession>(*app.cli, out);
    Queue q;
    Keys keys(q);
    std::unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> processor;
    if (keyboard) processor = std::make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*session, keys);
    auto end = [&](bool couldColour) -> std::string
    {
        const auto t = out.str().substr(mark);
        mark += t.size();
        std::string plain;
        std::vector<Piece> pieces;
        bool any = false, set = false;
        auto bad = uncolour(t, plain, pieces, coloured, any, set);
        r.out.push_back(plain);
        if (!bad.empty()) return bad;
        if (coloured) return "colouring is left on after " + quote(t);
        if (any && !ever) return "colour sequences though colours were never on: " + quote(t);
        if (set && !couldColour) return "colours though they are off: " + quote(t);
        for (auto& p : pieces)
        {
            if (!p.coloured || p.text.empty()) continue;
            if (isPart("[", p.text) || isPart("\n", p.text) || isPart("wrong command", p.text) || isPart("Commands available", p.text) || isPart("error ", p.text))
                return "coloured text " + quote(p.text) + " in " + quote(t);
        }
        return {};
    };
    ever = mode == on;
    session->Enter();
    session->Prompt();
    auto bad = end(ever);
    if (!bad.empty()) return bad;
    std::size_t n = 0;
    for (auto& st : steps)
    {
        ++n;
        if (mode == toggled && st.toggle) { if (st.toggle == 1) { cli::SetColor(); ever = true; } else cli::SetNoColor(); }
        steadyOff = !cli::Color();
        switch (st.kind)
        {
            case 0: if (keyboard) keys.press(st.k, st.ch); else session->Feed(st.text); q.drain(); break;
            case 1: session->Prompt(); break;
            case 2: session->Help(); break;
            case 3: session->ShowHistory(); break;
            case 4: r.extra += show(session->GetCompletions(st.text)); break;
            case 5: r.extra += session->PreviousCmd(st.text) + "|"; break;
            default: r.extra += session->NextCmd() + "|"; break;
        }
        if (cli::Color()) ever = true;
        bad = end(!steadyOff || cli::Color());
        if (!bad.empty()) return "step " + std::to_string(n) + ": " + bad;
    }
    session->Exit();
    return end(cli::Color());
}

std::vector<Step> genSteps(Ctx& c, const std::vector<std::pair<std::string, const Node*>>& all, bool keyboard)
{
    auto& s = c.src;
    std::vector<Step> steps;
    const auto n = s.size(30);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        Step st;
        st.kind = 0;
        st.toggle = s.chance(1, 4) ? 1 + static_cast<int>(s.draw(2)) : 0;
        if (st.toggle) c.note(st.toggle == 1 ? "(on)" : "(off)");
        if (!keyboard)
        {
            st.kind = static_cast<int>(s.weighted({50, 25, 3, 3, 3, 3, 3}));
            st.text = genLine(s, all);
            c.note(std::to_string(st.kind) + quote(st.text));
            steps.push_back(st);
            continue;
        }
        switch (s.draw(4))
        {
            case 0: case 1:
            {
                auto l = genLine(s, all);
                c.note(quote(l));
                for (char ch : l)
                {
                    st.ch = ch;
                    st.k = KeyType::ascii;
                    steps.push_back(st);
                    st.toggle = 0;
                }
                if (s.chance(3, 4)) { st.k = KeyType::ret; steps.push_back(st); c.note("ENTER"); }
                break;
            }
            case 2: st.ch = '\t'; steps.push_back(st); c.note("TAB"); break;
            default:
            {
                static const std::vector<KeyType> ks = {KeyType::up, KeyType::down, KeyType::up, KeyType::down, KeyType::left, KeyType::left, KeyType::right, KeyType::backspace, KeyType::canc, KeyType::home,
                    KeyType::end, KeyType::ret, KeyType::clear, KeyType::ignored};
                st.k = s.pick(ks);
                steps.push_back(st);
                c.note("k" + std::to_string(static_cast<int>(st.k)));
                break;
            }
        }
    }
    return steps;
}

void sessions(Ctx& c, bool keyboard)
{
    auto& s = c.src;
    int budget = 10;
    auto tree = genNode(s, 0, budget, 11);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    std::string t;
    for (auto& p : all) t += p.first + (p.second->menu ? "/" : ":" + std::to_string(p.second->kind)) + ", ";
    c.note("tree: " + t);
    std::vector<std::string> stored;
    for (std::uint64_t i = 0, n = s.draw(4); i < n; ++i) stored.push_back(genLine(s, all));
    auto steps = genSteps(c, all, keyboard);
    Result r[3];
    static const char* name[] = {"off", "on", "toggled"};
    const bool onFirst = s.coin(); // the order must not matter either
    for (int i = 0; i < 3; ++i)
    {
        auto m = static_cast<Mode>(onFirst ? 2 - i : i);
        auto bad = run(c, tree, stored, steps, m, keyboard, r[m]);
        VF_REQUIRE(c, bad.empty(), "colours " << name[m] << ": " << bad);
    }
    for (int i = 1; i < 3; ++i)
    {
        VF_REQUIRE(c, r[i].extra == r[0].extra, "with colours " << name[i] << " the calls return " << quote(r[i].extra) << ", without " << quote(r[0].extra));
        for (std::size_t k = 0; k < r[0].out.size(); ++k)
            VF_REQUIRE(c, k < r[i].out.size() && r[i].out[k] == r[0].out[k], "with colours " << name[i] << " step " << k << " shows " << quote(r[i].out[k], 2000) << ", without " << quote(r[0].out[k], 2000));
    }
    if (steps.size() > 4) c.nontrivial();
}

// exactly which parts are coloured: prompts and the line being typed
void parts(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("main", "", s.coin() ? "THEPROMPT" : "");
    root->Insert("say", [](std::ostream& o, const std::string& t) { o << "<" << t << ">\n"; });
    auto sub = std::make_unique<cli::Menu>("sub", "", s.coin() ? "SUBPROMPT" : "");
    sub->Insert("fail", [](std::ostream&) { throw std::runtime_error("<failed>"); });
    root->Insert(std::move(sub));
    cli::Cli app(std::move(root));
    std::ostringstream out;
    // colours may be switched by another thread than the one of the session
    if (s.chance(1, 10)) { std::thread(cli::SetColor).join(); c.note("switched on by another thread"); }
    else cli::SetColor();
    cli::CliSession session(app, out);
    Queue q;
    Keys keys(q);
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> processor(session, keys);
    session.Prompt();
    static const std::vector<std::string> lines = {"say hello", "sub", "main", "fail", "..", "nothing", "help", "history", "", "sa", "sub fail", "! 0", "! 77"};
    std::size_t mark = 0;
    std::string line; // at most this is echoed
    bool coloured = false;
    const auto n = 1 + s.draw(25);
    // need: one of these must be coloured
    auto look = [&](const std::string& what, const std::vector<std::string>& may, const std::vector<std::string>& need = {}) -> bool
    {
        const auto t = out.str().substr(mark);
        mark += t.size();
        std::string plain;
        std::vector<Piece> pieces;
        bool any = false, set = false;
        auto bad = uncolour(t, plain, pieces, coloured, any, set);
        if (!bad.empty()) { c.fail(bad); return false; }
        if (coloured) { c.fail("colouring is left on after " + what + ": " + quote(t)); return false; }
        for (auto& p : pieces)
        {
            if (!p.coloured) continue;
            std::string x;
            for (char ch : p.text) if (ch != '\b') x += ch;
            while (!x.empty() && x.back() == ' ') x.pop_back(); // blanks do not show
            bool ok = x.empty();
            for (auto& m : may) if (isPart(x, m)) ok = true;
            if (!ok) { c.fail("coloured text " + quote(p.text) + " after " + what + ": " + quote(t)); return false; }
        }
        if (need.empty()) return true;
        for (auto& p : pieces)
            for (auto& x : need)
                if (p.coloured && isPart(x, p.text)) return true;
        c.fail("not coloured after " + what + ": " + quote(t) + ", expected " + show(need) + " in colour");
        return false;
    };
    const std::vector<std::string> prompts = {"THEPROMPT> ", "SUBPROMPT> ", "main> ", "sub> "};
    const std::vector<std::string> promptTexts = {"THEPROMPT", "SUBPROMPT", "main", "sub"};
    if (!look("the start", prompts, promptTexts)) return;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        const auto& l = s.pick(lines);
        c.note(quote(l));
        for (char ch : l)
        {
            keys.press(KeyType::ascii, ch);
            q.drain();
            if (!look("typing", {l}, {std::string(1, ch)})) return;
        }
        for (auto m = s.draw(6); m > 0; --m)
        {
            static const std::vector<KeyType> ks = {KeyType::left, KeyType::right, KeyType::home, KeyType::end};
            keys.press(s.pick(ks));
            q.drain();
            if (!look("moving", {l})) return;
        }
        if (s.chance(1, 4))
        {
            keys.press(KeyType::ascii, '\t');
            q.drain();
            auto may = prompts;
            for (auto& x : session.GetCompletions(l)) may.push_back(x + " ");
            may.push_back(l);
            if (!look("completing", may)) return;
            keys.press(KeyType::home);
            for (int k = 0; k < 60; ++k) keys.press(KeyType::canc);
            for (char ch : l) keys.press(KeyType::ascii, ch);
            q.drain();
            if (!look("typing again", may)) return; // (what was completed may be drawn again while it is deleted)
        }
        keys.press(KeyType::ret);
        q.drain();
        if (!look("entering", prompts, promptTexts)) return;
        if (s.chance(1, 4))
        {
            keys.press(KeyType::up);
            q.drain();
            if (!look("browsing", lines)) return;
            keys.press(KeyType::down);
            q.drain();
            if (!look("browsing", lines)) return;
            keys.press(KeyType::home);
            for (int k = 0; k < 60; ++k) keys.press(KeyType::canc);
            q.drain();
            if (!look("deleting", lines)) return;
        }
    }
    c.nontrivial();
}

// sessions that started when colours were off (again) get none; nor does standard output that is not a terminal
void neverOn(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("main");
    root->Insert("say", [](std::ostream& o, const std::string& t) { o << "<" << t << ">\n"; });
    cli::Cli app(std::move(root));
    static const std::vector<std::string> lines = {"say hello", "nothing", "help", "history", "", "main"};
    std::string input;
    for (auto n = s.draw(8); n > 0; --n) input += s.pick(lines) + "\n";
    c.note(quote(input));
    const bool coloursBefore = s.coin(), onCout = s.chance(1, 4);
    if (coloursBefore)
    {
        cli::SetColor();
        std::ostringstream o;
        std::istringstream i(input);
        cli::CliFileSession(app, i, o).Start();
        cli::SetNoColor();
    }
    std::istringstream in(input);
    std::string got;
    if (!onCout)
    {
        std::ostringstream o;
        cli::CliFileSession(app, in, o).Start();
        got = o.str();
    }
    else
    {
        std::cout.flush();
        fflush(stdout);
        const int keep = dup(1), file = memfd_create("out", 0);
        dup2(file, 1);
        {
            cli::CliFileSession session(app, in, std::cout);
            session.Start();
        }
        std::cout.flush();
        dup2(keep, 1);
        close(keep);
        lseek(file, 0, SEEK_SET);
        char b[4096];
        for (ssize_t k; (k = read(file, b, sizeof b)) > 0;) got.append(b, static_cast<std::size_t>(k));
        close(file);
        c.label("standard output, not a terminal");
    }
    VF_REQUIRE(c, got.find('\033') == std::string::npos, "colour sequences though colours are off: " << quote(got, 2000));
    VF_REQUIRE(c, got.find("main> ") != std::string::npos, "no prompt: " << quote(got));
    if (!input.empty()) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C25";
    su.rule = "random menu trees (with handlers that switch colours and that leave number formats, fill and width on the stream) and random scripts of keys, or of lines and calls, run with colours off, on and switched at "
              "random points: texts without colour sequences and results are compared step by step, the state of the colouring and what is coloured are checked. Non-trivial: more than four steps.";
    su.resetGlobals = world::resetLibraryState;
    su.props = {
        {"keys", [](Ctx& c) { sessions(c, true); }, 30000, 500000, 0, 20},
        {"calls", [](Ctx& c) { sessions(c, false); }, 40000, 600000, 0, 20},
        {"parts", parts, 20000, 300000, 0, 20},
        {"never-on", neverOn, 8000, 80000, 0, 20},
    };
    return su;
}
