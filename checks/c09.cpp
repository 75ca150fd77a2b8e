// C09 The line submitted is the line edited, and the screen shows it
#include "editor.h"

using namespace vf;
using namespace editor;

namespace
{

void run(Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 2;
    cfg.maxEntries = 3;
    cfg.maxTotal = 6;
    w.genTree(cfg);
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(s.chance(1, 4) ? static_cast<std::size_t>(s.draw(3)) : 100);
    if (s.chance(1, 4)) cli::SetColor();
    Editor e(w, 0);
    static const std::string chars = std::string("abcdefgz  ..\"'\\!-019~{}|#;,*?$()[]<>/%&@^`=+_:XYZ") + "\xc3\xa9\xff\x80";
    const bool big = s.chance(1, 80);
    auto n = big ? 1 + s.draw(1500) : 1 + s.size(120);
    // how many of each: characters, left, right, home, end, backspace, delete, unknown, enter
    static const std::vector<std::vector<unsigned>> mixes = {
        {50, 10, 8, 4, 4, 8, 8, 3, 8}, {30, 25, 15, 3, 3, 10, 10, 2, 3}, {80, 5, 2, 2, 2, 3, 3, 1, 2}, {20, 15, 15, 8, 8, 15, 15, 4, 10}, {60, 12, 6, 8, 1, 2, 2, 0, 9}};
    const auto& mix = s.pick(mixes);
    bool edited = false, enteredEdited = false;
    std::string line; // description
    std::string whole; // characters of a typed command still to come
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        Key k{KeyType::ascii, ' '};
        if (!whole.empty()) { k.ch = whole[0]; whole.erase(0, 1); }
        else
            switch (s.weighted(mix))
            {
                case 0:
                    if (s.chance(1, 25))
                    {
                        whole = w.genLine(0, cfg);
                        for (auto& ch : whole) if (ch == '\t' || ch == '\n') ch = ' ';
                        if (whole.empty()) whole = "x";
                        k.ch = whole[0];
                        whole.erase(0, 1);
                        break;
                    }
                    k.ch = s.chance(1, 12) ? static_cast<char>(32 + s.draw(95)) : s.pick(chars);
                    break;
                case 1: k.k = KeyType::left; break;
                case 2: k.k = KeyType::right; break;
                case 3: k.k = KeyType::home; break;
                case 4: k.k = KeyType::end; break;
                case 5: k.k = KeyType::backspace; break;
                case 6: k.k = KeyType::canc; break;
                case 7: k.k = KeyType::ignored; break;
                default: k.k = KeyType::ret; break;
            }
        if (i + 1 == n && !big) k = Key{KeyType::ret, ' '}; // so that the last line counts too
        line += k.text() + " ";
        if (line.size() > 120 || i + 1 == n) { c.note(line); line.clear(); }
        const bool inside = e.pos < e.text.size();
        if (inside && (k.k == KeyType::ascii || k.k == KeyType::backspace || k.k == KeyType::canc)) edited = true;
        auto bad = e.press(k);
        if (!bad.empty() && !line.empty()) c.note(line);
        VF_REQUIRE(c, bad.empty(), "after key " << k.text() << " (line " << quote(e.text) << ", position " << e.pos << "): " << bad);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (e.entered)
        {
            if (edited) { enteredEdited = true; edited = false; c.label("edited line entered"); }
            auto want = only(w.expected, {"call", "wrong"});
            auto got = only(w.log, {"call", "wrong"});
            VF_REQUIRE(c, got == want, "entering " << quote(e.submitted) << ": happened " << show(got) << " expected " << show(want));
        }
        if (e.ended) { c.label("exit"); break; }
    }
    if (enteredEdited) c.nontrivial();
}

// lines much longer than a row of the screen or any buffer
void longLines(Ctx& c)
{
    auto& s = c.src;
    cli::Cli app(std::make_unique<cli::Menu>("m"));
    std::vector<std::string> wrong;
    app.WrongCommandHandler([&](std::ostream&, const std::string& l) { wrong.push_back(l); });
    std::ostringstream out;
    cli::CliSession session(app, out);
    Queue queue;
    Keys keys(queue);
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> processor(session, keys);
    session.Prompt();
    Screen screen;
    std::vector<std::string> want;
    for (auto n = 1 + s.draw(2); n > 0; --n)
    {
        std::string text;
        std::size_t pos = 0;
        auto press = [&](KeyType k, char ch = ' ') { keys.press(k, ch); queue.drain(); };
        auto check = [&](const char* when) -> bool
        {
            screen.write(out.str());
            out.str("");
            if (trimEnd(screen.line()) == trimEnd("m> " + text) && screen.col == 3 + pos) return true;
            c.fail("a line of " + std::to_string(text.size()) + " characters (position " + std::to_string(pos) + ") is, " + when + ", shown as " + std::to_string(screen.line().size())
                + " characters, cursor " + std::to_string(screen.col));
            return false;
        };
        for (auto parts = 1 + s.draw(5); parts > 0; --parts)
        {
            Span sp(s);
            // somewhere in the line
            switch (s.draw(4))
            {
                case 0: press(KeyType::home); pos = 0; break;
                case 1: press(KeyType::end); pos = text.size(); break;
                case 2: for (auto m = s.draw(300); m > 0; --m) { press(KeyType::left); if (pos > 0) --pos; } break;
                default: for (auto m = s.draw(300); m > 0; --m) { press(KeyType::right); if (pos < text.size()) ++pos; } break;
            }
            switch (s.draw(6))
            {
                case 0: for (auto m = s.draw(200); m > 0; --m) { press(KeyType::backspace); if (pos > 0) text.erase(--pos, 1); } break;
                case 1: for (auto m = s.draw(200); m > 0; --m) { press(KeyType::canc); if (pos < text.size()) text.erase(pos, 1); } break;
                default:
                {
                    const auto m = pos == text.size() ? (s.chance(1, 150) ? 65400 + s.draw(300) : s.draw(6000)) : s.draw(200);
                    const auto first = s.draw(26), step = s.draw(5);
                    for (std::uint64_t i = 0; i < m; ++i)
                    {
                        // an editor that draws the whole line at every key is slow here, and right
                        if (i % 256 == 255 && c.slow()) { c.label("cut: slow"); break; }
                        if (i % 256 == 255) { screen.write(out.str()); out.str(""); }
                        const char ch = static_cast<char>('a' + (first + i * step) % 26);
                        press(KeyType::ascii, ch);
                        text.insert(pos++, 1, ch);
                    }
                }
            }
            c.note(std::to_string(text.size()));
            if (!check("after editing")) return;
        }
        if (text.size() > 1500) c.nontrivial();
        if (s.chance(1, 3))
        {
            // out of the history and back
            press(KeyType::up);
            screen.write(out.str());
            out.str("");
            press(KeyType::down);
            if (!want.empty()) { pos = text.size(); if (!check("after up and down")) return; }
            else { screen.write(out.str()); out.str(""); }
            if (want.empty()) { press(KeyType::home); for (std::size_t i = 0; i <= text.size(); ++i) press(KeyType::canc); text.clear(); pos = 0; }
        }
        press(KeyType::ret);
        screen.write(out.str());
        out.str("");
        if (!text.empty()) want.push_back(text);
    }
    VF_REQUIRE(c, wrong.size() == want.size(), wrong.size() << " lines were submitted instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
        VF_REQUIRE(c, wrong[i] == want[i], "of a line of " << want[i].size() << " characters " << wrong[i].size() << " were submitted: " << quote(wrong[i], 200));
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C09";
    su.rule = "sequences of up to 1500 keys (printable and 8-bit characters, arrows, home, end, backspace, delete, unknown, enter) in several mixes, colours on and off, fed to the line editor of a session. "
              "After every key a terminal emulator must show prompt, line and cursor as a reference insert-mode editor has them; entered lines must act as the reference text. "
              "Non-trivial: a line edited in its middle was entered.";
    su.rule += " Family all-keys mixes typing, moving, deleting, browsing, completing, clearing and entering; non-trivial there: a line replaced while the cursor was inside it.";
    su.rule += " Family long-lines edits lines of up to 30000, rarely over 65536, characters; non-trivial there: over 1500 characters.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"keys", run, 160000, 3000000, 0, 20},
        {"all-keys", runAllKeys, 60000, 1200000, 0, 20},
        {"long-lines", longLines, 600, 12000, 0, 60},
    };
    return su;
}
