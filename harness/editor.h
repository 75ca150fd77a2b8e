// A session driven by keys through the line editor, with a model of the line, the history,
// the completions and the screen.
#ifndef EDITOR_H
#define EDITOR_H

#include "world.h"
#include "screen.h"

#include <cli/detail/commandprocessor.h>
#include <cli/detail/telnetscreen.h>

#include <queue>

namespace editor
{

using cli::detail::KeyType;
using namespace world;

struct Queue : cli::Scheduler
{
    void Post(const std::function<void()>& f) override { q.push(f); }
    void drain()
    {
        while (!q.empty())
        {
            auto f = q.front();
            q.pop();
            f();
        }
    }
    std::queue<std::function<void()>> q;
};

struct Keys : cli::detail::InputDevice
{
    explicit Keys(cli::Scheduler& s) : InputDevice(s) {}
    void press(KeyType k, char ch = ' ') { vf::alive(); Notify({k, ch}); }
};

struct Key
{
    KeyType k;
    char ch;
    std::string text() const
    {
        static const char* n[] = {"ascii", "UP", "DOWN", "LEFT", "RIGHT", "BACKSPACE", "DELETE", "HOME", "END", "ENTER", "EOF", "UNKNOWN", "CLEAR"};
        if (k == KeyType::ascii) return ch == '\t' ? "TAB" : vf::quote(std::string(1, ch));
        return n[static_cast<int>(k)];
    }
};

inline std::string commonPrefix(const Words& v)
{
    std::string p = v[0];
    for (auto& x : v)
    {
        std::size_t i = 0;
        while (i < p.size() && i < x.size() && p[i] == x[i]) ++i;
        p.resize(i);
    }
    return p;
}

class Editor
{
public:
    Editor(World& w_, std::size_t si_) : w(w_), si(si_), keys(queue), processor(*w.sessions[si].s, keys)
    {
        w.sessions[si].take();
        session().Prompt();
        show();
        lineRow = screen.row;
        promptBefore = w.modelPrompt(si);
    }

    World& w;
    std::size_t si;
    Queue queue;
    Keys keys;
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> processor;
    Screen screen;
    std::string text; // the line
    std::size_t pos = 0;
    std::size_t lineRow = 0;
    // what the last key did
    bool entered = false, listed = false, progressed = false, browsed = false, ended = false;
    std::string submitted;
    std::string raw; // output of the last key

    cli::CliSession& session() { return *w.sessions[si].s; }
    void show()
    {
        raw = w.sessions[si].take();
        screen.write(raw);
    }
    void setLine(const std::string& t) { text = t; pos = t.size(); }

    // presses a key, in the model and for real; returns the disagreement, if any
    std::string press(Key k)
    {
        entered = listed = progressed = browsed = false;
        const auto before = text;
        const auto rowBefore = screen.row;
        Words completions;
        bool unspecifiedDown = false, clear = false;
        w.log.clear();
        w.expected.clear();
        w.plans.clear();
        auto& x = w.sessions[si];
        switch (k.k)
        {
            case KeyType::ascii:
                if (k.ch == '\t')
                {
                    completions = w.modelCompletions(si, text);
                    if (completions.empty()) break;
                    progressed = true;
                    if (completions.size() == 1) { setLine(completions[0] + ' '); break; }
                    if (commonPrefix(completions).size() > text.size()) { setLine(commonPrefix(completions)); break; }
                    listed = true;
                    pos = text.size();
                    break;
                }
                text.insert(pos, 1, k.ch);
                ++pos;
                break;
            case KeyType::left: if (pos > 0) --pos; break;
            case KeyType::right: if (pos < text.size()) ++pos; break;
            case KeyType::home: pos = 0; break;
            case KeyType::end: pos = text.size(); break;
            case KeyType::backspace: if (pos > 0) text.erase(--pos, 1); break;
            case KeyType::canc: if (pos < text.size()) text.erase(pos, 1); break;
            case KeyType::up: browsed = true; setLine(x.hist.up(text)); break;
            case KeyType::down:
                browsed = true;
                if (!x.hist.browsing || x.hist.pos == 0) unspecifiedDown = true; // no newer line
                else setLine(x.hist.down());
                break;
            case KeyType::ret:
                entered = true;
                submitted = text;
                w.modelLine(si, text);
                text.clear();
                pos = 0;
                break;
            case KeyType::clear: clear = true; pos = text.size(); break;
            case KeyType::eof: w.modelExit(si); break;
            case KeyType::ignored: break;
        }
        const auto clears = screen.clears;
        keys.press(k.k, k.ch);
        try { queue.drain(); }
        catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
        show();
        if (w.ambiguous) return {};
        if (x.exited) { ended = true; return {}; }
        if (!screen.odd.empty()) return "the output " + vf::quote(raw) + " cannot be shown by a terminal";
        const auto prompt = w.modelPrompt(si);
        const auto shown = trimEnd(screen.line());
        if (unspecifiedDown)
        {
            if (shown == trimEnd(prompt)) setLine("");
            else pos = text.size();
        }
        if (shown != trimEnd(prompt + text))
            return "the line shown is " + vf::quote(shown) + " expected " + vf::quote(prompt + text);
        if (screen.col != prompt.size() + pos)
            return "the cursor is at column " + std::to_string(screen.col) + " of " + vf::quote(shown) + " expected " + std::to_string(prompt.size() + pos);
        for (auto r = screen.row + 1; r < screen.rows.size(); ++r)
            if (!trimEnd(screen.rows[r]).empty()) return "below the line there is " + vf::quote(screen.rows[r]);
        if (clear)
        {
            if (screen.clears == clears || screen.row != 0) return "the screen is not cleared: " + vf::quote(raw);
        }
        else if (screen.clears != clears) return "the screen is cleared: " + vf::quote(raw);
        if (listed)
        {
            std::string list;
            for (auto r = rowBefore + 1; r < screen.row; ++r) list += screen.rows[r] + "\n";
            if (trimEnd(screen.rows[rowBefore]) != trimEnd(prompt + before)) return "the line left on the screen is " + vf::quote(screen.rows[rowBefore]);
            std::string rest;
            std::size_t at = 0;
            for (auto& t : completions)
            {
                auto p = list.find(t, at);
                if (p == std::string::npos) return "the list " + vf::quote(list) + " does not hold, in order, " + vf::show(completions);
                rest += list.substr(at, p - at);
                at = p + t.size();
            }
            rest += list.substr(at);
            if (rest.find_first_not_of(" \t\n") != std::string::npos) return "the list " + vf::quote(list) + " holds something else than " + vf::show(completions);
            if (list.empty()) return "no list is shown";
        }
        else if (entered)
        {
            if (screen.row <= rowBefore) return "no new line after enter";
            if (trimEnd(screen.rows[rowBefore]) != trimEnd(promptBefore + submitted)) return "the line entered is left on the screen as " + vf::quote(screen.rows[rowBefore]);
        }
        else if (!clear && screen.row != rowBefore) return "the line moved to another row";
        lineRow = screen.row;
        promptBefore = prompt;
        return {};
    }
    std::string promptBefore;
};

// all the keys mixed: typing, moving, deleting, browsing, completing, clearing, entering
inline void runAllKeys(vf::Ctx& c)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxDepth = 2;
    cfg.maxEntries = 5;
    cfg.maxTotal = 10;
    cfg.commonStems = s.coin();
    w.genTree(cfg);
    w.customWrong = w.customExc = true;
    const auto stored = s.draw(4);
    for (std::uint64_t i = 0; i < stored; ++i) w.modelStore.push_back(s.coin() ? "a stored line that is long" : "s" + std::to_string(i));
    if (stored) c.note("stored " + vf::show(w.modelStore));
    w.makeCli();
    static const std::size_t sizes[] = {100, 3, 1, 0, 2, 5};
    const auto size = sizes[s.draw(6)];
    c.note("history size " + std::to_string(size));
    w.addSession(size);
    if (s.chance(1, 5)) cli::SetColor();
    Editor e(w, 0);
    static const std::string chars = std::string("abcs  .\"'!-0~\\");
    const auto n = 1 + s.size(80);
    static const std::vector<std::vector<unsigned>> mixes = {
        {30, 8, 8, 4, 6, 6, 10, 8, 6, 3, 1, 8}, {16, 6, 10, 4, 2, 2, 24, 14, 2, 2, 1, 8}, {24, 10, 10, 6, 4, 4, 4, 2, 16, 8, 1, 4}};
    const auto& mix = s.pick(mixes);
    std::string pending;
    int replaced = 0;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        vf::Span sp(s);
        Key k{KeyType::ascii, ' '};
        if (!pending.empty()) { k.ch = pending[0]; pending.erase(0, 1); }
        else
            switch (s.weighted(mix))
            {
                case 0:
                    if (s.chance(1, 4))
                    {
                        pending = w.genLine(0, cfg);
                        for (auto& ch : pending) if (ch == '\t' || ch == '\n') ch = ' ';
                        if (pending.empty()) pending = "x";
                        if (s.coin()) pending.resize(1 + static_cast<std::size_t>(s.draw(pending.size())));
                        k.ch = pending[0];
                        pending.erase(0, 1);
                    }
                    else k.ch = s.pick(chars);
                    break;
                case 1: k.k = KeyType::left; for (auto m = s.draw(6); m > 1; --m) e.press(k); break;
                case 2: k.k = KeyType::home; break;
                case 3: k.k = s.coin() ? KeyType::right : KeyType::end; break;
                case 4: k.k = KeyType::backspace; break;
                case 5: k.k = KeyType::canc; break;
                case 6: k.k = KeyType::up; break;
                case 7: k.k = KeyType::down; break;
                case 8: k.ch = '\t'; break;
                case 9: k.k = KeyType::clear; break;
                case 10: k.k = KeyType::ignored; break;
                default: k.k = KeyType::ret; break;
            }
        if (i + 1 == n) k = Key{KeyType::ret, ' '};
        c.note(k.text());
        const auto before = e.text;
        const auto posBefore = e.pos;
        const auto bad = e.press(k);
        if ((e.browsed || e.progressed) && e.text != before)
        {
            if (posBefore < before.size()) { ++replaced; c.label("line replaced with the cursor inside it"); }
            if (e.text.size() < before.size()) c.label("line replaced by a shorter one");
        }
        VF_REQUIRE(c, bad.empty(), "after key " << k.text() << " on line " << vf::quote(before) << ", position " << posBefore << ": " << bad);
        if (w.ambiguous) { c.label("stopped at an ambiguous line"); break; }
        if (e.entered)
        {
            auto want = only(w.expected, {"call", "wrong"});
            auto got = only(w.log, {"call", "wrong"});
            VF_REQUIRE(c, got == want, "entering " << vf::quote(e.submitted) << ": happened " << show(got) << " expected " << show(want));
        }
        if (e.ended) break;
    }
    if (replaced) c.nontrivial();
}

} // namespace editor

#endif
