// C17 Sessions sharing an application do not interfere with each other
#include "app.h"

using namespace vf;
using editor::Keys;
using editor::Queue;
using cli::detail::KeyType;
using app::App;
using app::Node;
using app::genNode;
using app::genLine;
using app::collect;

namespace
{

struct Step { int kind; std::string text; };

struct Live
{
    std::unique_ptr<std::ostringstream> out = std::make_unique<std::ostringstream>();
    std::unique_ptr<cli::CliSession> s;
    std::string extra; // results that are not output
    bool exited = false;
    void step(const Step& t)
    {
        switch (t.kind)
        {
            case 0: s->Feed(t.text); break;
            case 1: s->Prompt(); break;
            case 2: extra += "up " + s->PreviousCmd(t.text) + "\n"; break;
            case 3: extra += "down " + s->NextCmd() + "\n"; break;
            case 4: extra += show(s->GetCompletions(t.text)) + "\n"; break;
            case 5: s->Help(); break;
            case 6: s->ShowHistory(); break;
            case 7: s->Enter(); break;
            case 8: extra += show(s->GetCompletions("")) + "\n"; break;
            default: s->Exit(); break;
        }
    }
    std::string transcript() const { return out->str() + "|" + extra; }
};

void calls(Ctx& c)
{
    auto& s = c.src;
    int budget = 14;
    auto tree = genNode(s, 0, budget);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    std::string t;
    for (auto& p : all) t += p.first + (p.second->menu ? "/" : ":" + std::to_string(p.second->kind)) + (p.second->enabled ? "" : "(off)") + ", ";
    c.note("tree: " + t);
    std::vector<std::string> stored;
    for (std::uint64_t i = 0, n = s.draw(4); i < n; ++i) stored.push_back(genLine(s, all));
    const bool crowd = s.chance(1, 100);
    const auto k = crowd ? 8 + s.draw(32) : 2 + s.draw(3);
    if (crowd) c.label("many sessions");
    const bool ownReports = s.chance(1, 3);
    // in some applications most lines are commands inside which the other sessions go on, typed or by number
    std::vector<std::string> pokes;
    if (s.chance(1, 3))
        for (auto& p : all) if (!p.second->menu && p.second->kind == 5) pokes.push_back(p.first);
    if (!pokes.empty()) c.label("mostly nested");
    auto line = [&]() -> std::string
    {
        if (pokes.empty() || s.chance(1, 3)) return genLine(s, all);
        return s.chance(1, 3) ? s.pick(pokes) : "! " + std::to_string(s.draw(6));
    };
    std::vector<std::vector<Step>> steps(k);
    std::vector<std::size_t> sizes(k);
    for (std::size_t i = 0; i < k; ++i)
    {
        Span sp(s);
        sizes[i] = s.coin() ? 100 : static_cast<std::size_t>(s.draw(5));
        const auto n = s.size(crowd ? 8 : 25);
        for (std::size_t j = 0; j < n; ++j)
        {
            Span sp2(s);
            Step st;
            st.kind = static_cast<int>(s.weighted({60, 12, 8, 6, 6, 2, 2, 1, 2, 1}));
            if (st.kind == 0 || st.kind == 2) st.text = line();
            if (st.kind == 4) { st.text = genLine(s, all); st.text = st.text.substr(0, s.draw(st.text.size() + 1)); }
            c.note("s" + std::to_string(i) + " " + std::to_string(st.kind) + " " + quote(st.text));
            steps[i].push_back(st);
        }
    }
    // alone
    std::vector<std::string> alone(k);
    for (std::size_t i = 0; i < k; ++i)
    {
        App app(tree, stored, ownReports);
        Live x;
        x.s = std::make_unique<cli::CliSession>(*app.cli, *x.out, sizes[i]);
        for (auto& st : steps[i]) x.step(st);
        alone[i] = x.transcript();
    }
    // together
    App app(tree, stored, ownReports);
    std::vector<std::unique_ptr<Live>> live(k);
    std::vector<std::size_t> at(k);
    std::vector<bool> busy(k), gone(k);
    std::string order;
    std::size_t switches = 0, last = k, nested = 0;
    std::function<void(int)> turn = [&](int depth)
    {
        std::vector<std::size_t> v;
        for (std::size_t i = 0; i < k; ++i) if (!busy[i] && !gone[i]) v.push_back(i);
        if (v.empty()) return;
        auto i = s.pick(v);
        if (i != last) ++switches;
        last = i;
        order += " " + std::string(static_cast<std::size_t>(depth), '(') + std::to_string(i);
        if (depth) ++nested;
        if (!live[i])
        {
            live[i] = std::make_unique<Live>();
            live[i]->s = std::make_unique<cli::CliSession>(*app.cli, *live[i]->out, sizes[i]);
        }
        if (at[i] == steps[i].size())
        {
            // ended: destroyed while the others go on
            gone[i] = true;
            live[i]->s.reset();
            return;
        }
        busy[i] = true;
        live[i]->step(steps[i][at[i]++]);
        busy[i] = false;
        last = i;
    };
    int depth = 0;
    app.poked = [&]
    {
        ++depth;
        for (auto n = s.draw(4); n > 0; --n) turn(depth);
        --depth;
    };
    while (std::find(gone.begin(), gone.end(), false) != gone.end() && order.size() < (crowd ? 40000 : 4000)) turn(0);
    c.note("order" + order);
    for (std::size_t i = 0; i < k; ++i)
        if (live[i] && at[i] == steps[i].size())
            VF_REQUIRE(c, live[i]->transcript() == alone[i], "session " << i << " among others: " << quote(live[i]->transcript(), 3000) << "\nalone: " << quote(alone[i], 3000));
    if (switches > 4) c.nontrivial();
    if (nested) c.label("a session goes on inside a handler of another one");
}

struct KeyLive
{
    KeyLive(App& app, cli::Scheduler& sch, std::size_t n) : session(*app.cli, out, n), keys(sch), processor(session, keys) { session.Enter(); session.Prompt(); }
    std::ostringstream out;
    cli::CliSession session;
    Keys keys;
    cli::detail::CommandProcessor<cli::detail::TelnetScreen> processor;
};

void keys(Ctx& c)
{
    auto& s = c.src;
    int budget = 10;
    auto tree = genNode(s, 0, budget);
    std::vector<std::pair<std::string, const Node*>> all;
    collect(tree, "", all);
    std::vector<std::string> stored;
    for (std::uint64_t i = 0, n = s.draw(4); i < n; ++i) stored.push_back(genLine(s, all));
    const bool crowd = s.chance(1, 100);
    const auto k = crowd ? 8 + s.draw(32) : 2 + s.draw(3);
    if (crowd) c.label("many sessions");
    using K = std::pair<KeyType, char>;
    std::vector<std::vector<K>> steps(k);
    std::vector<std::size_t> sizes(k);
    for (std::size_t i = 0; i < k; ++i)
    {
        Span sp(s);
        std::string t;
        sizes[i] = s.coin() ? 100 : static_cast<std::size_t>(s.draw(5));
        const auto n = s.size(crowd ? 8 : 20);
        for (std::size_t j = 0; j < n; ++j)
        {
            Span sp2(s);
            switch (s.draw(5))
            {
                case 0: case 1:
                {
                    auto l = genLine(s, all);
                    t += quote(l);
                    for (char ch : l) steps[i].emplace_back(KeyType::ascii, ch);
                    if (s.chance(3, 4)) { t += "ENTER"; steps[i].emplace_back(KeyType::ret, ' '); }
                    break;
                }
                case 2: t += "TAB"; steps[i].emplace_back(KeyType::ascii, '\t'); break;
                default:
                {
                    static const std::vector<KeyType> ks = {KeyType::up, KeyType::down, KeyType::up, KeyType::down, KeyType::left, KeyType::right, KeyType::backspace, KeyType::canc, KeyType::home,
                        KeyType::end, KeyType::ret, KeyType::clear, KeyType::ignored};
                    auto kk = s.pick(ks);
                    t += "k" + std::to_string(static_cast<int>(kk)) + " ";
                    steps[i].emplace_back(kk, ' ');
                    break;
                }
            }
        }
        if (s.chance(1, 8)) { t += "EOF"; steps[i].emplace_back(KeyType::eof, ' '); }
        c.note("s" + std::to_string(i) + " " + t);
    }
    std::vector<std::string> alone(k);
    for (std::size_t i = 0; i < k; ++i)
    {
        App app(tree, stored);
        Queue q;
        KeyLive x(app, q, sizes[i]);
        for (auto& p : steps[i]) { x.keys.press(p.first, p.second); q.drain(); }
        alone[i] = x.out.str();
    }
    App app(tree, stored);
    Queue q;
    std::vector<std::unique_ptr<KeyLive>> live;
    for (std::size_t i = 0; i < k; ++i) live.push_back(std::make_unique<KeyLive>(app, q, sizes[i]));
    std::vector<std::size_t> at(k);
    std::size_t turns = 0;
    for (;;)
    {
        std::vector<std::size_t> v;
        for (std::size_t i = 0; i < k; ++i) if (at[i] < steps[i].size()) v.push_back(i);
        if (v.empty()) break;
        auto i = s.pick(v);
        ++turns;
        for (auto n = 1 + s.draw(8); n > 0 && at[i] < steps[i].size(); --n)
        {
            live[i]->keys.press(steps[i][at[i]].first, steps[i][at[i]].second);
            ++at[i];
        }
        if (s.coin()) q.drain();
    }
    q.drain();
    for (std::size_t i = 0; i < k; ++i)
        VF_REQUIRE(c, live[i]->out.str() == alone[i], "session " << i << " among others: " << quote(live[i]->out.str(), 3000) << "\nalone: " << quote(alone[i], 3000));
    if (turns > 6) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C17";
    su.rule = "a random menu tree and two to four sessions with random scripts (lines, prompts, browsing, completion, help, history, errors, exits; or keys through the line editor): the transcript of each session run "
              "with the others in a random interleaving, also from inside their handlers, on one application is compared with its transcript alone on an application of its own. Non-trivial: several switches between sessions.";
    su.resetGlobals = world::resetLibraryState;
    su.props = {
        {"calls", calls, 60000, 900000, 0, 20},
        {"keys", keys, 40000, 600000, 0, 20},
    };
    return su;
}
