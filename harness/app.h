// A generated application as data, so that the same one can be built several times.
#ifndef APP_H
#define APP_H

#include "editor.h"

namespace app
{

using namespace vf;

// the application, as data, so that it can be built several times
struct Node
{
    bool menu = false, enabled = true;
    std::string name, prompt, desc;
    int kind = 0;
    std::vector<std::string> pars;
    std::vector<Node> kids;
};

inline const std::vector<std::string>& names()
{
    static const std::vector<std::string> v = {"a", "b", "ab", "foo", "foobar", "sub", "sub2", "bar", "x y"};
    return v;
}

inline std::string longName(std::string r, Src& s)
{
    static const std::size_t sizes[] = {17, 40, 70, 130, 260, 600};
    const auto n = sizes[s.draw(6)] + s.draw(10);
    for (std::size_t i = 0; r.size() < n; ++i) r += static_cast<char>('a' + i % 26);
    return r;
}

// kinds: how many kinds of handlers there are
inline Node genNode(Src& s, int depth, int& budget, int kinds = 7)
{
    Node n;
    n.menu = depth == 0 || (depth < 4 && s.chance(2, 5));
    n.name = depth == 0 ? "cli" : s.chance(1, 60) ? longName(s.coin() ? "foo" : "", s) : s.pick(names());
    n.enabled = depth == 0 || !s.chance(1, 10);
    if (n.menu)
    {
        if (s.chance(1, 3)) n.prompt = s.chance(1, 10) ? longName("p", s) : "p" + std::to_string(s.draw(9));
        auto k = s.draw(6);
        for (std::uint64_t i = 0; i < k && budget > 0; ++i) { --budget; Span sp(s); n.kids.push_back(genNode(s, depth + 1, budget, kinds)); }
    }
    else n.kind = static_cast<int>(s.draw(static_cast<std::uint64_t>(kinds)));
    return n;
}

struct App
{
    std::function<void()> poked = [] {};
    std::string log; // the handlers called
    std::function<void(bool)> colour = [](bool) {};
    std::unique_ptr<cli::Cli> cli;
    int ids = 0;

    void fill(cli::Menu& m, const Node& n)
    {
        for (auto& k : n.kids)
        {
            const auto id = std::to_string(++ids);
            cli::CmdHandler h;
            if (k.menu)
            {
                auto sub = std::make_unique<cli::Menu>(k.name, "(menu " + id + ")", k.prompt);
                fill(*sub, k);
                h = m.Insert(std::move(sub));
            }
            else switch (k.kind)
            {
                case 0: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << "[" << id << "]\n"; }, "c" + id); break;
                case 1: h = m.Insert(k.name, {"number"}, [this, id](std::ostream& o, int n) { log += id + " " + std::to_string(n) + ";"; o << "[" << id << " " << n << "]\n"; }, "c" + id); break;
                case 2: h = m.Insert(k.name, [this, id](std::ostream& o, const std::string& t) { log += id + " " + t + ";"; o << "[" << id << " " << t << "]\n"; }, "c" + id); break;
                case 3: h = m.Insert(k.name, [this, id](std::ostream& o, const std::vector<std::string>& t) { log += id + " " + show(t) + ";"; o << "[" << id << " " << show(t) << "]\n"; }); break;
                case 4: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << "<"; if (id.back() % 2) throw std::runtime_error("error " + id); throw 5; }); break;
                case 5: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << "before " << id << "\n"; poked(); o << "after " << id << "\n"; if (id.back() % 2) throw std::runtime_error("broken " + id); }); break;
                case 7: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << "on " << id << "\n"; colour(true); o << "on\n"; }); break;
                case 8: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << "off " << id << "\n"; colour(false); o << "off\n"; }); break;
                case 9: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << std::hex << std::showbase << std::showpos << 255 << " " << id << "\n"; }); break;
                case 10: h = m.Insert(k.name, [this, id](std::ostream& o) { log += id + ";"; o << id << "\n" << std::setfill('.') << std::setw(12); }); break;
                default: h = m.Insert(k.name, [this, id](std::ostream& o, const std::string& a, unsigned b) { log += id + " " + a + std::to_string(b) + ";"; o << "[" << id << " " << a << b << "]\n"; }); break;
            }
            if (!k.enabled) h.Disable();
        }
    }
    App(const Node& root, const std::vector<std::string>& stored, bool ownReports = false)
    {
        auto r = std::make_unique<cli::Menu>("cli", "", root.prompt);
        fill(*r, root);
        struct Fixed : cli::HistoryStorage
        {
            void Store(const std::vector<std::string>&) override {}
            std::vector<std::string> Commands() const override { return v; }
            void Clear() override {}
            std::vector<std::string> v;
        };
        auto st = std::make_unique<Fixed>();
        st->v = stored;
        cli = std::make_unique<cli::Cli>(std::move(r), std::move(st));
        cli->ExitAction([](std::ostream& o) { o << "bye\n"; });
        cli->EnterAction([](std::ostream& o) { o << "hi\n"; });
        if (!ownReports) return;
        cli->StdExceptionHandler([](std::ostream& o, const std::string& l, const std::exception& e) { o << "failed " << l << ": " << e.what() << "\n"; });
        cli->WrongCommandHandler([](std::ostream& o, const std::string& l) { o << "what is " << l << "\n"; });
    }
};

inline void collect(const Node& n, const std::string& path, std::vector<std::pair<std::string, const Node*>>& out)
{
    for (auto& k : n.kids)
    {
        auto name = k.name.find(' ') == std::string::npos ? k.name : "'" + k.name + "'";
        out.emplace_back(path + name, &k);
        if (k.menu) collect(k, path + name + " ", out);
    }
}

inline std::string genLine(Src& s, const std::vector<std::pair<std::string, const Node*>>& all)
{
    switch (s.weighted({50, 20, 6, 6, 3, 5, 10}))
    {
        case 0:
        {
            if (all.empty()) return "nothing";
            auto& p = s.pick(all);
            std::string t;
            const bool good = !s.chance(1, 8);
            const auto a = std::to_string(s.draw(100));
            if (!p.second->menu && good)
                t = p.second->kind == 1 ? " " + a : p.second->kind == 2 ? " w" + a : p.second->kind == 3 ? " x y " + a : p.second->kind == 6 ? " w " + a : "";
            else if (!good) t = " " + a + " z";
            return (s.chance(1, 6) ? ".. " : "") + p.first + t;
        }
        case 1: return s.pick(names());
        case 2: return "..";
        case 3: return "history";
        case 4: return "help";
        case 5: return "! " + std::to_string(s.draw(8));
        default: return s.chance(1, 8) ? "exit" : s.coin() ? "" : "wrong " + std::to_string(s.draw(5));
    }
}


} // namespace app

#endif
