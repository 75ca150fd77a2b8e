// A generated application (menu tree, handlers, actions, sessions) built both with the library
// and in a reference model, driven line by line in lockstep.
#ifndef WORLD_H
#define WORLD_H

#include "vf.h"
#include "model.h"

#include <cli/cli.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <deque>
#include <iomanip>
#include <iostream>
#include <locale>
#include <optional>
#include <system_error>
#include <typeinfo>

namespace world
{

using model::Ty;
using model::Words;

// ---------------------------------------------------------------- a user type read with operator>>

struct Custom { char a = 0, b = 0; };
inline std::istream& operator>>(std::istream& is, Custom& c)
{
    char a = 0;
    if (!(is >> a)) return is;
    int colon = is.get(), d = is.get();
    if (isalpha(static_cast<unsigned char>(a)) && colon == ':' && d != EOF && isdigit(d)) { c.a = a; c.b = static_cast<char>(d); }
    else is.setstate(std::ios::failbit);
    return is;
}

inline std::string R(const std::string& s) { return s; }
inline std::string R(bool b) { return b ? "true" : "false"; }
inline std::string R(char c) { return std::string(1, c); }
inline std::string R(const Custom& c) { return std::string(1, c.a) + ":" + c.b; }
inline std::string R(float v) { return model::renderF(v); }
inline std::string R(double v) { return model::renderF(v); }
inline std::string R(long double v) { return model::renderF(v); }
template <class T> std::string R(T v) { return std::to_string(v); }

inline std::string joinArgs(const Words& w)
{
    std::string r;
    for (auto& x : w) r += "<" + vf::quote(x, 5000) + ">";
    return r;
}

// ---------------------------------------------------------------- exceptions

struct MyStdException : std::exception { const char* what() const noexcept override { return "my-own-std-exception"; } };
struct MyBadCast : std::bad_cast { const char* what() const noexcept override { return "my-own-bad-cast"; } };
struct NonStd { int x; };
constexpr int nExceptions = 16;
[[noreturn]] inline void throwException(int k, const std::string& t)
{
    switch (k)
    {
        case 0: throw std::runtime_error(t);
        case 1: throw std::logic_error(t);
        case 2: throw std::out_of_range(t);
        case 3: throw std::bad_cast();
        case 4: throw MyBadCast();
        case 5: throw MyStdException();
        case 6: throw std::invalid_argument(t);
        case 7: throw std::domain_error(t);
        case 8: throw std::bad_alloc();
        case 9: throw std::ios_base::failure(t);
        case 10: throw std::system_error(std::make_error_code(std::errc::io_error), t);
        case 11: throw std::length_error(t);
        case 12: throw 42;
        case 13: throw NonStd{7};
        case 14: throw "a C string";
        default: throw std::string("a string");
    }
}
// type and what() of the exception; empty if it does not derive from std::exception
inline std::string exceptionText(int k, const std::string& t)
{
    try { throwException(k, t); }
    catch (const std::exception& e) { return std::string(typeid(e).name()) + "|" + e.what(); }
    catch (...) { return {}; }
}

// ---------------------------------------------------------------- command signatures

class World;
cli::CmdHandler insertCommand(World* w, cli::Menu& m, int id, int sig, int variant, const std::string& name, const std::string& desc, const Words& pars);

// parameter types of each signature; freeform signatures take any number of words
struct SigInfo { std::vector<Ty> types; bool freeform; const char* name; };
inline const std::vector<SigInfo>& sigs()
{
    using T = Ty;
    static const std::vector<SigInfo> s = {
        {{}, false, "()"},
        {{T::Int}, false, "(int)"},
        {{T::Str}, false, "(string)"},
        {{T::Int, T::Int}, false, "(int,int)"},
        {{T::Str, T::Str}, false, "(const string&,string)"},
        {{T::Bool}, false, "(bool)"},
        {{T::Double}, false, "(double)"},
        {{T::UInt}, false, "(unsigned)"},
        {{T::Char}, false, "(char)"},
        {{T::Custom}, false, "(custom)"},
        {{T::Str, T::Int}, false, "(string,int)"},
        {{T::Int, T::Str, T::Bool}, false, "(int,string,bool)"},
        {{}, true, "(words)"},
        {{}, true, "(const words&)"},
        {{T::Str, T::Int, T::Double, T::Char, T::Bool}, false, "(string,int,double,char,bool)"},
        {{T::Int, T::Int, T::Int, T::Str, T::Str, T::Int, T::Bool, T::Str}, false, "(8 parameters)"},
        {{T::Str, T::Str, T::Str}, false, "(string,string,string)"},
#ifdef WORLD_ALL_TYPES
        {{T::LLong}, false, "(long long)"},
        {{T::Float}, false, "(float)"},
        {{T::Short}, false, "(short)"},
        {{T::UChar}, false, "(unsigned char)"},
        {{T::SChar}, false, "(signed char)"},
        {{T::UShort}, false, "(unsigned short)"},
        {{T::ULong}, false, "(unsigned long)"},
        {{T::Long}, false, "(long)"},
        {{T::ULLong}, false, "(unsigned long long)"},
        {{T::LDouble}, false, "(long double)"},
        {{T::UChar, T::SChar, T::Short, T::UShort}, false, "(uchar,schar,short,ushort)"},
        {{T::Float, T::LDouble, T::Custom, T::Char}, false, "(float,long double,custom,char)"},
        {{T::LLong, T::ULLong, T::Long, T::ULong, T::UInt}, false, "(long long,ulonglong,long,ulong,unsigned)"},
#endif
    };
    return s;
}

// ---------------------------------------------------------------- actions done by handlers

// numbers as 1'2'3
struct Grouped : std::numpunct<char>
{
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
};

struct Act
{
    enum Kind { print, throwIt, enable, disable, remove, insertCmd, insertMenu, writeCout, exitSession, none } kind = none;
    int target = -1;      // entry (enable...), menu (insert)
    int n = 0;            // exception
    std::string text;     // printed text
    // inserted entry
    int newId = -1, sig = 0, variant = 0;
    std::string name, desc, prompt;
    Words pars;
};

// ---------------------------------------------------------------- model state

struct MEntry
{
    int id = 0;
    bool isMenu = false, enabled = true, gone = false;
    std::string name, desc, prompt;
    Words pars;
    int sig = 0;
    MEntry* parent = nullptr;
    std::vector<MEntry*> kids;
    std::vector<Act> acts;
};

// History of one session, as documented: entries oldest first with consecutive numbers.
struct Hist
{
    struct E { std::string text; bool own; };
    std::size_t max = 100;
    std::deque<E> v;           // oldest first; while browsing the last one is the line being typed
    std::size_t firstId = 0;
    bool browsing = false;
    std::size_t pos = 0;       // distance from the newest while browsing
    std::optional<E> dropped;  // what the latest insertion pushed out
    bool inserted = false;

    void push(const std::string& t, bool own)
    {
        v.push_back({t, own});
        dropped.reset();
        if (v.size() > max)
        {
            dropped = v.front();
            v.pop_front();
            ++firstId;
        }
    }
    void undoPush()
    {
        if (dropped)
        {
            v.push_front(*dropped);
            --firstId;
            dropped.reset();
        }
        v.pop_back();
    }
    void load(const Words& w) { for (auto& x : w) push(x, false); }
    void stop()
    {
        if (browsing) undoPush();
        browsing = false;
    }
    void enter(const std::string& t)
    {
        inserted = false;
        if (browsing)
        {
            // the line being typed becomes the entry, unless it repeats the newest one
            if (v.size() > 1 && v[v.size() - 2].text == t) undoPush();
            else { v.back() = {t, true}; inserted = true; }
        }
        else if (v.empty() || v.back().text != t)
        {
            push(t, true);
            inserted = true;
        }
        browsing = false;
        pos = 0;
    }
    void forget()
    {
        if (inserted) undoPush();
        inserted = false;
    }
    std::string up(const std::string& line)
    {
        if (!browsing)
        {
            if (max == 0) return line;
            push(line, false);
            browsing = true;
            pos = v.size() > 1 ? 1 : 0;
        }
        else
        {
            v[v.size() - 1 - pos].text = line;
            if (pos + 1 < v.size()) ++pos;
        }
        return v[v.size() - 1 - pos].text;
    }
    std::string down()
    {
        if (!browsing || pos == 0) return {};
        --pos;
        return v[v.size() - 1 - pos].text;
    }
    bool retains(unsigned long id) const { return id >= firstId && id - firstId < v.size(); }
    const std::string& at(unsigned long id) const { return v[id - firstId].text; }
    Words own() const
    {
        Words r;
        for (std::size_t i = 0; i + (browsing ? 1 : 0) < v.size(); ++i)
            if (v[i].own) r.push_back(v[i].text);
        return r;
    }
    std::vector<std::pair<std::size_t, std::string>> listing() const
    {
        std::vector<std::pair<std::size_t, std::string>> r;
        for (std::size_t i = 0; i < v.size(); ++i) r.emplace_back(firstId + i, v[i].text);
        return r;
    }
};

struct Ev
{
    std::string kind; // call wrong exc enterS enterG exitS exitG store
    int sess = -1;
    int id = -1;
    std::string text;
    bool operator==(const Ev& o) const { return kind == o.kind && sess == o.sess && id == o.id && (text == o.text || text == "*" || o.text == "*"); }
};
inline std::string show(const std::vector<Ev>& v)
{
    std::string r;
    for (auto& e : v) r += "{" + e.kind + " s" + std::to_string(e.sess) + (e.id >= 0 ? " #" + std::to_string(e.id) : "") + " " + e.text + "}";
    return "[" + r + "]";
}
inline std::vector<Ev> only(const std::vector<Ev>& v, const std::vector<std::string>& kinds)
{
    std::vector<Ev> r;
    for (auto& e : v)
        if (std::find(kinds.begin(), kinds.end(), e.kind) != kinds.end()) r.push_back(e);
    return r;
}

// ---------------------------------------------------------------- real side helpers

class RecorderStorage : public cli::HistoryStorage
{
public:
    explicit RecorderStorage(std::size_t m) : max(m) {}
    void Store(const std::vector<std::string>& c) override
    {
        if (onStore) onStore(c);
        v.insert(v.end(), c.begin(), c.end());
        if (v.size() > max) v.erase(v.begin(), v.begin() + static_cast<long>(v.size() - max));
    }
    std::vector<std::string> Commands() const override { return v; }
    void Clear() override { v.clear(); }
    std::function<void(const std::vector<std::string>&)> onStore;
    std::size_t max;
    std::vector<std::string> v;
};

struct Sess
{
    std::unique_ptr<std::ostringstream> out;
    std::unique_ptr<cli::CliSession> s;
    MEntry* cur = nullptr;
    Hist hist;
    bool exited = false;
    bool disturbed = false; // already failed a comparison
    // the output not looked at yet
    std::string take()
    {
        vf::alive();
        auto t = out->str();
        out->str("");
        return t;
    }
};

struct Config
{
    std::vector<unsigned> nameWeights;
    int maxDepth = 4;
    int maxEntries = 7;     // per menu
    std::size_t maxTotal = 45;
    bool withActs = false;  // handlers do things
    bool actThrow = false, actHandles = false, actInsert = false, actPrint = false;
    bool customPrompts = true;
    bool partialPars = true;
    bool menuBias = false;          // more menus than commands
    bool commonStems = false;       // names with common beginnings
    bool fewNames = false;          // most names are the same
    bool menuAndGlobalNames = true; // entries named like global commands
    std::size_t historySize = 100;
    unsigned crowdOdds = 400;       // one menu in how many has many entries
    std::vector<int> sigWeights;
};

class World
{
public:
    explicit World(vf::Ctx& ctx) : c(ctx), s(ctx.src) {}
    ~World() { current() = nullptr; }

    vf::Ctx& c;
    vf::Src& s;

    std::deque<MEntry> entries;
    std::vector<cli::Menu*> realMenu;            // by id
    std::vector<std::vector<cli::CmdHandler>> handles; // by id
    MEntry* root = nullptr;
    std::unique_ptr<cli::Cli> cli;
    std::deque<Sess> sessions;
    std::vector<Ev> log;        // what happened
    std::vector<Ev> expected;   // what the model says
    RecorderStorage* storage = nullptr; // owned by cli, when used
    Words modelStore;
    std::size_t modelStoreMax = 1000;
    std::optional<Act> pendingDummy;
    // the handler call the model expects for the running line, with what the handler will do
    struct Plan { int id = -1; std::vector<Act> acts; bool used = false; };
    std::deque<Plan> plans;
    bool customWrong = false, customExc = false;
    bool printActions = false; // enter and exit actions write on the session
    bool ambiguous = false;
    int depthNow = 0;

    static World*& current() { static World* w = nullptr; return w; }

    int newId()
    {
        realMenu.push_back(nullptr);
        handles.emplace_back();
        return static_cast<int>(realMenu.size()) - 1;
    }
    MEntry* entry(int id)
    {
        for (auto& e : entries) if (e.id == id) return &e;
        return nullptr;
    }
    int sessionOf(const std::ostream& o) const
    {
        for (std::size_t i = 0; i < sessions.size(); ++i)
            if (sessions[i].out.get() == &o) return static_cast<int>(i);
        return -1;
    }

    // ------------------------------------------------------------ real handlers

    void invoked(int id, std::ostream& out, const Words& args)
    {
        log.push_back({"call", sessionOf(out), id, joinArgs(args)});
        for (auto& p : plans)
            if (!p.used && p.id == id)
            {
                p.used = true;
                const auto acts = p.acts; // the plan list can change in nested calls
                for (auto& a : acts) realAct(a, out);
                return;
            }
    }

    void realAct(const Act& a, std::ostream& out)
    {
        switch (a.kind)
        {
            case Act::print:
                out << a.text;
                if (a.n % 4 == 3) out << std::hex << std::showbase << std::showpos << std::uppercase; // and leaves it so
                if (a.n % 8 == 7) out.imbue(std::locale(std::locale::classic(), new Grouped));
                break;
            case Act::throwIt: throwException(a.n, a.text);
            case Act::enable:
                if (auto m = rawMenu(a)) m->Enable();
                else for (auto h : pickHandles(a.target, a.n)) h.Enable();
                break;
            case Act::disable:
                if (auto m = rawMenu(a)) m->Disable();
                else for (auto h : pickHandles(a.target, a.n)) h.Disable();
                break;
            case Act::remove: for (auto h : pickHandles(a.target, a.n)) h.Remove(); forget(entry(a.target)); break;
            case Act::insertCmd: realInsertCmd(a.target, a.newId, a.sig, a.variant, a.name, a.desc, a.pars); break;
            case Act::insertMenu: realInsertMenu(a.target, a.newId, a.name, a.desc, a.prompt, nullptr); break;
            case Act::writeCout: cli::Cli::cout() << a.text; break;
            case Act::exitSession:
            {
                auto i = sessionOf(out);
                if (i >= 0) sessions[static_cast<std::size_t>(i)].s->Exit();
                break;
            }
            case Act::none: break;
        }
    }
    // the menu itself instead of its handle
    cli::Menu* rawMenu(const Act& a) { return a.n == 3 ? realMenu[static_cast<std::size_t>(a.target)] : nullptr; }
    void forget(MEntry* e)
    {
        realMenu[static_cast<std::size_t>(e->id)] = nullptr;
        for (auto k : e->kids) forget(k);
    }
    // an operation repeated, on every copy of the handle
    void realActAgain(const Act& a)
    {
        if (a.kind != Act::enable && a.kind != Act::disable && a.kind != Act::remove) return;
        for (auto h : handles[static_cast<std::size_t>(a.target)])
        {
            if (a.kind == Act::enable) h.Enable();
            else if (a.kind == Act::disable) h.Disable();
            else h.Remove();
        }
    }
    // one of the copies of the handle (n chooses)
    std::vector<cli::CmdHandler> pickHandles(int id, int n)
    {
        auto& v = handles[static_cast<std::size_t>(id)];
        if (v.empty()) return {};
        return {v[static_cast<std::size_t>(n) % v.size()]};
    }

    void keepHandle(int id, const cli::CmdHandler& h)
    {
        auto& v = handles[static_cast<std::size_t>(id)];
        v.clear();
        v.push_back(h);
        cli::CmdHandler copy(h), assigned;
        assigned = copy;
        v.push_back(copy);
        v.push_back(assigned);
    }

    void realInsertCmd(int menu, int id, int sig, int variant, const std::string& name, const std::string& desc, const Words& pars)
    {
        auto m = realMenu[static_cast<std::size_t>(menu)];
        keepHandle(id, insertCommand(this, *m, id, sig, variant, name, desc, pars));
    }
    void realInsertMenu(int menu, int id, const std::string& name, const std::string& desc, const std::string& prompt, std::unique_ptr<cli::Menu> ready)
    {
        auto m = realMenu[static_cast<std::size_t>(menu)];
        if (!ready) ready = std::make_unique<cli::Menu>(name, desc, prompt);
        realMenu[static_cast<std::size_t>(id)] = ready.get();
        keepHandle(id, m->Insert(std::move(ready)));
    }

    // ------------------------------------------------------------ model of the actions

    void markGone(MEntry* e)
    {
        e->gone = true;
        for (auto k : e->kids) markGone(k);
    }
    // sessions whose current menu has gone are in the root menu
    void fixSessions()
    {
        for (auto& x : sessions)
            if (x.cur && x.cur->gone) x.cur = root;
    }
    void modelRemove(MEntry* e)
    {
        if (e->gone || !e->parent) return;
        auto& k = e->parent->kids;
        k.erase(std::find(k.begin(), k.end(), e));
        markGone(e);
    }
    MEntry* modelInsert(MEntry* parent, int id, bool isMenu, const Act& a)
    {
        entries.emplace_back();
        auto e = &entries.back();
        e->id = id;
        e->isMenu = isMenu;
        e->name = a.name;
        e->desc = a.desc;
        e->prompt = a.prompt.empty() ? a.name : a.prompt;
        e->pars = a.pars;
        e->sig = a.sig;
        e->parent = parent;
        if (parent) parent->kids.push_back(e);
        return e;
    }
    // returns false when the action cannot be done (its menu is gone): then it is not done for real either
    bool modelAct(const Act& a, std::size_t si)
    {
        switch (a.kind)
        {
            case Act::print: return true;
            case Act::throwIt: return true;
            case Act::enable: { auto e = entry(a.target); if (!e->gone) e->enabled = true; return true; }
            case Act::disable: { auto e = entry(a.target); if (!e->gone) e->enabled = false; return true; }
            case Act::remove: modelRemove(entry(a.target)); return true;
            case Act::insertCmd:
            case Act::insertMenu:
            {
                auto m = entry(a.target);
                if (!m || m->gone || !m->isMenu || entry(a.newId)) return false;
                modelInsert(m, a.newId, a.kind == Act::insertMenu, a);
                return true;
            }
            case Act::writeCout: return true;
            case Act::exitSession: modelExit(si); return true;
            case Act::none: return true;
        }
        return true;
    }

    void modelExit(std::size_t si)
    {
        auto& x = sessions[si];
        if (x.exited) return;
        x.exited = true;
        expected.push_back({"exitS", static_cast<int>(si), -1, ""});
        expected.push_back({"exitG", static_cast<int>(si), -1, ""});
        auto own = x.hist.own();
        expected.push_back({"store", -1, -1, joinArgs(own)});
        modelStore.insert(modelStore.end(), own.begin(), own.end());
        if (modelStore.size() > modelStoreMax) modelStore.erase(modelStore.begin(), modelStore.begin() + static_cast<long>(modelStore.size() - modelStoreMax));
    }

    // ------------------------------------------------------------ model of a line

    static bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

    bool matchCommand(const MEntry& e, const Words& w, Words& rendered)
    {
        rendered.clear();
        if (!e.enabled || e.name != w[0]) return false;
        const auto& sg = sigs()[static_cast<std::size_t>(e.sig)];
        if (sg.freeform) { rendered.assign(w.begin() + 1, w.end()); return true; }
        if (w.size() != sg.types.size() + 1) return false;
        // note that an ambiguous argument matters also when a later entry is the one that matches
        bool ok = true, either = false;
        for (std::size_t i = 0; i < sg.types.size(); ++i)
        {
            std::string r;
            auto k = model::convert(sg.types[i], w[i + 1], r);
            if (k == model::Conv::no) ok = false;
            if (k == model::Conv::either) either = true;
            rendered.push_back(r);
        }
        if (ok && either) ambiguous = true;
        return ok;
    }

    struct Found { enum { nothing, command, menu } what = nothing; MEntry* e = nullptr; Words args; };

    Found tryEntry(MEntry* e, const Words& w)
    {
        if (!e->isMenu)
        {
            Words r;
            if (matchCommand(*e, w, r)) return {Found::command, e, r};
            return {};
        }
        return tryMenu(e, w, false);
    }
    Found tryMenu(MEntry* m, const Words& w, bool asParent)
    {
        if (!m->enabled) return {};
        if (!(w[0] == m->name || (asParent && w[0] == ".."))) return {};
        if (w.size() == 1) return {Found::menu, m, {}};
        return search(m, Words(w.begin() + 1, w.end()));
    }
    Found search(MEntry* m, const Words& w)
    {
        if (!m->enabled) return {};
        for (auto k : m->kids)
        {
            auto f = tryEntry(k, w);
            if (f.what != Found::nothing) return f;
        }
        if (m->parent) return tryMenu(m->parent, w, true);
        return {};
    }

    bool ambiguousConv() const { return ambiguous; }

    // what happened to a line, for classification
    struct LineInfo { bool blank = false, global = false, wrong = false, nav = false, call = false, threw = false, histError = false, rerun = false; int depth = 0; };
    LineInfo info;

    // refs: entries being re-executed
    void modelFeed(std::size_t si, const std::string& line, std::vector<unsigned long>& refs)
    {
        auto& x = sessions[si];
        bool dangling = false;
        auto w = model::split(line, &dangling);
        if (dangling) ambiguous = true;
        if (w.empty())
        {
            x.hist.stop();
            if (refs.empty()) info.blank = true;
            return;
        }
        x.hist.enter(line);
        // the global commands
        if (w.size() == 1 && (w[0] == "help" || w[0] == "history")) { info.global = true; return; }
        if (w.size() == 1 && w[0] == "exit") { info.global = true; modelExit(si); return; }
        std::string num;
        if (w.size() == 2 && w[0] == "!")
        {
            auto k = model::convert(Ty::UInt, w[1], num);
            if (k == model::Conv::either) ambiguous = true;
            if (k != model::Conv::no)
            {
                info.global = true;
                x.hist.forget();
                auto n = std::stoul(num);
                if (!x.hist.retains(n) || std::find(refs.begin(), refs.end(), n) != refs.end())
                {
                    expected.push_back({"exc", static_cast<int>(si), -1, "*"});
                    info.histError = true;
                    return;
                }
                const auto text = x.hist.at(n);
                refs.push_back(n);
                info.rerun = true;
                modelFeed(si, text, refs);
                refs.pop_back();
                return;
            }
        }
        auto f = search(x.cur, w);
        switch (f.what)
        {
            case Found::nothing:
                info.wrong = true;
                expected.push_back({"wrong", static_cast<int>(si), -1, vf::quote(line, 100000)});
                break;
            case Found::menu:
                info.nav = true;
                x.cur = f.e;
                break;
            case Found::command:
            {
                info.call = true;
                expected.push_back({"call", static_cast<int>(si), f.e->id, joinArgs(f.args)});
                Plan p;
                p.id = f.e->id;
                const auto acts = f.e->acts;
                for (auto& a : acts)
                {
                    if (modelAct(a, si)) p.acts.push_back(a);
                    if (a.kind == Act::throwIt)
                    {
                        info.threw = true;
                        auto t = exceptionText(a.n, a.text);
                        if (!t.empty())
                            expected.push_back({"exc", static_cast<int>(si), -1, t + "|" + vf::quote(line, 100000)});
                        else
                            expected.push_back({"unknown", static_cast<int>(si), -1, vf::quote(line, 100000)});
                        break;
                    }
                }
                plans.push_back(p);
                fixSessions();
                break;
            }
        }
    }

    // runs a line in the model only
    void modelLine(std::size_t si, const std::string& line)
    {
        log.clear();
        expected.clear();
        plans.clear();
        info = LineInfo{};
        std::vector<unsigned long> refs;
        modelFeed(si, line, refs);
    }
    // runs a line in the model and then for real
    void feed(std::size_t si, const std::string& line)
    {
        sessions[si].take();
        modelLine(si, line);
        try
        {
            sessions[si].s->Feed(line);
        }
        catch (const std::exception& e) { log.push_back({"escaped", static_cast<int>(si), -1, e.what()}); }
        catch (...) { log.push_back({"escaped", static_cast<int>(si), -1, "?"}); }
    }

    // ------------------------------------------------------------ model of help

    struct HelpEntry
    {
        std::string head; // name and parameters
        std::string desc;
        bool operator==(const HelpEntry& o) const { return head == o.head && (desc == o.desc || desc == "*" || o.desc == "*"); }
    };

    HelpEntry helpOf(const MEntry& e)
    {
        HelpEntry h{e.name, e.desc};
        if (e.isMenu) return h;
        const auto& sg = sigs()[static_cast<std::size_t>(e.sig)];
        if (!e.pars.empty())
            for (auto& p : e.pars) h.head += " <" + p + ">";
        else if (sg.freeform) h.head += " <list of strings>";
        else
            for (auto t : sg.types) h.head += std::string(" ") + model::typeName(t);
        return h;
    }
    std::vector<HelpEntry> modelHelp(std::size_t si)
    {
        std::vector<HelpEntry> r = {{"help", "*"}, {"exit", "*"}, {"history", "*"}, {"! <history entry index>", "*"}};
        auto m = sessions[si].cur;
        if (!m->enabled) return r;
        for (auto k : m->kids)
            if (k->enabled) r.push_back(helpOf(*k));
        if (m->parent && m->parent->enabled) r.push_back(helpOf(*m->parent));
        return r;
    }
    static std::vector<HelpEntry> parseHelp(const std::string& text)
    {
        std::vector<HelpEntry> r;
        std::istringstream is(text);
        bool inEntry = false;
        for (std::string line; std::getline(is, line);)
        {
            if (startsWith(line, " - ")) { r.push_back({line.substr(3), ""}); inEntry = true; }
            else if (inEntry && startsWith(line, "\t")) r.back().desc += line.substr(1);
            else if (inEntry) r.back().desc += "\n" + line;
        }
        return r;
    }
    static std::string show(const std::vector<HelpEntry>& v)
    {
        std::string r;
        for (auto& h : v) r += "{" + h.head + " | " + h.desc + "}";
        return r;
    }

    // ------------------------------------------------------------ model of completion

    static std::string ltrim(const std::string& t)
    {
        std::size_t i = 0;
        while (i < t.size() && isspace(static_cast<unsigned char>(t[i]))) ++i;
        return t.substr(i);
    }
    Words inside(const MEntry* m, const std::string& t)
    {
        Words r;
        if (!m->enabled) return r;
        auto add = [&](const MEntry* e, bool asParent)
        {
            if (!e->enabled) return;
            if (e->isMenu)
                for (const std::string& prefix : asParent ? Words{e->name, ".."} : Words{e->name})
                    if (startsWith(t, prefix))
                    {
                        for (auto& x : inside(e, ltrim(t.substr(prefix.size())))) r.push_back(prefix + ' ' + x);
                        return;
                    }
            if (startsWith(e->name, t)) r.push_back(e->name);
        };
        for (auto k : m->kids) add(k, false);
        if (m->parent) add(m->parent, true);
        return r;
    }
    Words modelCompletions(std::size_t si, const std::string& text)
    {
        auto t = ltrim(text);
        Words r;
        for (const char* g : {"help", "exit", "history", "!"})
            if (startsWith(g, t)) r.push_back(g);
        for (auto& x : inside(sessions[si].cur, t)) r.push_back(x);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }

    // entries of a history listing: number and text
    static std::vector<std::pair<std::size_t, std::string>> parseHistory(const std::string& text)
    {
        std::vector<std::pair<std::size_t, std::string>> r;
        std::istringstream is(text);
        for (std::string line; std::getline(is, line);)
        {
            auto b = line.find_first_not_of(" \t");
            if (b == std::string::npos) continue;
            auto e = line.find_first_not_of("0123456789", b);
            if (e == b || e == std::string::npos) { r.emplace_back(static_cast<std::size_t>(-1), line); continue; }
            r.emplace_back(std::stoul(line.substr(b, e - b)), line.substr(e + 1));
        }
        return r;
    }
    static std::string show(const std::vector<std::pair<std::size_t, std::string>>& v)
    {
        std::string r;
        std::size_t n = 0;
        for (auto& h : v) { if (++n > 60) { r += "..."; break; } r += "{" + std::to_string(h.first) + " " + vf::quote(h.second, 60) + "}"; }
        return r;
    }

    std::string modelPrompt(std::size_t si) { return sessions[si].exited ? "" : sessions[si].cur->prompt + "> "; }

    // ------------------------------------------------------------ generators

    // in some cases names, descriptions, prompts, arguments and messages can be long
    bool longTexts = false;
    std::string longText()
    {
        static const std::size_t sizes[] = {40, 60, 100, 130, 260, 520, 1100, 4200};
        const auto n = sizes[s.draw(8)] + s.draw(30);
        std::string r;
        for (std::size_t i = 0; r.size() < n; ++i) r += static_cast<char>('a' + i % 26);
        return r;
    }
    bool beLong() { return longTexts && s.chance(1, 5); }

    std::string genName(const Config& cfg)
    {
        if (beLong()) return (s.coin() ? "foo" : "") + longText();
        static const std::vector<std::string> simple = {"a", "b", "ab", "abc", "foo", "foobar", "sub", "bar"};
        static const std::vector<std::string> odd = {"subway", "..", "fo", "x y", "-", "a-b_c", "\xc3\xa9t\xc3\xa9", "A", "1", "true", "sub-menu", ".", "...", "it's", "a.b", "/", "verylongcommandname_with_many_characters_0123456789"};
        static const std::vector<std::string> global = {"help", "exit", "history", "he", "!"};
        static const std::vector<std::string> few = {"a", "b", "sub"};
        static const std::vector<std::string> stems = {"status", "start", "stop", "state", "st", "set", "settings", "stat", "stark"};
        if (cfg.commonStems && s.chance(4, 5)) return s.pick(stems);
        if (cfg.fewNames && s.chance(5, 6)) return s.pick(few);
        switch (s.weighted({60, 25, cfg.menuAndGlobalNames ? 8u : 0u, 7}))
        {
            case 0: return s.pick(simple);
            case 1: return s.pick(odd);
            case 2: return s.pick(global);
            default:
            {
                std::string r;
                auto n = s.range(1, 6);
                for (long long i = 0; i < n; ++i) r += static_cast<char>('a' + s.draw(6));
                return r;
            }
        }
    }
    Words genPars(const Config& cfg, int sig)
    {
        const auto& sg = sigs()[static_cast<std::size_t>(sig)];
        Words r;
        if (s.chance(1, 3))
        {
            auto n = sg.freeform ? 1 + s.draw(2) : sg.types.size();
            if (cfg.partialPars && s.chance(1, 10)) n = 1 + s.draw(4);
            for (std::size_t i = 0; i < n; ++i) r.push_back("p" + std::to_string(s.draw(100)));
        }
        return r;
    }
    std::string genDesc()
    {
        if (beLong()) return longText() + " " + longText();
        static const std::vector<std::string> d = {"does something", "d", "a longer description, with <angles> and - dashes", "x - y", "\xc3\xa9", "(menu)", "", "two\nlines"};
        return s.pick(d);
    }
    int genSig(const Config& cfg)
    {
        if (!cfg.sigWeights.empty()) return cfg.sigWeights[static_cast<std::size_t>(s.draw(cfg.sigWeights.size()))];
        return static_cast<int>(s.draw(sigs().size()));
    }
    Act genInsert(const Config& cfg, bool isMenu)
    {
        Act a;
        a.kind = isMenu ? Act::insertMenu : Act::insertCmd;
        a.name = genName(cfg);
        a.desc = genDesc();
        if (isMenu)
        {
            if (cfg.customPrompts && s.chance(1, 3)) a.prompt = s.coin() ? "prompt" + std::to_string(s.draw(20)) : beLong() ? longText() : "a prompt with blanks";
        }
        else
        {
            a.sig = genSig(cfg);
            a.variant = static_cast<int>(s.draw(4));
            a.pars = genPars(cfg, a.sig);
        }
        return a;
    }

    void genMenuContent(const Config& cfg, MEntry* m, int depth)
    {
        auto n = s.chance(1, 12) ? s.draw(20) : s.draw(static_cast<std::uint64_t>(cfg.maxEntries) + 1);
        // now and then a menu with many entries
        const bool crowd = crowded == 0 && cfg.maxEntries > 4 && s.chance(1, cfg.crowdOdds);
        if (crowd) { n += 50 + s.draw(250); crowded = n; c.label("menu with many entries"); }
        for (std::uint64_t i = 0; i < n && entries.size() < cfg.maxTotal + crowded; ++i)
        {
            vf::Span sp(s);
            const bool isMenu = depth < cfg.maxDepth && (crowd ? s.chance(1, 20) : s.chance(cfg.menuBias ? 3 : 2, 5));
            auto a = genInsert(cfg, isMenu);
            if (crowd && s.chance(3, 4)) a.name = std::string(s.chance(3, 4) ? "st" : "item") + std::to_string(s.draw(2000));
            auto id = newId();
            auto e = modelInsert(m, id, isMenu, a);
            if (!isMenu) realInsertCmd(m->id, id, a.sig, a.variant, a.name, a.desc, a.pars);
            else if (s.coin())
            {
                // filled after its insertion
                realInsertMenu(m->id, id, a.name, a.desc, a.prompt, nullptr);
                genMenuContent(cfg, e, depth + 1);
            }
            else
            {
                auto ready = a.prompt.empty() && a.desc == "(menu)" && s.coin() ? std::make_unique<cli::Menu>(a.name)
                    : std::make_unique<cli::Menu>(a.name, a.desc, a.prompt);
                realMenu[static_cast<std::size_t>(id)] = ready.get();
                genMenuContent(cfg, e, depth + 1);
                realInsertMenu(m->id, id, a.name, a.desc, a.prompt, std::move(ready));
            }
        }
    }

    void genTree(const Config& cfg)
    {
        current() = this;
        longTexts = s.chance(1, 30);
        if (longTexts) c.label("long texts");
        auto id = newId();
        Act a;
        a.name = s.chance(1, 6) ? genName(cfg) : "cli";
        if (cfg.customPrompts && s.chance(1, 4)) a.prompt = "rootprompt";
        a.desc = s.chance(1, 3) ? genDesc() : "(menu)";
        root = modelInsert(nullptr, id, true, a);
        auto real = a.prompt.empty() && a.desc == "(menu)" ? std::make_unique<cli::Menu>(a.name) : std::make_unique<cli::Menu>(a.name, a.desc, a.prompt);
        realMenu[static_cast<std::size_t>(id)] = real.get();
        rootOwner = std::move(real);
        genMenuContent(cfg, root, 1);
        noteTree();
    }
    std::unique_ptr<cli::Menu> rootOwner;
    std::size_t crowded = 0; // entries of a menu with many

    void noteTree() { c.note("tree: " + treeText(root)); }
    std::string treeText(const MEntry* e)
    {
        std::string r = (e->isMenu ? "" : "#" + std::to_string(e->id) + ":") + vf::quote(e->name, 60);
        if (!e->isMenu)
        {
            r += sigs()[static_cast<std::size_t>(e->sig)].name;
            for (auto& a : e->acts) r += "!" + actText(a);
            return r;
        }
        r += "@" + std::to_string(e->id);
        if (e->prompt != e->name) r += "%" + e->prompt;
        r += "{";
        for (auto k : e->kids) r += treeText(k) + " ";
        return r + "}";
    }
    static std::string actText(const Act& a)
    {
        static const char* k[] = {"print", "throw", "enable", "disable", "remove", "insertCmd", "insertMenu", "cout", "exit", "none"};
        return std::string(k[a.kind]) + (a.target >= 0 ? "#" + std::to_string(a.target) : "") + (a.kind == Act::throwIt ? std::to_string(a.n) : "") + (a.kind == Act::print && a.n % 4 == 3 ? "(leaves number formats)" : "")
            + (a.newId >= 0 ? "=#" + std::to_string(a.newId) + vf::quote(a.name) : "");
    }

    // creates the application; sessions are created with addSession
    void makeCli(std::unique_ptr<cli::HistoryStorage> st = nullptr)
    {
        if (st) cli = std::make_unique<cli::Cli>(std::move(rootOwner), std::move(st));
        else
        {
            auto r = std::make_unique<RecorderStorage>(modelStoreMax);
            storage = r.get();
            r->v = modelStore;
            r->onStore = [this](const std::vector<std::string>& v) { log.push_back({"store", -1, -1, joinArgs(v)}); };
            cli = std::make_unique<cli::Cli>(std::move(rootOwner), std::move(r));
        }
        cli->ExitAction([this](std::ostream& o) { log.push_back({"exitG", sessionOf(o), -1, ""}); if (printActions) o << "[XG]"; });
        cli->EnterAction([this](std::ostream& o) { log.push_back({"enterG", sessionOf(o), -1, ""}); if (printActions) o << "[EG]"; });
        if (customWrong)
            cli->WrongCommandHandler([this](std::ostream& o, const std::string& l) { log.push_back({"wrong", sessionOf(o), -1, vf::quote(l, 100000)}); });
        if (customExc)
            cli->StdExceptionHandler([this](std::ostream& o, const std::string& l, const std::exception& e)
                { log.push_back({"exc", sessionOf(o), -1, std::string(typeid(e).name()) + "|" + e.what() + "|" + vf::quote(l, 100000)}); });
        if (s.chance(1, 8)) cli = std::make_unique<cli::Cli>(std::move(*cli)); // an application can be moved
    }
    // make: creates the session on a stream
    std::size_t addSession(std::size_t historySize, const std::function<std::unique_ptr<cli::CliSession>(std::ostream&)>& make = nullptr)
    {
        sessions.emplace_back();
        auto& x = sessions.back();
        x.out = std::make_unique<std::ostringstream>();
        if (make) x.s = make(*x.out);
        else x.s = std::make_unique<cli::CliSession>(*cli, *x.out, historySize);
        x.s->ExitAction([this](std::ostream& o) { log.push_back({"exitS", sessionOf(o), -1, ""}); if (printActions) o << "[XS]"; });
        x.s->EnterAction([this](std::ostream& o) { log.push_back({"enterS", sessionOf(o), -1, ""}); if (printActions) o << "[ES]"; });
        x.cur = root;
        x.hist.max = historySize;
        x.hist.load(modelStore);
        return sessions.size() - 1;
    }

    std::vector<MEntry*> present(bool menus, bool commands)
    {
        std::vector<MEntry*> r;
        for (auto& e : entries)
            if (!e.gone && ((e.isMenu && menus) || (!e.isMenu && commands))) r.push_back(&e);
        return r;
    }

    // words leading from a menu to an entry
    Words path(MEntry* from, MEntry* to)
    {
        std::vector<MEntry*> up; // chain of menus from the target's menu to the root
        for (auto m = to->isMenu ? to : to->parent; m; m = m->parent) up.push_back(m);
        Words w;
        auto m = from;
        std::size_t at = std::string::npos;
        while (m)
        {
            auto i = std::find(up.begin(), up.end(), m);
            if (i != up.end()) { at = static_cast<std::size_t>(i - up.begin()); break; }
            if (!m->parent) break;
            w.push_back(s.chance(1, 2) ? ".." : m->parent->name);
            m = m->parent;
        }
        if (at == std::string::npos) return w;
        // sometimes a useless detour
        if (s.chance(1, 10) && m->parent)
        {
            w.push_back(s.coin() ? ".." : m->parent->name);
            w.push_back(m->name);
        }
        for (; at > 0; --at) w.push_back(up[at - 1]->name);
        if (!to->isMenu) w.push_back(to->name);
        return w;
    }

    std::string genArg(Ty t, bool good)
    {
        static const Words any = {"1", "abc", "0", "-1", "x", "true", "false", "1.5", "70000", "300", "a:1", "two words", "-", "+5", "99999999999", "it's", "say \"hi\"", "!", "back\\slash", "1e3", ".5", "foo", "-2147483648", "2147483648", "a;b"};
        if (!good) return s.pick(any);
        switch (t)
        {
            case Ty::Str: return beLong() ? longText() : s.chance(1, 4) ? s.pick(any) : "w" + std::to_string(s.draw(1000));
            case Ty::Bool: { static const Words b = {"1", "0", "true", "false"}; return s.pick(b); }
            case Ty::Char: return std::string(1, static_cast<char>('a' + s.draw(26)));
            case Ty::Custom: return std::string(1, static_cast<char>('a' + s.draw(26))) + ":" + static_cast<char>('0' + s.draw(10));
            case Ty::Double: case Ty::Float: case Ty::LDouble: { static const Words d = {"1", "1.5", "-2.25", "1e3", ".5", "0"}; return s.pick(d); }
            case Ty::UInt: case Ty::ULong: case Ty::ULLong: { static const Words d = {"1", "0", "4294967295", "7", "+5"}; return s.pick(d); }
            case Ty::UChar: return std::to_string(s.draw(256));
            case Ty::SChar: return std::to_string(static_cast<int>(s.draw(256)) - 128);
            default: { static const Words d = {"1", "0", "-1", "32767", "7", "-100", "+5"}; return s.pick(d); }
        }
    }

    std::string renderLine(const Words& w)
    {
        std::string line;
        const bool plain = s.chance(3, 4);
        auto blanks = [&]
        {
            if (plain) return std::string(" ");
            std::string b;
            auto n = 1 + s.draw(3);
            for (std::uint64_t i = 0; i < n; ++i) b += s.chance(1, 4) ? '\t' : ' ';
            return b;
        };
        if (!plain && s.coin()) line += blanks();
        for (std::size_t i = 0; i < w.size(); ++i)
        {
            if (i) line += blanks();
            line += model::quoted(w[i], plain ? 0 : static_cast<int>(s.draw(4)));
        }
        if (!plain && s.coin()) line += blanks();
        return line;
    }

    // a line with a chance to do something in the session
    std::string genLine(std::size_t si, const Config& cfg)
    {
        auto l = genShortLine(si, cfg);
        if (beLong()) l += " " + longText();
        return l;
    }
    std::string genShortLine(std::size_t si, const Config& cfg)
    {
        auto& x = sessions[si];
        switch (s.weighted(cfg.menuBias ? std::vector<unsigned>{25, 35, 10, 12, 4, 4, 4} : std::vector<unsigned>{40, 18, 10, 8, 6, 5, 6}))
        {
            case 0: // a command through its path
            {
                auto v = present(false, true);
                if (v.empty()) return "nothing";
                // prefer nearby commands
                MEntry* t = s.pick(v);
                auto w = path(x.cur, t);
                const auto& sg = sigs()[static_cast<std::size_t>(t->sig)];
                if (sg.freeform)
                {
                    auto n = s.draw(5);
                    for (std::uint64_t i = 0; i < n; ++i) w.push_back(genArg(Ty::Str, true));
                }
                else
                {
                    auto how = s.draw(8); // mostly right
                    std::size_t n = sg.types.size();
                    if (how == 6) n = static_cast<std::size_t>(s.draw(n + 3));
                    for (std::size_t i = 0; i < n; ++i)
                        w.push_back(genArg(i < sg.types.size() ? sg.types[i] : Ty::Str, how != 7 || s.coin()));
                }
                return renderLine(w);
            }
            case 1: // a menu
            {
                auto v = present(true, false);
                auto w = path(x.cur, s.pick(v));
                if (w.empty()) w.push_back(s.coin() ? ".." : x.cur->name);
                return renderLine(w);
            }
            case 2: // some random words
            {
                Words w;
                auto n = 1 + s.draw(4);
                for (std::uint64_t i = 0; i < n; ++i) w.push_back(s.chance(1, 3) ? ".." : genName(cfg));
                return renderLine(w);
            }
            case 3:
            {
                Words w;
                auto n = 1 + s.draw(4);
                for (std::uint64_t i = 0; i < n; ++i) w.push_back("..");
                return renderLine(w);
            }
            case 4: { static const Words g = {"help", "history", "help x", "exit now", "history 1"}; return s.pick(g); }
            case 5: { static const Words g = {"", " ", "\t  ", "\"\"", "''", " \"\" '' "}; return s.pick(g); }
            default: return "! " + std::to_string(s.draw(12));
        }
    }
};

// ---------------------------------------------------------------- insertion of typed handlers

template <class... A> struct Inserter
{
    static cli::CmdHandler go(World* w, cli::Menu& m, int id, int variant, const std::string& name, const std::string& desc, const Words& pars)
    {
        auto f = [w, id](std::ostream& out, A... a) { w->invoked(id, out, Words{R(a)...}); };
        if (variant % 2) return m.Insert(name, pars, f, desc);
        return m.Insert(name, f, desc, pars);
    }
    static cli::CmdHandler goFunction(World* w, cli::Menu& m, int id, const std::string& name, const std::string& desc, const Words& pars)
    {
        std::function<int(std::ostream&, A...)> f = [w, id](std::ostream& out, A... a) { w->invoked(id, out, Words{R(a)...}); return 1; };
        return m.Insert(name, f, desc, pars);
    }
};

// free functions as handlers: they find their entry in a table
inline std::array<int, 4>& freeIds() { static std::array<int, 4> a{}; return a; }
inline void freeFunction0(std::ostream& out) { World::current()->invoked(freeIds()[0], out, {}); }
inline void freeFunction1(std::ostream& out, int a) { World::current()->invoked(freeIds()[1], out, {R(a)}); }
inline int freeFunction2(std::ostream& out, const std::string& a, int b) { World::current()->invoked(freeIds()[2], out, {a, R(b)}); return 3; }

// a command class of the application
class OwnCommand : public cli::Command
{
public:
    OwnCommand(World* _w, int _id, const std::string& n, const std::string& d, const Words& p) : cli::Command(n), w(_w), id(_id), desc(d), pars(p) {}
    bool Exec(const std::vector<std::string>& words, cli::CliSession& session) override
    {
        if (!IsEnabled() || words.empty() || words[0] != Name()) return false;
        w->invoked(id, session.OutStream(), Words(words.begin() + 1, words.end()));
        return true;
    }
    void Help(std::ostream& out) const override
    {
        if (!IsEnabled()) return;
        out << " - " << Name();
        if (pars.empty()) out << " <list of strings>";
        for (auto& p : pars) out << " <" << p << '>';
        out << "\n\t" << desc << "\n";
    }
private:
    World* w;
    int id;
    std::string desc;
    Words pars;
};

inline cli::CmdHandler insertCommand(World* w, cli::Menu& m, int id, int sig, int variant, const std::string& name, const std::string& desc, const Words& pars)
{
    using S = std::string;
#define G(...) Inserter<__VA_ARGS__>::go(w, m, id, variant, name, desc, pars)
    switch (sig)
    {
        case 0:
            if (variant == 2) return Inserter<>::goFunction(w, m, id, name, desc, pars);
            if (variant == 3 && freeIds()[0] == 0) { freeIds()[0] = id; return m.Insert(name, freeFunction0, desc, pars); }
            return G();
        case 1:
            if (variant == 3 && freeIds()[1] == 0) { freeIds()[1] = id; return m.Insert(name, freeFunction1, desc, pars); }
            return G(int);
        case 2: if (variant == 2) return Inserter<const S&>::go(w, m, id, variant, name, desc, pars); return G(S);
        case 3: if (variant == 2) return Inserter<int, int>::goFunction(w, m, id, name, desc, pars); return G(int, int);
        case 4: return G(const S&, S);
        case 5: return G(bool);
        case 6: return G(double);
        case 7: return G(unsigned);
        case 8: return G(char);
        case 9: return G(Custom);
        case 10:
            if (variant == 3 && freeIds()[2] == 0) { freeIds()[2] = id; return m.Insert(name, freeFunction2, desc, pars); }
            return G(S, int);
        case 11: return G(int, S, bool);
        case 12:
        {
            if (variant == 2) return m.Insert(std::make_unique<OwnCommand>(w, id, name, desc, pars));
            auto f = [w, id](std::ostream& out, std::vector<S> a) { w->invoked(id, out, a); };
            return variant % 2 ? m.Insert(name, pars, f, desc) : m.Insert(name, f, desc, pars);
        }
        case 13:
        {
            auto f = [w, id](std::ostream& out, const std::vector<S>& a) { w->invoked(id, out, a); return true; };
            return variant % 2 ? m.Insert(name, pars, f, desc) : m.Insert(name, f, desc, pars);
        }
        case 14: return G(S, int, double, char, bool);
        case 15: return G(int, int, int, S, const S&, int, bool, S);
        case 16: return G(S, S, S);
#ifdef WORLD_ALL_TYPES
        case 17: return G(long long);
        case 18: return G(float);
        case 19: return G(short);
        case 20: return G(unsigned char);
        case 21: return G(signed char);
        case 22: return G(unsigned short);
        case 23: return G(unsigned long);
        case 24: return G(long);
        case 25: return G(unsigned long long);
        case 26: return G(long double);
        case 27: return G(unsigned char, signed char, short, unsigned short);
        case 28: return G(float, long double, Custom, char);
        case 29: return G(long long, unsigned long long, long, unsigned long, unsigned);
#endif
    }
#undef G
    return cli::CmdHandler();
}

// library and harness state that outlives a case
inline void resetLibraryState()
{
    freeIds() = {};
    World::current() = nullptr;
    cli::SetNoColor();
}

} // namespace world

#endif
