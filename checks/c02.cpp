// C02 Handlers get exactly the typed value, or are not called at all
#define WORLD_ALL_TYPES
#include "world.h"

using namespace vf;
using namespace world;

namespace
{

// adds a small number to a decimal string (result never negative)
std::string addTo(const std::string& digits, int delta)
{
    __int128 v = 0;
    for (char ch : digits) v = v * 10 + (ch - '0');
    v += delta;
    if (v < 0) v = -v;
    if (v == 0) return "0";
    std::string r;
    for (; v > 0; v /= 10) r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    return r;
}

std::string limit(Src& s)
{
    // maxima and magnitudes of minima of all the integer types, and powers of two and ten around them
    static const Words m = {"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "100", "1000", "99999", "9999999999", "0", "1",
        "512", "131072", "8589934592", "36893488147419103232", "340282366920938463463374607431768211456", "25", "26", "6553", "6554", "429496729", "429496730", "1844674407370955161", "1844674407370955162"};
    auto d = s.pick(m);
    if (d.size() < 30 && s.coin()) d = addTo(d, static_cast<int>(s.range(0, 20)) - 10);
    return d;
}

std::string digits(Src& s, std::size_t max)
{
    std::string r;
    for (std::size_t i = 0, n = 1 + s.draw(max); i < n; ++i) r += static_cast<char>('0' + s.draw(10));
    return r;
}

std::string integer(Src& s)
{
    std::string d;
    switch (s.draw(5))
    {
        case 0: case 1: d = limit(s); break;
        case 2: d = std::to_string(s.draw(1000)); break;
        case 3: d = std::to_string(s.draw(100000)); break;
        default: d = digits(s, s.chance(1, 10) ? 40 : 21); break;
    }
    if (s.chance(1, 8)) d = std::string(1 + static_cast<std::size_t>(s.draw(s.chance(1, 5) ? 30 : 4)), '0') + d;
    switch (s.draw(6)) { case 0: case 1: d = "-" + d; break; case 2: d = "+" + d; break; default: break; }
    return d;
}

std::string floating(Src& s)
{
    static const Words special = {"inf", "nan", "1e400", "1e-400", "3.4028234663852886e38", "3.5e38", "1.17549435e-38", "1e-46", "1.7976931348623157e308", "1.8e308", "4.9e-324", "1e4931", "1.2e4932", "1e5000",
        "0x10", "0x1p3", "1e", "1e+", ".", "e5", "1.2.3", "-.5", "+.5e1", "5.", "1,5", "0.1", "1f", "1L", "00.5", "-0", "1_000", "1'000", "infinity", "NAN", "1d"};
    if (s.chance(1, 4)) return s.pick(special);
    std::string r;
    switch (s.draw(4)) { case 0: r = "-"; break; case 1: r = "+"; break; default: break; }
    if (!s.chance(1, 8)) r += digits(s, 20);
    if (s.coin()) { r += "."; if (!s.chance(1, 8)) r += digits(s, 20); }
    if (s.chance(1, 3)) { r += s.coin() ? "e" : "E"; r += s.pick(Words{"", "-", "+"}); r += digits(s, s.chance(1, 6) ? 5 : 2); }
    return r;
}

std::string anything(Src& s)
{
    static const std::string chars = std::string("abz019 -+.,:eExX\t!\"'\\_#") + "\x80\xff\x01\x7f";
    std::string r;
    for (std::size_t i = 0, n = 1 + s.draw(5); i < n; ++i) r += s.pick(chars);
    return r;
}

std::string damaged(Src& s, std::string t)
{
    static const std::string chars = std::string(" -+.0a1xe\t") + "\n\v\f\r\xa0\x80";
    switch (s.draw(4))
    {
        case 0: return t + s.pick(chars);
        case 1: return s.pick(chars) + t;
        case 2: t.insert(static_cast<std::size_t>(s.draw(t.size() + 1)), 1, s.pick(chars)); return t;
        default: if (!t.empty()) t.erase(static_cast<std::size_t>(s.draw(t.size())), 1); return t;
    }
}

std::string argument(Src& s, Ty t)
{
    std::string r;
    switch (s.draw(16))
    {
        case 0: r = anything(s); break;
        case 1: r = integer(s); break;
        case 2: r = floating(s); break;
        default:
            switch (t)
            {
                case Ty::Str: r = anything(s); break;
                case Ty::Char: r = s.chance(3, 4) ? std::string(1, static_cast<char>(1 + s.draw(255))) : anything(s); break;
                case Ty::Bool: { static const Words b = {"0", "1", "true", "false", "True", "FALSE", "2", "-1", "10", "yes", "on", "t", "true1", "-0", "+1", "00", "01", "256", "4294967296", "4294967297", "18446744073709551617"}; r = s.pick(b); break; }
                case Ty::Custom: case Ty::Cons: { static const Words b = {"a:1", "z:9", "A:0", "a:", ":1", "a1", "a:b", "1:1", "a:12", "a:1 ", " a:1", "a :1", "ab:1"}; r = s.pick(b); break; }
                case Ty::Double: case Ty::Float: case Ty::LDouble: r = s.chance(1, 4) ? integer(s) : floating(s); break;
                default: r = integer(s); break;
            }
    }
    if (s.chance(1, 10)) r = damaged(s, r);
    return r;
}

// commands of every signature, some with a free-form command of the same name behind them
void run(Ctx& c, bool many)
{
    auto& s = c.src;
    World w(c);
    Config cfg;
    cfg.maxEntries = 0;
    w.genTree(cfg);
    w.root->name = w.root->name; // the root has no entries of its own
    struct T { int id; int back; };
    std::vector<T> cmds;
    const auto nSigs = sigs().size();
    std::vector<int> which;
    if (many) for (std::size_t i = 0; i < nSigs; ++i) which.push_back(static_cast<int>(i));
    else for (std::uint64_t i = 0, n = 1 + s.draw(4); i < n; ++i) which.push_back(static_cast<int>(s.draw(nSigs)));
    auto insert = [&](const std::string& name, int sig)
    {
        Act a;
        a.name = name;
        a.desc = "d";
        a.sig = sig;
        auto id = w.newId();
        w.modelInsert(w.root, id, false, a);
        w.realInsertCmd(w.root->id, id, sig, static_cast<int>(s.draw(4)), name, "d", {});
        return id;
    };
    for (auto sg : which)
    {
        // overloads by type: the second one gets what the first one does not
        T t{insert("c" + std::to_string(sg), sg), -1};
        if (s.chance(1, 3)) t.back = insert("c" + std::to_string(sg), s.coin() ? 12 : static_cast<int>(s.draw(nSigs)));
        cmds.push_back(t);
    }
    for (auto& e : w.entries) if (!e.isMenu) c.note("#" + std::to_string(e.id) + " " + e.name + sigs()[static_cast<std::size_t>(e.sig)].name);
    w.customWrong = w.customExc = true;
    w.makeCli();
    w.addSession(20);
    const auto n = 1 + s.draw(12);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        auto& cmd = *w.entry(s.pick(cmds).id);
        const auto& sg = sigs()[static_cast<std::size_t>(cmd.sig)];
        Words args;
        std::size_t k = sg.freeform ? static_cast<std::size_t>(s.draw(4)) : sg.types.size();
        if (s.chance(1, 16)) k = static_cast<std::size_t>(s.draw(k + 3));
        // with many parameters most arguments are good, otherwise the line never runs the command
        const bool mostlyGood = k > 1 && s.chance(3, 4);
        for (std::size_t j = 0; j < k; ++j)
        {
            const auto t = j < sg.types.size() ? sg.types[j] : Ty::Str;
            auto a = argument(s, t);
            if (mostlyGood)
                for (int tries = 0; tries < 4; ++tries)
                {
                    std::string r;
                    if (model::convert(t, a, r) == model::Conv::yes) break;
                    a = argument(s, t);
                }
            if (a.empty()) a = "x";
            args.push_back(a);
        }
        std::string line = cmd.name;
        for (auto& a : args) line += " " + model::quoted(a, static_cast<int>(s.draw(4)));
        c.note(quote(line));
        w.ambiguous = false;
        w.feed(0, line);
        auto want = only(w.expected, {"call", "wrong"});
        auto got = only(w.log, {"call", "wrong", "escaped"});
        if (w.ambiguousConv())
        {
            // texts whose meaning is not specified: if a command runs it must still be one of that name
            c.label("unspecified text");
            VF_REQUIRE(c, got.size() == 1 && got[0].kind != "escaped", "line " << quote(line) << ": " << show(got));
            continue;
        }
        if (w.info.call) { c.label("called"); c.nontrivial(); }
        else c.label("refused");
        VF_REQUIRE(c, got == want, "line " << quote(line) << ": happened " << show(got) << " expected " << show(want));
    }
}

// types of the user, read by operators that leave their marks on the stream or add to what is there
struct Hex { long v = 0; };
std::istream& operator>>(std::istream& is, Hex& h) { return is >> std::hex >> h.v; }
struct Dec { long v = 0; };
std::istream& operator>>(std::istream& is, Dec& d) { return is >> d.v; }
struct List { std::vector<int> v; };
std::istream& operator>>(std::istream& is, List& l)
{
    int x = 0;
    while (is >> x)
    {
        l.v.push_back(x);
        if (is.eof() || is.peek() != ',') break;
        is.get();
    }
    return is;
}
struct Tight { char a = '-', b = '-'; };
std::istream& operator>>(std::istream& is, Tight& t) { return is >> std::noskipws >> t.a >> t.b; }
struct Wide { std::string s; };
std::istream& operator>>(std::istream& is, Wide& w) { return is >> std::setw(3) >> w.s; }
struct Flag { bool b = false; };
std::istream& operator>>(std::istream& is, Flag& f) { return is >> std::boolalpha >> f.b; }
struct Line { std::string s; };
std::istream& operator>>(std::istream& is, Line& l) { return std::getline(is, l.s); }
struct Optional { int n = 7; char unit = 'm'; }; // the unit can be left out
std::istream& operator>>(std::istream& is, Optional& o)
{
    if (is >> o.n && !is.eof()) is.get(o.unit);
    return is;
}
struct Mixed { int v = 0; }; // x1f, or a decimal number, perhaps with its blanks given as they are
std::istream& operator>>(std::istream& is, Mixed& m)
{
    if (is.peek() == 'x') { is.get(); is >> std::hex; }
    if (is.peek() == '_') { is.get(); is >> std::noskipws; }
    if (!(is >> m.v)) return is;
    if (!is.eof() && is.peek() == '!') { is.get(); is.width(2); }
    return is;
}
enum class Level { low, high };
std::istream& operator>>(std::istream& is, Level& l)
{
    std::string t;
    if (!(is >> t)) return is;
    if (t == "low") l = Level::low;
    else if (t == "high") l = Level::high;
    else is.setstate(std::ios::failbit);
    return is;
}
std::string render(const Hex& x) { return std::to_string(x.v); }
std::string render(const Dec& x) { return std::to_string(x.v); }
std::string render(const List& x) { std::string r; for (auto k : x.v) r += std::to_string(k) + ";"; return r; }
std::string render(const Tight& x) { return {x.a, x.b}; }
std::string render(const Wide& x) { return x.s; }
std::string render(const Flag& x) { return x.b ? "yes" : "no"; }
std::string render(const Line& x) { return x.s; }
std::string render(const Optional& x) { return std::to_string(x.n) + x.unit; }
std::string render(const Mixed& x) { return std::to_string(x.v); }
std::string render(Level x) { return x == Level::low ? "L" : "H"; }

// the definition: a new object, read from the text alone by its operator, which leaves nothing but blanks
template <class T> bool reads(const std::string& t, std::string& value)
{
    std::istringstream is(t);
    T x{};
    if (!(is >> x) || !(is >> std::ws).eof()) return false;
    value = render(x);
    return true;
}

void userTypes(Ctx& c)
{
    auto& s = c.src;
    auto root = std::make_unique<cli::Menu>("m");
    std::vector<std::string> calls;
    auto& l = calls;
    root->Insert("hex", [&l](std::ostream&, Hex x) { l.push_back(render(x)); });
    root->Insert("dec", [&l](std::ostream&, const Dec& x) { l.push_back(render(x)); });
    root->Insert("list", [&l](std::ostream&, const List& x) { l.push_back(render(x)); });
    root->Insert("tight", [&l](std::ostream&, Tight x) { l.push_back(render(x)); });
    root->Insert("wide", [&l](std::ostream&, Wide x) { l.push_back(render(x)); });
    root->Insert("flag", [&l](std::ostream&, Flag x) { l.push_back(render(x)); });
    root->Insert("line", [&l](std::ostream&, const Line& x) { l.push_back(render(x)); });
    root->Insert("opt", [&l](std::ostream&, Optional x) { l.push_back(render(x)); });
    root->Insert("level", [&l](std::ostream&, Level x) { l.push_back(render(x)); });
    root->Insert("mixed", [&l](std::ostream&, Mixed x) { l.push_back(render(x)); });
    root->Insert("both", [&l](std::ostream&, Hex a, Dec b) { l.push_back(render(a) + "/" + render(b)); });
    root->Insert("lists", [&l](std::ostream&, List a, const List& b) { l.push_back(render(a) + "/" + render(b)); });
    cli::Cli app(std::move(root));
    app.WrongCommandHandler([&](std::ostream&, const std::string&) { l.push_back("wrong"); });
    std::ostringstream out;
    cli::CliSession session(app, out);
    int called = 0;
    auto text = [&]
    {
        static const Words some = {"10", "ff", "1f", "0x1F", "12", "1,2,3", "1,2,", "7", "7k", "ab", "a", "abc", "abcd", "true", "false", "1", "0", "low", "high", "mid", "-5", "8,", "x1f", "x10", "x1", "_12", "_ 1", "x 5", "99999999999999999999", "12 ", " 12", "a b", "1 2"};
        return s.chance(1, 8) ? anything(s) : s.pick(some);
    };
    std::string t;
    for (auto n = 1 + s.draw(12); n > 0; --n)
    {
        Span sp(s);
        static const Words names = {"hex", "dec", "list", "tight", "wide", "flag", "line", "opt", "level", "both", "lists", "mixed", "mixed"};
        const auto k = s.draw(names.size());
        const auto a = text(), b = text();
        std::string v, v2, line = names[k] + " " + model::quoted(a, static_cast<int>(s.draw(4)));
        bool ok = false;
        switch (k)
        {
            case 0: ok = reads<Hex>(a, v); break;
            case 1: ok = reads<Dec>(a, v); break;
            case 2: ok = reads<List>(a, v); break;
            case 3: ok = reads<Tight>(a, v); break;
            case 4: ok = reads<Wide>(a, v); break;
            case 5: ok = reads<Flag>(a, v); break;
            case 6: ok = reads<Line>(a, v); break;
            case 7: ok = reads<Optional>(a, v); break;
            case 8: ok = reads<Level>(a, v); break;
            case 9: ok = reads<Hex>(a, v) && reads<Dec>(b, v2); v += "/" + v2; line += " " + model::quoted(b, 1); break;
            case 11: case 12: ok = reads<Mixed>(a, v); break;
            default: ok = reads<List>(a, v) && reads<List>(b, v2); v += "/" + v2; line += " " + model::quoted(b, 1); break;
        }
        t += quote(line) + " ";
        c.note(t);
        calls.clear();
        session.Feed(line);
        const std::vector<std::string> want = {ok ? v : "wrong"};
        VF_REQUIRE(c, calls == want, "line " << quote(line) << ": happened " << vf::show(calls) << " expected " << vf::show(want));
        if (ok) ++called;
    }
    if (called > 1) c.nontrivial();
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C02";
    su.rule = "commands of 30 signatures over every supported parameter type (by value, by const reference, functions, lambdas, std::function, same-named overloads) and lines whose arguments are texts around "
              "the limits of every type, damaged numbers, signs, leading zeros, floating literals, blanks, arbitrary bytes. The calls and the values received are compared with a reference "
              "conversion on decimal strings. Types of the user whose operators leave flags on the stream or add to the object. Non-trivial: at least one handler was called.";
    su.resetGlobals = resetLibraryState;
    su.props = {
        {"few-commands", [](Ctx& c) { run(c, false); }, 60000, 1200000, 0, 20},
        {"user-types", userTypes, 20000, 400000, 0, 20},
        {"all-signatures", [](Ctx& c) { run(c, true); }, 12000, 200000, 0, 20},
    };
    return su;
}
