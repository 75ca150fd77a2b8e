// C01 Command lines are split into words exactly by the quoting rules
#include "vf.h"
#include "model.h"

#include <cli/cli.h>

#include <memory>

using namespace vf;
using model::Words;

namespace
{

// an application whose command "w" (also inside a menu) records the words it gets
struct App
{
    App()
    {
        auto root = std::make_unique<cli::Menu>("cli");
        root->Insert("w", [this](std::ostream&, const Words& a) { calls.push_back(a); }, "words");
        root->Insert("v", [this](std::ostream&, Words a) { calls.push_back(a); }, "words");
        root->Insert("one", [this](std::ostream&, const std::string& a) { calls.push_back({a}); }, "one word");
        root->Insert("three", [this](std::ostream&, const std::string& a, std::string b, const std::string& c) { calls.push_back({a, b, c}); }, "three words");
        auto sub = std::make_unique<cli::Menu>("sub");
        sub->Insert("w", [this](std::ostream&, const Words& a) { calls.push_back(a); }, "words");
        root->Insert(std::move(sub));
        app = std::make_unique<cli::Cli>(std::move(root));
        app->WrongCommandHandler([this](std::ostream&, const std::string&) { ++wrong; });
        session = std::make_unique<cli::CliSession>(*app, out, 20);
    }
    std::vector<Words> calls;
    int wrong = 0;
    std::ostringstream out;
    std::unique_ptr<cli::Cli> app;
    std::unique_ptr<cli::CliSession> session;
};

std::string genText(Src& s, std::size_t max)
{
    static const std::string special = " \"'\\!a";
    static const std::string wide = std::string(" \t\n\"'\\!ab.-0<>|;$") + '\0' + "\x01\x1b\x7f\r\v\f\x80\xff\xc3\xa9";
    static const std::vector<std::string> bits = {"\"a b\"", "'a b'", "\\\"", "\\'", "\\\\", "\\ ", "\\a", "\\!", "!", "\"", "'", "\"\"", "''", "a", " ", "\t", "\n", "\"a'b\"", "'a\"b'", "a\"b\"c", "\"a\"\"b\"", "\\n", "\"a\\\"b\"", "'a\\'b'", "'a\\\"b'"};
    std::string r;
    const auto style = s.draw(3);
    auto n = s.size(max);
    for (std::size_t i = 0; i < n; ++i)
    {
        Span sp(s);
        if (style == 0) r += s.pick(special);
        else if (style == 1) r += s.pick(bits);
        else r += s.pick(wide);
    }
    return r;
}

std::string genWord(Src& s)
{
    static const std::string wide = std::string("ab \t\n\"'\\!.-0") + '\0' + "\x01\x1b\x7f\r\v\f\x80\xff\xc3\xa9";
    std::string r;
    auto n = 1 + s.size(s.chance(1, 40) ? 600 : 12);
    for (std::size_t i = 0; i < n; ++i) r += s.pick(wide);
    if (s.chance(1, 4000)) // a very long word
        {
            const auto base = r;
            const auto end = 1000 + s.draw(80000);
            while (r.size() < end) r += base;
        }
    return r;
}

bool interesting(const std::string& t) { return t.find_first_of("\"'\\!\t\n") != std::string::npos; }

// arbitrary lines, fed one after the other to the same session
void lines(Ctx& c)
{
    auto& s = c.src;
    App app;
    const bool big = s.chance(1, 60);
    auto n = big ? 1 : 1 + s.draw(6);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        const auto text = genText(s, big ? 4000 : 24);
        static const Words heads = {"w ", "v ", "sub w ", "'w' ", " \"w\"\t", "w\n", "sub 'w'"};
        const auto line = s.pick(heads) + text;
        c.note(quote(line, 300));
        bool dangling = false;
        auto words = model::split(line, &dangling);
        const auto skip = words[0] == "sub" ? 2u : 1u;
        const bool runs = words.size() >= skip && words[skip - 1].size() == 1 && (words[skip - 1] == "w" || (skip == 1 && words[0] == "v"));
        const Words expected(words.begin() + (runs ? skip : 0), words.end());
        app.calls.clear();
        app.session->Feed(line);
        if (interesting(text) && words.size() > skip) c.nontrivial();
        if (dangling) { c.label("dangling backslash"); continue; } // only that it does no harm
        if (!runs) { c.label("not the command"); continue; }
        c.label("words " + std::string(expected.size() > 4 ? "5+" : std::to_string(expected.size())));
        VF_REQUIRE(c, app.calls.size() == 1, "line " << quote(line) << " ran the command " << app.calls.size() << " times, it has the words " << show(words));
        VF_REQUIRE(c, app.calls[0] == expected, "line " << quote(line) << " gave the command the words " << show(app.calls[0]) << " instead of " << show(expected));
    }
}

// quoting a list of words gives the list back
void roundTrip(Ctx& c)
{
    auto& s = c.src;
    App app;
    auto n = 1 + s.draw(4);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Span sp(s);
        Words words;
        auto k = s.chance(1, 30) ? s.draw(300) : s.draw(7);
        std::string line = "w";
        const auto which = s.draw(8);
        if (which == 6) { line = "one"; k = 1; }
        if (which == 7) { line = "three"; k = 3; }
        if (s.chance(1, 5) && which < 6) line = "sub w";
        static const std::string blank = " \t\n";
        for (std::uint64_t j = 0; j < k; ++j)
        {
            Span sp2(s);
            words.push_back(genWord(s));
            auto q = model::quoted(words.back(), static_cast<int>(s.draw(4)));
            // quotes need no blank around them; plain words do
            const bool quotedStart = q[0] == '"' || q[0] == '\'';
            const char last = line.back();
            const bool prevQuoted = j > 0 && (last == '"' || last == '\'') && line.size() > 1;
            if (!(prevQuoted && quotedStart && s.chance(1, 3)))
                for (std::uint64_t b = 0, m = 1 + s.draw(3); b < m; ++b) line += s.pick(blank);
            line += q;
        }
        if (s.coin()) line += s.pick(blank);
        c.note(quote(line, 300));
        if (model::split(line) != [&] { auto e = words; auto h = model::split(line.substr(0, line.find_first_of(" \t\n"))); if (line.compare(0, 5, "sub w") == 0) h.push_back("w"); e.insert(e.begin(), h.begin(), h.end()); return e; }())
        {
            c.label("adjacent words joined");
            continue; // an escaped quote at the end of the previous word, not a closing one
        }
        if (interesting(line)) c.nontrivial();
        app.calls.clear();
        app.session->Feed(line);
        VF_REQUIRE(c, app.calls.size() == 1, "line " << quote(line) << " ran the command " << app.calls.size() << " times");
        VF_REQUIRE(c, app.calls[0] == words, "the words " << show(words) << " quoted as " << quote(line) << " came back as " << show(app.calls[0]));
    }
}

// the first word too: the command is found by a name with any characters
void names(Ctx& c)
{
    auto& s = c.src;
    Words all;
    auto n = 1 + s.draw(4);
    for (std::uint64_t i = 0; i < n; ++i) all.push_back(genWord(s));
    auto root = std::make_unique<cli::Menu>("cli");
    std::vector<std::pair<std::size_t, Words>> calls;
    for (std::size_t i = 0; i < all.size(); ++i)
        root->Insert(all[i], [&calls, i](std::ostream&, const Words& a) { calls.emplace_back(i, a); }, "d");
    cli::Cli app(std::move(root));
    int wrong = 0;
    app.WrongCommandHandler([&](std::ostream&, const std::string&) { ++wrong; });
    std::ostringstream out;
    cli::CliSession session(app, out);
    for (int i = 0; i < 6; ++i)
    {
        Span sp(s);
        const auto k = static_cast<std::size_t>(s.draw(all.size()));
        const auto first = static_cast<std::size_t>(std::find(all.begin(), all.end(), all[k]) - all.begin());
        Words args;
        for (std::uint64_t j = 0, m = s.draw(3); j < m; ++j) args.push_back(genWord(s));
        auto line = model::quoted(all[k], static_cast<int>(s.draw(4)));
        for (auto& a : args) line += ' ' + model::quoted(a, static_cast<int>(s.draw(4)));
        c.note(quote(line));
        if (all[k] == "!" && args.size() == 1) { c.label("history reference"); continue; }
        if (interesting(line)) c.nontrivial();
        calls.clear();
        session.Feed(line);
        VF_REQUIRE(c, calls.size() == 1 && calls[0].first == first && calls[0].second == args,
            "line " << quote(line) << " for command " << quote(all[k]) << " with arguments " << show(args) << ": " << calls.size() << " calls" << (calls.empty() ? "" : ", words " + show(calls[0].second)));
    }
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C01";
    su.rule = "lines made of quotes, backslashes, blanks, '!', letters and arbitrary bytes (up to several KB), and lists of words rendered with every quoting style, entered one after the "
              "other in one session; the words free-form and string commands receive are compared with a reference tokenizer, or with the list that was quoted. "
              "Non-trivial: the line holds a quote, a backslash, '!', a tab or a line feed, and at least one word for the command.";
    su.props = {
        {"lines", lines, 400000, 6000000, 0, 20},
        {"round-trip", roundTrip, 200000, 3000000, 0, 20},
        {"names", names, 60000, 1000000, 0, 20},
    };
    return su;
}
