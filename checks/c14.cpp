// C14 History storages are bounded logs that keep the newest commands in order
#include "vf.h"

#include <cli/filehistorystorage.h>
#include <cli/volatilehistorystorage.h>

#include <memory>

#include <sys/stat.h>
#include <unistd.h>

using namespace vf;
using Words = std::vector<std::string>;

namespace
{

std::string genText(Src& s)
{
    static const std::string wide = std::string("ab \t\"'\\!\r") + '\0' + "\x01\x1a\x1b\x7f\v\f\x80\xff\xc3\xa9";
    switch (s.draw(6))
    {
        case 0: { static const Words w = {"", " ", "a", "\\n", "\r", "a\r", "\t", "#", "!", "\\", "0"}; return s.pick(w); }
        case 1: { std::string r; for (std::uint64_t i = 0, n = s.draw(20); i < n; ++i) r += s.pick(wide); return r; }
        case 2: if (s.chance(1, 10)) return std::string(static_cast<std::size_t>(s.draw(s.chance(1, 40) ? 300000 : 20000)), static_cast<char>('a' + s.draw(3))); [[fallthrough]];
        default: return "command " + std::to_string(s.draw(1000));
    }
}

Words newest(const Words& v, std::size_t n) { return v.size() <= n ? v : Words(v.end() - static_cast<long>(n), v.end()); }

std::size_t genCapacity(Src& s)
{
    static const std::size_t c[] = {3, 0, 1, 2, 5, 10, 50, 1000};
    if (s.chance(1, 60)) return s.coin() ? 1001 + s.draw(9000) : 60 + s.draw(940); // large ones
    return c[s.draw(8)];
}
Words genBatch(Src& s, std::size_t cap)
{
    Words v;
    std::uint64_t n = 0;
    switch (cap > 1000 && s.chance(1, 4) ? 4 : s.draw(5))
    {
        case 0: n = s.draw(2); break;
        case 1: case 2: n = s.draw(6); break;
        case 3: n = cap < 60 ? cap + s.draw(5) - (cap > 2 ? 2 : cap) : s.draw(30); break;
        default: n = s.chance(1, cap > 1000 ? 2 : 6) ? s.draw(2 * (cap > 1000 ? cap : std::min<std::size_t>(cap, 700)) + 10) : s.draw(12); break;
    }
    const bool cheap = n > 40;
    for (std::uint64_t i = 0; i < n; ++i) { Span sp(s); v.push_back(cheap ? "c" + std::to_string(i) : genText(s)); }
    return v;
}

void volatileStorage(Ctx& c)
{
    auto& s = c.src;
    const auto cap = genCapacity(s);
    const bool byDefault = cap == 1000 && s.coin();
    cli::VolatileHistoryStorage sized(cap), usual;
    cli::HistoryStorage& st = byDefault ? usual : sized;
    c.note("capacity " + std::to_string(cap));
    Words all;
    bool over = false;
    for (std::uint64_t i = 0, n = 1 + s.draw(12); i < n; ++i)
    {
        Span sp(s);
        if (s.chance(1, 8)) { st.Clear(); all.clear(); c.note("clear"); }
        else
        {
            auto v = genBatch(s, cap);
            c.note("store " + show(v));
            st.Store(v);
            all.insert(all.end(), v.begin(), v.end());
            if (all.size() > cap && cap > 0) over = true;
        }
        auto got = st.Commands();
        VF_REQUIRE(c, got == newest(all, cap), "volatile storage of " << cap << " returns " << show(got) << " expected " << show(newest(all, cap)));
    }
    if (over) c.nontrivial();
}

void fileStorage(Ctx& c)
{
    auto& s = c.src;
    const std::string file = "store." + std::to_string(getpid());
    unlink(file.c_str());
    const auto cap = genCapacity(s);
    struct O { std::unique_ptr<cli::FileHistoryStorage> p; std::size_t cap; };
    std::vector<O> objects;
    const bool otherCaps = s.chance(1, 4);
    auto open = [&]
    {
        O o;
        o.cap = otherCaps && s.coin() ? genCapacity(s) : cap;
        o.p = o.cap == 1000 && s.coin() ? std::make_unique<cli::FileHistoryStorage>(file) : std::make_unique<cli::FileHistoryStorage>(file, o.cap);
        c.note("open #" + std::to_string(objects.size()) + " capacity " + std::to_string(o.cap));
        objects.push_back(std::move(o));
    };
    Words all; // what is in the file
    bool over = false, reopened = false;
    open();
    for (std::uint64_t i = 0, n = 1 + s.draw(12); i < n; ++i)
    {
        Span sp(s);
        if (s.chance(1, 5)) { open(); reopened = true; }
        if (s.chance(1, 8) && objects.size() > 1) { objects.erase(objects.begin() + static_cast<long>(s.draw(objects.size()))); c.note("close"); }
        auto& o = objects[static_cast<std::size_t>(s.draw(objects.size()))];
        switch (s.draw(10))
        {
            case 0: o.p->Clear(); all.clear(); c.note("clear"); break;
            case 1: unlink(file.c_str()); all.clear(); c.note("file removed"); break;
            case 2: // made by another program, perhaps without an end of the last line
                if (s.chance(1, 3))
                {
                    all = newest(genBatch(s, o.cap), o.cap);
                    const bool open = !all.empty() && !all.back().empty() && s.coin();
                    {
                        std::ofstream f(file, std::ios::binary);
                        for (std::size_t k = 0; k < all.size(); ++k) f << all[k] << (open && k + 1 == all.size() ? "" : "\n");
                    }
                    c.note("file written " + show(all) + (open ? " without end" : ""));
                    c.label("file of another program");
                    break;
                }
                [[fallthrough]];
            default:
            {
                auto v = genBatch(s, o.cap);
                c.note("store #" + std::to_string(&o - &objects[0]) + " " + show(v));
                o.p->Store(v);
                all.insert(all.end(), v.begin(), v.end());
                if (all.size() > o.cap && o.cap > 0) over = true;
                all = newest(all, o.cap);
                break;
            }
        }
        for (auto& x : objects)
        {
            auto got = x.p->Commands();
            // an object with a smaller capacity than what another one left: both answers will do
            VF_REQUIRE(c, got == newest(all, x.cap) || (otherCaps && got == all),
                "file storage of " << x.cap << " returns " << show(got) << " expected " << show(newest(all, x.cap)));
        }
    }
    unlink(file.c_str());
    // a file that has never been there
    cli::FileHistoryStorage none("no-such-file." + std::to_string(getpid()), cap);
    VF_REQUIRE(c, none.Commands().empty(), "a missing file is not read as empty");
    if (over) { c.nontrivial(); c.label("capacity exceeded"); }
    if (reopened) c.label("several objects");
}

} // namespace

Suite vf::makeSuite()
{
    Suite su;
    su.property = "C14";
    su.rule = "sequences of stores (batches from empty to more than twice the capacity, texts with any byte but a line feed, up to 300 KB), clears, reopenings and removals of the file, files made by another program (also without an end of the last line), with capacities 0 to 1000, now and then 10000, and "
              "several objects on one file; after each, what every object returns is compared with a reference list. Non-trivial: more was stored than the capacity allows.";
    su.props = {
        {"volatile", volatileStorage, 60000, 1000000, 0, 20},
        {"file", fileStorage, 40000, 600000, 0, 20},
    };
    return su;
}
