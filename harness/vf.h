// A small property-based testing engine: every random decision of a generated case is a
// "choice" drawn from a Src, so that a case is the list of its choices. That makes shrinking
// (simplify the list, run again) and replay (run the list) independent of the property.
#ifndef VF_H
#define VF_H

#include <chrono>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace vf
{

// Where the choices of a running case are recorded as they are drawn (shared memory, so that
// they survive a crash of the process that runs the case).
struct Record
{
    static constexpr std::size_t maxChoices = 1u << 17;
    static constexpr std::size_t maxSpans = 1u << 15;
    static constexpr std::size_t maxDesc = 1u << 16;
    static constexpr std::size_t maxFail = 1u << 13;
    volatile std::uint64_t caseIndex;
    volatile std::uint64_t done;      // cases completed by this worker
    volatile std::uint32_t finished;  // the worker went through all its cases
    volatile std::uint32_t failed;
    volatile std::uint32_t inconclusive;
    volatile std::uint64_t beats;    // steps of the cases (see alive())
    std::uint32_t nChoices;
    std::uint32_t nSpans;
    std::uint32_t descLen;
    char fail[maxFail];
    char desc[maxDesc];
    std::uint32_t spans[maxSpans][2];
    std::uint64_t choices[maxChoices];
};

inline Record* runningRecord = nullptr; // of the case being run

// a step of the case was made: the case advances, however slowly. Only for the harness' own (bounded) loops
inline void alive() { if (runningRecord) __atomic_fetch_add(&runningRecord->beats, 1, __ATOMIC_RELAXED); }

class Src
{
public:
    explicit Src(Record* r) : rec(r) {}

    // uniform in [0, n); 0 is the simplest choice
    std::uint64_t draw(std::uint64_t n)
    {
        if (n <= 1) return 0;
        std::uint64_t v;
        if (replay)
            v = pos < replay->size() ? (*replay)[pos] % n : 0;
        else if (bytes)
            v = fromBytes(n);
        else
            v = next() % n;
        ++pos;
        __atomic_fetch_add(&rec->beats, 1, __ATOMIC_RELAXED);
        if (rec->nChoices < Record::maxChoices)
            rec->choices[rec->nChoices++] = v;
        return v;
    }
    // in [lo, hi], lo is the simplest
    long long range(long long lo, long long hi)
    {
        return lo + static_cast<long long>(draw(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    // true num times out of den; false is the simplest
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool coin() { return chance(1, 2); }
    template <class C> auto& pick(C& c) { return c[static_cast<std::size_t>(draw(c.size()))]; }
    template <class C> const auto& pick(const C& c) { return c[static_cast<std::size_t>(draw(c.size()))]; }
    // index drawn with the given weights
    std::size_t weighted(const std::vector<unsigned>& w)
    {
        unsigned t = 0;
        for (auto x : w) t += x;
        auto v = draw(t);
        for (std::size_t i = 0; i < w.size(); ++i)
        {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }
    // a size with a geometric flavour: mostly small, sometimes up to max
    std::size_t size(std::size_t max)
    {
        if (max == 0) return 0;
        switch (draw(8))
        {
            case 0: case 1: case 2: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 3) + 1));
            case 3: case 4: case 5: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 10) + 1));
            case 6: return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 40) + 1));
            default: return static_cast<std::size_t>(draw(max + 1));
        }
    }

    void spanBegin(std::uint32_t& mark) { mark = rec->nChoices; }
    void spanEnd(std::uint32_t mark)
    {
        if (rec->nSpans < Record::maxSpans && rec->nChoices > mark)
        {
            rec->spans[rec->nSpans][0] = mark;
            rec->spans[rec->nSpans][1] = rec->nChoices;
            ++rec->nSpans;
        }
    }

    // sources of the choices
    void seedRandom(std::uint64_t s) { state = s; replay = nullptr; bytes = nullptr; }
    void setReplay(const std::vector<std::uint64_t>* r) { replay = r; bytes = nullptr; }
    void setBytes(const unsigned char* p, std::size_t n) { bytes = p; nBytes = n; replay = nullptr; }

private:
    std::uint64_t next() // splitmix64
    {
        std::uint64_t z = (state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::uint64_t fromBytes(std::uint64_t n)
    {
        std::uint64_t v = 0;
        for (std::uint64_t k = n - 1; k; k >>= 8)
        {
            v <<= 8;
            if (bPos < nBytes) v |= bytes[bPos++];
        }
        return v % n;
    }
    Record* rec;
    std::uint64_t state = 0;
    const std::vector<std::uint64_t>* replay = nullptr;
    std::size_t pos = 0;
    const unsigned char* bytes = nullptr;
    std::size_t nBytes = 0, bPos = 0;
};

// marks the choices of one list element, so that the shrinker can drop it as a whole
struct Span
{
    explicit Span(Src& s) : src(s) { src.spanBegin(mark); }
    ~Span() { src.spanEnd(mark); }
    Span(const Span&) = delete;
    Span& operator=(const Span&) = delete;
    Src& src;
    std::uint32_t mark;
};

struct Stats; // engine side

struct Ctx
{
    Ctx(Src& s, Record* r, Stats* st, bool thoroughTier) : src(s), rec(r), stats(st), thorough(thoroughTier) {}
    Src& src;

    // adds to the description of the case (also what tells distinct cases apart)
    void note(const std::string& t)
    {
        for (unsigned char ch : t) hash = (hash ^ ch) * 1099511628211ull;
        hash = (hash ^ 0x1f) * 1099511628211ull;
        auto room = Record::maxDesc - 1 - rec->descLen;
        auto n = std::min<std::size_t>(room > 2 ? room - 2 : 0, t.size());
        memcpy(rec->desc + rec->descLen, t.data(), n);
        rec->descLen += static_cast<std::uint32_t>(n);
        if (room > 2) rec->desc[rec->descLen++] = '\n';
        rec->desc[rec->descLen] = 0;
    }
    void label(const std::string& l);
    void nontrivial(bool b = true) { if (b) isNontrivial = true; }
    // records a failure (the first one counts); never throws, so it can be used inside handlers
    void fail(const std::string& m)
    {
        if (rec->failed) return;
        auto n = std::min<std::size_t>(Record::maxFail - 1, m.size());
        memcpy(rec->fail, m.data(), n);
        rec->fail[n] = 0;
        rec->failed = 1;
    }
    bool failed() const { return rec->failed != 0; }
    // the environment did not let the case be decided (never a violation, counted apart)
    void inconclusive(const std::string& why) { rec->inconclusive = 1; label("inconclusive: " + why); }

    // true when the case has taken so long that it should be cut where it is
    bool slow() const { return std::chrono::steady_clock::now() - begin > std::chrono::seconds(15); }

    Record* rec;
    Stats* stats;
    bool thorough;
    std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
    std::uint64_t hash = 1469598103934665603ull;
    bool isNontrivial = false;
};

#define VF_REQUIRE(c, cond, msg) \
    do { if (!(cond)) { std::ostringstream vf_o; vf_o << msg; (c).fail(vf_o.str()); return; } } while (0)

struct Prop
{
    std::string name;
    std::function<void(Ctx&)> run;
    std::uint64_t quickCases;
    std::uint64_t thoroughCases;
    // a case that depends on thread or process scheduling: a failure is confirmed when it shows up
    // again in at least one of this many replays (0: deterministic, must fail in 3 replays out of 3)
    unsigned scheduleReplays = 0;
    double caseTimeout = 30; // seconds without progress (no step, see alive(); eight times that for a whole case) that count as a hang
    unsigned shards = 8;
};

struct Suite
{
    std::string property;  // id
    std::string rule;      // how cases are made and what makes one non-trivial
    std::vector<Prop> props;
    std::function<void()> resetGlobals = []{}; // before every case
};

// defined by each check
Suite makeSuite();

// text utilities
inline std::string quote(const std::string& s, std::size_t max = 400)
{
    static const char* hex = "0123456789abcdef";
    std::string r = "\"";
    std::size_t n = 0;
    for (unsigned char c : s)
    {
        if (n++ >= max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        switch (c)
        {
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            default:
                if (c < 32 || c >= 127) { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
                else r += static_cast<char>(c);
        }
    }
    return r + "\"";
}
inline std::string show(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        if (i >= 60) { r += ", ...(" + std::to_string(v.size()) + ")"; break; }
        r += (i ? ", " : "") + quote(v[i], 120);
    }
    return r + "]";
}

} // namespace vf

#endif
