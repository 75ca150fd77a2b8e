// Driver of the property-based testing engine: runs the cases of a Suite in worker processes,
// detects failures (reported, crash, sanitizer report, hang), shrinks and confirms them.
#include "vf.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf
{

struct Stats
{
    std::map<std::string, std::uint64_t> labels;
    std::unordered_set<std::uint64_t> hashes; // distinct non-trivial cases
    std::vector<std::string> samples;
    std::uint64_t inconclusive = 0;
};

void Ctx::label(const std::string& l) { if (stats) ++stats->labels[l]; }

} // namespace vf

using namespace vf;
using Clock = std::chrono::steady_clock;
using Choices = std::vector<std::uint64_t>;

static double secondsSince(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

static std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static std::uint64_t fnv(const std::string& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

static Record* newRecord()
{
    void* p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Record*>(p);
}

static void resetRecord(Record* r)
{
    r->failed = 0;
    r->inconclusive = 0;
    r->nChoices = 0;
    r->nSpans = 0;
    r->descLen = 0;
    r->fail[0] = 0;
    r->desc[0] = 0;
}

struct Options
{
    std::uint64_t seed = 1;
    bool thorough = false;
    double scale = 1;
    double budget = 1e9;               // seconds for the exploration: no new case is started afterwards
    std::vector<std::pair<std::string, std::string>> known; // recorded findings: the family, and what it says
    std::string out, dir, replay, only, replayOut;
    double caseTimeout = 0;
    bool noShrink = false;
};
static Options opt;
static Clock::time_point started;
static bool outOfTime() { return secondsSince(started) > opt.budget; }
static Suite suite;

static void redirect(const std::string& errFile)
{
    int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
    int n = open("/dev/null", O_RDWR);
    if (e >= 0) { dup2(e, 2); if (e > 2) close(e); }
    if (n >= 0) { dup2(n, 0); dup2(n, 1); if (n > 2) close(n); }
}

static void runCase(const Prop& p, Src& src, Record* rec, Stats* st, bool sample)
{
    suite.resetGlobals();
    runningRecord = rec;
    Ctx c(src, rec, st, opt.thorough);
    try
    {
        p.run(c);
    }
    catch (const std::exception& e)
    {
        c.fail(std::string("exception escaped: ") + e.what());
    }
    catch (...)
    {
        c.fail("unknown exception escaped");
    }
    if (st && !rec->failed)
    {
        if (rec->inconclusive) ++st->inconclusive;
        else if (c.isNontrivial)
        {
            st->hashes.insert(c.hash);
            if (sample && st->samples.size() < 2)
                st->samples.push_back(p.name + ": " + std::string(rec->desc).substr(0, 1500));
        }
    }
}

static void saveStats(const Stats& s, const std::string& file)
{
    std::ofstream f(file, std::ios::binary);
    auto putStr = [&](const std::string& x) { std::uint64_t n = x.size(); f.write(reinterpret_cast<char*>(&n), 8); f.write(x.data(), static_cast<std::streamsize>(n)); };
    auto putNum = [&](std::uint64_t n) { f.write(reinterpret_cast<char*>(&n), 8); };
    putNum(s.inconclusive);
    putNum(s.labels.size());
    for (auto& l : s.labels) { putStr(l.first); putNum(l.second); }
    putNum(s.samples.size());
    for (auto& l : s.samples) putStr(l);
    putNum(s.hashes.size());
    for (auto h : s.hashes) putNum(h);
}

static void loadStats(Stats& s, const std::string& file)
{
    std::ifstream f(file, std::ios::binary);
    if (!f) return;
    auto getNum = [&] { std::uint64_t n = 0; f.read(reinterpret_cast<char*>(&n), 8); return n; };
    auto getStr = [&] { std::string x(getNum(), ' '); f.read(&x[0], static_cast<std::streamsize>(x.size())); return x; };
    s.inconclusive += getNum();
    for (auto n = getNum(); n && f; --n) { auto k = getStr(); s.labels[k] += getNum(); }
    for (auto n = getNum(); n && f; --n) s.samples.push_back(getStr());
    for (auto n = getNum(); n && f; --n) s.hashes.insert(getNum());
}

static std::uint64_t caseSeed(const Prop& p, std::uint64_t i) { return mix(mix(opt.seed, fnv(p.name)), i); }

// child: cases first, first+step, ... < total
static void worker(const Prop& p, Record* rec, std::uint64_t first, std::uint64_t step, std::uint64_t total, const std::string& base)
{
    redirect(base + ".err");
    Stats st;
    std::uint64_t n = 0;
    for (std::uint64_t i = first; i < total; i += step)
    {
        if (outOfTime()) { st.labels["stopped by the time budget"] = 1; break; }
        resetRecord(rec);
        rec->caseIndex = i;
        Src src(rec);
        src.seedRandom(caseSeed(p, i));
        runCase(p, src, rec, &st, n >= 3);
        if (rec->failed)
        {
            saveStats(st, base + ".stat");
            _exit(3);
        }
        rec->done = ++n;
        if (n % 256 == 0) { struct stat sb; if (fstat(2, &sb) == 0 && sb.st_size > (1 << 20)) { if (ftruncate(2, 0)) {} } }
    }
    saveStats(st, base + ".stat");
    rec->finished = 1;
    _exit(0);
}

static std::string readAll(const std::string& file, std::size_t max)
{
    std::ifstream f(file, std::ios::binary);
    std::string s(max, 0);
    f.read(&s[0], static_cast<std::streamsize>(max));
    s.resize(static_cast<std::size_t>(f.gcount()));
    return s;
}

// a short description of how a worker died
static std::string crashMessage(int status, const std::string& errFile)
{
    std::string r;
    if (WIFSIGNALED(status)) r = "killed by signal " + std::to_string(WTERMSIG(status));
    else r = "process ended with status " + std::to_string(WEXITSTATUS(status));
    auto text = readAll(errFile, 8u << 20);
    static const char* marks[] = {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "terminate called", "hard rss limit"};
    std::size_t at = std::string::npos;
    for (auto m : marks)
    {
        auto q = text.find(m);
        if (q != std::string::npos && (at == std::string::npos || q < at)) at = q;
    }
    if (at != std::string::npos)
    {
        auto bol = text.rfind('\n', at);
        bol = bol == std::string::npos ? 0 : bol + 1;
        std::istringstream is(text.substr(bol));
        std::string line;
        int kept = 0;
        for (int i = 0; i < 400 && kept < 14 && std::getline(is, line); ++i)
            if (i == 0 || line.find("/cli/") != std::string::npos) { r += "\n  " + line.substr(0, 300); ++kept; }
    }
    else if (!text.empty())
        r += "\n  " + text.substr(text.size() > 500 ? text.size() - 500 : 0);
    return r;
}

enum class Kind { ok, reported, crash, hang };

struct Outcome
{
    Kind kind = Kind::ok;
    std::string message, desc;
    Choices choices;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> spans;
    bool inconclusive = false;
};

static Outcome collect(Record* rec, Kind kind, const std::string& message)
{
    Outcome o;
    o.kind = kind;
    o.message = message;
    o.desc = rec->desc;
    o.choices.assign(rec->choices, rec->choices + std::min<std::size_t>(rec->nChoices, Record::maxChoices));
    for (std::uint32_t i = 0; i < rec->nSpans; ++i) o.spans.emplace_back(rec->spans[i][0], rec->spans[i][1]);
    o.inconclusive = rec->inconclusive != 0;
    return o;
}

static int waitChild(pid_t pid, Record* rec, double timeout, bool& hang)
{
    auto last = Clock::now(), begin = last;
    std::uint64_t seen = rec->done, seenCase = rec->caseIndex, seenBeats = rec->beats;
    int status = 0;
    hang = false;
    unsigned nap = 100;
    while (true)
    {
        auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) return status;
        if (r < 0 && errno != EINTR) return 0;
        if (rec->done != seen || rec->caseIndex != seenCase) { seen = rec->done; seenCase = rec->caseIndex; begin = last = Clock::now(); }
        if (rec->beats != seenBeats) { seenBeats = rec->beats; last = Clock::now(); }
        if (secondsSince(last) > timeout || secondsSince(begin) > 8 * timeout)
        {
            hang = true;
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return status;
        }
        usleep(nap);
        if (nap < 5000) nap *= 2;
    }
}

static Record* scratchRec = nullptr;

static Outcome execute(const Prop& p, const Choices* choices, std::uint64_t seed, double timeout)
{
    auto rec = scratchRec;
    resetRecord(rec);
    rec->done = 0;
    rec->caseIndex = 0;
    auto err = opt.dir + "/exec.err";
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect(err);
        Src src(rec);
        if (choices) src.setReplay(choices);
        else src.seedRandom(seed);
        runCase(p, src, rec, nullptr, false);
        _exit(rec->failed ? 3 : 0);
    }
    bool hang = false;
    int st = waitChild(pid, rec, timeout, hang);
    if (rec->failed) return collect(rec, Kind::reported, rec->fail);
    if (hang) return collect(rec, Kind::hang, "no progress for " + std::to_string(static_cast<int>(timeout)) + " s (the case does not terminate)");
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return collect(rec, Kind::crash, crashMessage(st, err));
    return collect(rec, Kind::ok, "");
}

static bool smaller(const Choices& a, const Choices& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Outcome shrink(const Prop& p, Outcome best, unsigned& execs)
{
    const auto start = Clock::now();
    const double limit = best.kind == Kind::hang ? 40 : 50;
    const unsigned maxExecs = best.kind == Kind::hang ? 40 : (p.scheduleReplays ? 300 : 4000);
    const double timeout = best.kind == Kind::hang ? 3 : p.caseTimeout;
    auto exhausted = [&] { return execs >= maxExecs || secondsSince(start) > limit; };
    auto tryIt = [&](const Choices& c)
    {
        if (exhausted() || !smaller(c, best.choices)) return false;
        ++execs;
        auto o = execute(p, &c, 0, timeout);
        if (o.kind != best.kind || !smaller(o.choices, best.choices)) return false;
        best = std::move(o);
        return true;
    };
    bool progress = true;
    while (progress && !exhausted())
    {
        progress = false;
        // whole elements, biggest first
        for (bool again = true; again && !exhausted();)
        {
            again = false;
            auto spans = best.spans;
            std::sort(spans.begin(), spans.end(), [](auto& a, auto& b) { return a.second - a.first > b.second - b.first; });
            std::size_t tried = 0;
            for (auto& s : spans)
            {
                if (s.second > best.choices.size() || ++tried > 400) break;
                Choices c = best.choices;
                c.erase(c.begin() + s.first, c.begin() + s.second);
                if (tryIt(c)) { again = progress = true; break; }
            }
        }
        // chunks of choices
        for (std::size_t len : {64, 16, 8, 4, 2, 1})
            for (std::size_t i = 0; i + len <= best.choices.size() && !exhausted();)
            {
                Choices c = best.choices;
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (tryIt(c)) { progress = true; continue; }
                // a shorter list often needs its length adjusted: try with the previous choice decremented
                if (i > 0 && best.choices[i - 1] > 0)
                {
                    c[i - 1]--;
                    if (tryIt(c)) { progress = true; continue; }
                }
                i += best.choices.size() > 600 ? std::max<std::size_t>(len, best.choices.size() / 300) : len;
            }
        // single values
        for (std::size_t i = 0; i < best.choices.size() && !exhausted(); ++i)
        {
            if (best.choices[i] == 0) continue;
            Choices c = best.choices;
            c[i] = 0;
            if (tryIt(c)) { progress = true; continue; }
            std::uint64_t lo = 0, hi = best.choices[i];
            while (hi - lo > 1 && !exhausted())
            {
                auto mid = lo + (hi - lo) / 2;
                if (i >= best.choices.size()) break;
                c = best.choices;
                c[i] = mid;
                if (tryIt(c)) { progress = true; hi = mid; }
                else lo = mid;
            }
        }
    }
    return best;
}

static std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

struct Failure
{
    bool found = false, confirmed = false;
    std::string prop, how, original;
    Outcome o;
    std::uint64_t caseIndex = 0;
    unsigned shard = 0, execs = 0;
};

static const Prop* findProp(const std::string& n)
{
    for (auto& p : suite.props) if (p.name == n) return &p;
    return nullptr;
}

// true if running the cases of a shard from its first one up to the given case fails again
static bool prefixFails(const Prop& p, std::uint64_t shard, std::uint64_t upto, Outcome& o)
{
    auto rec = scratchRec;
    resetRecord(rec);
    rec->done = 0; rec->finished = 0; rec->caseIndex = 0;
    auto base = opt.dir + "/prefix";
    pid_t pid = fork();
    if (pid == 0) worker(p, rec, shard, p.shards, upto + 1, base);
    bool hang = false;
    int st = waitChild(pid, rec, p.caseTimeout, hang);
    if (rec->finished) return false;
    if (rec->failed) o = collect(rec, Kind::reported, rec->fail);
    else if (hang) o = collect(rec, Kind::hang, "no progress (the case does not terminate)");
    else o = collect(rec, Kind::crash, crashMessage(st, base + ".err"));
    return true;
}

static bool isKnown(const Prop& p, const Outcome& o)
{
    return std::any_of(opt.known.begin(), opt.known.end(), [&](auto& k) { return k.first == p.name && o.kind == Kind::reported && o.message.find(k.second) == 0; });
}

static void confirm(const Prop& p, Failure& f)
{
    // the failing process is itself evidence for a sanitizer report of a data race
    if (p.scheduleReplays && f.o.kind == Kind::crash && f.o.message.find("ThreadSanitizer") != std::string::npos)
    {
        f.confirmed = true;
        f.how = "ThreadSanitizer report";
        return;
    }
    auto stable = [&](const Choices& c, Outcome& out)
    {
        if (p.scheduleReplays)
        {
            for (unsigned i = 0; i < p.scheduleReplays; ++i)
            {
                auto o = execute(p, &c, 0, p.caseTimeout);
                if (o.kind != Kind::ok) { out = o; f.how = "seen again in replay " + std::to_string(i + 1) + " of " + std::to_string(p.scheduleReplays); return true; }
            }
            return false;
        }
        for (int i = 0; i < 3; ++i)
        {
            auto o = execute(p, &c, 0, p.caseTimeout);
            if (o.kind == Kind::ok) return false;
            out = o;
        }
        f.how = "failed in 3 replays out of 3";
        return true;
    };
    Outcome o;
    auto original = f.o;
    if (stable(original.choices, o))
    {
        auto before = o;
        if (isKnown(p, o)) { f.o = o; f.confirmed = true; return; }
        if (opt.noShrink) { f.o = o; f.confirmed = true; return; }
        auto s = shrink(p, o, f.execs);
        auto how = f.how;
        if (stable(s.choices, o)) f.o = o;
        else { f.o = before; f.how = how; }
        f.confirmed = true;
        return;
    }
    // maybe it needs what earlier cases left behind in the process
    if (!p.scheduleReplays && prefixFails(p, f.shard, f.caseIndex, o))
    {
        Outcome o2;
        if (prefixFails(p, f.shard, f.caseIndex, o2))
        {
            f.o = o2;
            f.confirmed = true;
            f.how = "needs the preceding cases of its worker: repeated twice with them";
        }
    }
}

static bool runProp(const Prop& p, Stats& total, std::uint64_t& evaluations, Failure& failure, double& secs, unsigned& unconfirmed, std::string& unconfirmedText)
{
    const auto t0 = Clock::now();
    const auto cases = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(static_cast<double>(opt.thorough ? p.thoroughCases : p.quickCases) * opt.scale));
    const unsigned shards = static_cast<unsigned>(std::min<std::uint64_t>(p.shards, cases));
    std::vector<std::uint64_t> next(shards); // first case of each shard
    for (unsigned s = 0; s < shards; ++s) next[s] = s;
    for (unsigned round = 0; round < 5; ++round)
    {
        struct W { pid_t pid; Record* rec; std::string base; bool done; Clock::time_point last; std::uint64_t seen; Clock::time_point begin; std::uint64_t beats; };
        std::vector<W> ws;
        failure = Failure{};
        for (unsigned s = 0; s < shards; ++s)
        {
            W w{0, newRecord(), opt.dir + "/" + p.name + "." + std::to_string(s), false, Clock::now(), 0, Clock::now(), 0};
            unlink((w.base + ".stat").c_str());
            w.rec->caseIndex = next[s];
            w.pid = fork();
            if (w.pid == 0) worker(p, w.rec, next[s], p.shards, cases, w.base);
            ws.push_back(w);
        }
        unsigned alive = shards;
        bool stop = false;
        while (alive && !stop)
        {
            for (unsigned s = 0; s < shards && !stop; ++s)
            {
                auto& w = ws[s];
                if (w.done) continue;
                int st = 0;
                auto r = waitpid(w.pid, &st, WNOHANG);
                bool hang = false;
                if (r == 0)
                {
                    if (w.rec->done != w.seen) { w.seen = w.rec->done; w.begin = w.last = Clock::now(); }
                    if (w.rec->beats != w.beats) { w.beats = w.rec->beats; w.last = Clock::now(); }
                    if (secondsSince(w.last) > p.caseTimeout || secondsSince(w.begin) > 8 * p.caseTimeout)
                    {
                        hang = true;
                        kill(w.pid, SIGKILL);
                        waitpid(w.pid, &st, 0);
                    }
                    else continue;
                }
                w.done = true;
                --alive;
                if (w.rec->finished) continue;
                failure.found = true;
                failure.prop = p.name;
                failure.caseIndex = w.rec->caseIndex;
                failure.shard = s;
                if (w.rec->failed) failure.o = collect(w.rec, Kind::reported, w.rec->fail);
                else if (hang) failure.o = collect(w.rec, Kind::hang, "no progress for " + std::to_string(static_cast<int>(p.caseTimeout)) + " s (the case does not terminate)");
                else failure.o = collect(w.rec, Kind::crash, crashMessage(st, w.base + ".err"));
                failure.original = failure.o.message;
                stop = true;
            }
            usleep(3000);
        }
        for (auto& w : ws)
            if (!w.done) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); }
        for (unsigned s = 0; s < shards; ++s)
        {
            auto& w = ws[s];
            evaluations += w.rec->done;
            next[s] += w.rec->done * p.shards;
            loadStats(total, w.base + ".stat");
            munmap(w.rec, sizeof(Record));
        }
        if (!failure.found) break;
        confirm(p, failure);
        if (failure.confirmed) break;
        ++unconfirmed;
        unconfirmedText += p.name + " case " + std::to_string(failure.caseIndex) + ": " + failure.o.message + "\n" + failure.o.desc.substr(0, 3000) + "\n";
        next[failure.shard] = failure.caseIndex + p.shards; // goes on after it
    }
    secs = secondsSince(t0);
    return failure.found && failure.confirmed;
}

static int replayFile()
{
    std::ifstream f(opt.replay);
    std::string line, prop, mode = "choices";
    Choices ch;
    std::uint64_t shard = 0, upto = 0;
    while (std::getline(f, line))
    {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "prop") is >> prop;
        else if (k == "seed") is >> opt.seed;
        else if (k == "tier") { std::string t; is >> t; opt.thorough = t == "thorough"; }
        else if (k == "prefix") { mode = "prefix"; is >> shard >> upto; }
        else if (k == "choices") { std::uint64_t v; while (is >> v) ch.push_back(v); }
    }
    auto p = findProp(prop);
    if (!p) { std::cerr << "no such case family: " << prop << "\n"; return 2; }
    Outcome o;
    bool bad = false;
    if (mode == "prefix") bad = prefixFails(*p, shard, upto, o);
    else
        for (unsigned i = 0; i < std::max(1u, p->scheduleReplays) && !bad; ++i)
        {
            o = execute(*p, &ch, 0, p->caseTimeout);
            bad = o.kind != Kind::ok;
        }
    std::cout << o.desc << "\n" << (bad ? "FAILS: " + o.message : "passes") << std::endl;
    return bad ? 1 : 0;
}

int main(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") opt.seed = std::stoull(v);
        else if (k == "--tier") opt.thorough = v == "thorough";
        else if (k == "--scale") opt.scale = std::stod(v);
        else if (k == "--out") opt.out = v;
        else if (k == "--dir") opt.dir = v;
        else if (k == "--replay") opt.replay = v;
        else if (k == "--only") opt.only = v;
        else if (k == "--budget") opt.budget = std::stod(v);
        else if (k == "--known") opt.known.emplace_back(v.substr(0, v.find(':')), v.substr(v.find(':') + 1));
        else if (k == "--replay-out") opt.replayOut = v;
        else if (k == "--case-timeout") opt.caseTimeout = std::stod(v); // these two only to try many changes quickly
        else if (k == "--no-shrink") opt.noShrink = v == "1";
    }
    if (opt.dir.empty()) opt.dir = "/tmp";
    started = Clock::now();
    signal(SIGPIPE, SIG_IGN);
    suite = makeSuite();
    if (opt.caseTimeout > 0) for (auto& p : suite.props) p.caseTimeout = opt.caseTimeout;
    scratchRec = newRecord();
    if (!opt.replay.empty()) return replayFile();

    Stats total;
    std::uint64_t evaluations = 0;
    Failure failure;
    std::ostringstream per;
    const auto t0 = Clock::now();
    unsigned unconfirmed = 0;
    std::string unconfirmedText;
    std::vector<std::string> knownSeen;
    for (auto& p : suite.props)
    {
        if (!opt.only.empty() && p.name.find(opt.only) == std::string::npos) continue;
        auto before = evaluations;
        auto beforeD = total.hashes.size();
        double secs = 0;
        failure = Failure{};
        bool bad = runProp(p, total, evaluations, failure, secs, unconfirmed, unconfirmedText);
        per << (per.tellp() > 0 ? ", " : "") << jsonStr(p.name) << ": {\"evaluations\": " << evaluations - before
            << ", \"distinct_nontrivial\": " << total.hashes.size() - beforeD << ", \"seconds\": " << secs << "}";
        if (bad && isKnown(p, failure.o))
        {
            knownSeen.push_back(p.name);
            bad = false;
        }
        if (bad) break;
        failure.found = false;
    }

    std::ostringstream j;
    j << "{\n\"property\": " << jsonStr(suite.property) << ",\n\"rule\": " << jsonStr(suite.rule) << ",\n\"evaluations\": " << evaluations
      << ",\n\"distinct_nontrivial\": " << total.hashes.size() << ",\n\"inconclusive\": " << total.inconclusive << ",\n\"seconds\": " << secondsSince(t0)
      << ",\n\"families\": {" << per.str() << "},\n\"labels\": {";
    bool first = true;
    for (auto& l : total.labels) { j << (first ? "" : ", ") << jsonStr(l.first) << ": " << l.second; first = false; }
    j << "},\n\"samples\": [";
    std::map<std::string, int> perProp;
    first = true;
    for (auto& s : total.samples)
    {
        if (++perProp[s.substr(0, s.find(':'))] > 2) continue;
        j << (first ? "" : ",\n ") << jsonStr(s);
        first = false;
    }
    j << "],\n\"unconfirmed\": " << unconfirmed << ",\n\"unconfirmed_text\": " << jsonStr(unconfirmedText);
    j << ",\n\"known\": [";
    for (std::size_t i = 0; i < knownSeen.size(); ++i) j << (i ? ", " : "") << jsonStr(knownSeen[i]);
    j << "]";
    if (failure.found && failure.confirmed)
    {
        j << ",\n\"failure\": {\"family\": " << jsonStr(failure.prop) << ", \"message\": " << jsonStr(failure.o.message)
          << ", \"first_message\": " << jsonStr(failure.original)
          << ", \"confirmed\": " << jsonStr(failure.how) << ", \"shrink_runs\": " << failure.execs << ", \"case\": " << jsonStr(failure.o.desc) << "}";
        std::ofstream r(opt.replayOut);
        r << "property " << suite.property << "\nprop " << failure.prop << "\nseed " << opt.seed << "\ntier " << (opt.thorough ? "thorough" : "quick") << "\n";
        if (failure.how.find("preceding") != std::string::npos) r << "prefix " << failure.shard << " " << failure.caseIndex << "\n";
        r << "choices";
        for (auto c : failure.o.choices) r << " " << c;
        r << "\n# " << failure.how << "\n";
        std::istringstream is("FAILS: " + failure.o.message + "\n" + failure.o.desc);
        for (std::string line; std::getline(is, line);) r << "# " << line << "\n";
    }
    j << "\n}\n";
    if (!opt.out.empty()) std::ofstream(opt.out) << j.str();
    else std::cout << j.str();
    return failure.found && failure.confirmed ? 1 : 0;
}
