// Telnet clients against a server run by the same thread, by polling its context.
#ifndef TELNET_H
#define TELNET_H

#include "vf.h"

#ifdef VARIANT_STANDALONE
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#else
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#endif

#include <arpa/inet.h>
#include <chrono>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace telnet
{

namespace asiolib = cli::detail::asiolib;
#ifdef VARIANT_STANDALONE
using Sched = cli::StandaloneAsioScheduler;
using Server = cli::StandaloneAsioCliTelnetServer;
#else
using Sched = cli::BoostAsioScheduler;
using Server = cli::BoostAsioCliTelnetServer;
#endif
using Clock = std::chrono::steady_clock;

constexpr char IAC = '\xff', DONT = '\xfe', DO = '\xfd', WONT = '\xfc', WILL = '\xfb', SB = '\xfa', SE = '\xf0';

inline std::string opening() { return std::string("\xff\xfd\x22\xff\xfa\x22\x01\x00\xff\xf0\xff\xfb\x01", 13); }

// the client's end of a connection
class Client
{
public:
    explicit Client(int f) : fd(f) { fcntl(fd, F_SETFL, O_NONBLOCK); }
    Client(const Client&) = delete;
    Client& operator=(const Client&) = delete;
    ~Client() { close(); }
    void close() { if (fd >= 0) ::close(fd); fd = -1; }
    void reset()
    {
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close();
    }
    void halfClose() { shutdown(fd, SHUT_WR); }
    // false: the connection does not take it
    bool send(const std::string& t)
    {
        std::size_t at = 0;
        while (at < t.size())
        {
            auto n = ::send(fd, t.data() + at, t.size() - at, MSG_NOSIGNAL);
            if (n < 0) return false;
            at += static_cast<std::size_t>(n);
        }
        return true;
    }
    // takes what has arrived
    void receive()
    {
        if (fd < 0 || closed) return;
        char b[65536];
        for (;;)
        {
            auto n = ::recv(fd, b, sizeof b, 0);
            if (n > 0) { got.append(b, static_cast<std::size_t>(n)); continue; }
            if (n == 0) closed = true;
            else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) { closed = true; error = errno; }
            return;
        }
    }
    int fd;
    std::string got;
    bool closed = false; // by the other side
    int error = 0;
};

// a server; clients get in through a socket pair or a real connection
struct Host
{
    // on all the addresses, or on the loopback one only
    explicit Host(cli::Cli& c, std::size_t history = 100, bool all = false) :
        cli(c), server(all ? std::make_unique<Server>(c, sched, static_cast<unsigned short>(0), history) : std::make_unique<Server>(c, sched, "127.0.0.1", 0, history))
    {}
    Sched sched;
    cli::Cli& cli;
    std::unique_ptr<Server> server;
    std::function<void()> afterEach; // e.g. the clients read what has arrived, so that the server never waits for them
    std::string escaped; // what came out of the scheduler loop
    std::size_t pumpLimit = 2000000;

    // runs whatever can run now
    std::size_t pump()
    {
        std::size_t n = 0;
        for (int idle = 0; idle < 2;)
        {
            std::size_t k = 0;
            try { k = sched.AsioContext().poll_one(); }
            catch (const std::exception& e) { escaped = e.what(); k = 1; }
            catch (...) { escaped = "?"; k = 1; }
            n += k;
            if (k && afterEach) afterEach();
            idle = k ? 0 : idle + 1;
            if (n > pumpLimit) break;
        }
        return n;
    }
    template <class F> bool pumpUntil(F f, double seconds = 5)
    {
        const auto end = Clock::now() + std::chrono::duration<double>(seconds);
        for (int i = 0;; ++i)
        {
            pump();
            if (f()) return true;
            if (Clock::now() > end) return false;
            if (i > 20) std::this_thread::sleep_for(std::chrono::microseconds(i > 200 ? 1000 : 50));
        }
    }
    std::unique_ptr<Client> pairClient()
    {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) return nullptr;
        int size = 1 << 20;
        setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &size, sizeof size);
        setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &size, sizeof size);
        asiolib::ip::tcp::socket s(sched.AsioContext());
        s.assign(asiolib::ip::tcp::v4(), p[0]);
        server->CreateSession(std::move(s))->Start();
        return std::make_unique<Client>(p[1]);
    }
    // the port the server listens on
    unsigned short port() const
    {
        for (int fd = 3; fd < 1024; ++fd)
        {
            int v = 0;
            socklen_t l = sizeof v;
            if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) == 0 && v)
            {
                sockaddr_in a{};
                l = sizeof a;
                if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l) == 0) return ntohs(a.sin_port);
            }
        }
        return 0;
    }
    static std::unique_ptr<Client> tcpClient(unsigned short port)
    {
        int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (fd < 0) return nullptr;
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) { ::close(fd); return nullptr; }
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        return std::make_unique<Client>(fd);
    }
};

// line ends as they were written: the carriage returns put before line feeds are taken out
inline std::string lineEnds(const std::string& t)
{
    std::string r;
    for (char ch : t)
    {
        if (ch == '\n') while (!r.empty() && r.back() == '\r') r.pop_back();
        r += ch;
    }
    return r;
}
// the way back over characters and forth again does not show: an editor may draw more of its line than it needs to
inline std::string drawn(const std::string& t)
{
    if (t.find('\b') == std::string::npos) return t;
    std::string r;
    std::size_t row = 0, back = 0; // where the line begins; how far the cursor is from the end
    for (char ch : t)
    {
        if (ch == '\b' && r.size() - back > row) { ++back; continue; }
        if (static_cast<unsigned char>(ch) < ' ' || ch == '\x7f')
        {
            r.append(back, '\b');
            back = 0;
            r += ch;
            row = r.size();
        }
        else if (back) { r[r.size() - back] = ch; --back; }
        else r += ch;
    }
    r.append(back, '\b');
    return r;
}
inline std::string plain(const std::string& t) { return drawn(lineEnds(t)); }
inline bool everyLfAfterCr(const std::string& t)
{
    for (std::size_t i = 0; i < t.size(); ++i)
        if (t[i] == '\n' && (i == 0 || t[i - 1] != '\r')) return false;
    return true;
}
// takes the three byte telnet commands out of an output whose text holds no IAC
inline std::string withoutCommands(const std::string& t, std::vector<std::string>& commands)
{
    std::string r;
    for (std::size_t i = 0; i < t.size();)
        if (t[i] == IAC) { commands.push_back(t.substr(i, 3)); i += 3; }
        else r += t[i++];
    return r;
}
inline std::string commandText(const std::string& c)
{
    if (c.size() != 3) return "incomplete " + vf::quote(c);
    const char* v = c[1] == WILL ? "WILL " : c[1] == WONT ? "WONT " : c[1] == DO ? "DO " : c[1] == DONT ? "DONT " : "? ";
    return v + std::to_string(static_cast<unsigned char>(c[2]));
}
inline std::string commandText(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& c : v) r += (r.empty() ? "" : ", ") + commandText(c);
    return "[" + r + "]";
}

// telnet protocol elements that are no keys; reply gets what the server has to answer
inline std::string noise(vf::Src& s, std::string* reply, bool answered)
{
    switch (s.weighted({30, 20, 20, answered ? 20u : 0u}))
    {
        case 0: // commands
        {
            static const std::string codes = "\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xef\xec\xed";
            return std::string(1, IAC) + codes[s.draw(codes.size())];
        }
        case 1: return std::string(1, IAC) + (s.coin() ? WONT : DONT) + static_cast<char>(s.draw(255));
        case 2: // subnegotiation
        {
            std::string t = {IAC, SB, static_cast<char>(s.draw(255))};
            for (auto n = s.chance(1, 60) ? s.draw(3000) : s.draw(12); n > 0; --n)
            {
                const auto ch = s.chance(1, 8) ? IAC : static_cast<char>(s.draw(256));
                t += ch;
                if (ch == IAC) t += IAC;
            }
            return t + IAC + SE;
        }
        default:
        {
            const bool will = s.coin();
            char option = 0;
            do option = static_cast<char>(s.draw(255)); while (option == 1 || option == 3 || option == 31);
            if (reply) *reply = {IAC, will ? DONT : WONT, option};
            return {IAC, will ? WILL : DO, option};
        }
    }
}

} // namespace telnet

#endif
