// Small run-time monitoring kit used by every harness in this directory.
//
// A harness is a program that drives the code under test through `cases`
// numbered from 0; each case draws all its choices from a generator seeded with
// (VERIF seed, stream, case number), so a single case can be replayed alone.
// Monitors call vm::fail(...) when an observed execution refutes the property.
#pragma once
// The headers under test are included after these (they rely on the includer
// for some of them).
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cinttypes>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vm
{
inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t operator()() { return mix(s++); }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? (*this)() % n : 0; }
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi)
    {
        return hi - lo == UINT64_MAX ? (*this)() : lo + below(hi - lo + 1);
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // a value whose bit length is uniform: small, huge and in between
    std::uint64_t any_width(unsigned bits = 64)
    {
        const unsigned w = static_cast<unsigned>(below(bits + 1));
        if (!w)
        {
            return 0;
        }
        std::uint64_t v = (*this)() >> (64 - w);
        switch (below(6))
        {
            case 0: v = (w == 64 ? 0 : (std::uint64_t{1} << w)) - 1; break;
            case 1: v = std::uint64_t{1} << (w - 1); break;
            case 2: v = (std::uint64_t{1} << (w - 1)) + 1; break;
            default: break;
        }
        return bits == 64 ? v : v & ((std::uint64_t{1} << bits) - 1);
    }
};

struct State
{
    std::uint64_t seed = 1;
    std::uint64_t cases = 1000;
    std::uint64_t first = 0;
    std::uint64_t current = 0;
    std::uint64_t events = 0;
    bool thorough = false;
    bool in_child = false;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    static constexpr int kRing = 48;
    char ring[kRing][240];
    std::uint64_t ring_pos = 0;
    static State& get()
    {
        static State* s = new State;
        return *s;
    }
};

// --- what happened in the case at hand ------------------------------------
__attribute__((format(printf, 1, 2))) inline void op(const char* f, ...)
{
    State& s = State::get();
    va_list a;
    va_start(a, f);
    vsnprintf(s.ring[s.ring_pos % State::kRing], sizeof s.ring[0], f, a);
    va_end(a);
    ++s.ring_pos;
    ++s.events;
}

inline void write_all(int fd, const char* p, std::size_t n)
{
    while (n)
    {
        const auto r = ::write(fd, p, n);
        if (r <= 0)
        {
            return;
        }
        p += r;
        n -= static_cast<std::size_t>(r);
    }
}

inline void dump_trace(int fd)
{
    State& s = State::get();
    char b[128];
    int n = snprintf(b, sizeof b, "@@CASE %" PRIu64 "\n", s.current);
    write_all(fd, b, static_cast<std::size_t>(n));
    const std::uint64_t from =
        s.ring_pos > State::kRing ? s.ring_pos - State::kRing : 0;
    for (std::uint64_t i = from; i < s.ring_pos; ++i)
    {
        const char* e = s.ring[i % State::kRing];
        write_all(fd, "@@OP ", 5);
        write_all(fd, e, strnlen(e, sizeof s.ring[0]));
        write_all(fd, "\n", 1);
    }
}

inline void begin_case(std::uint64_t i)
{
    State& s = State::get();
    s.current = i;
    s.ring_pos = 0;
}

inline std::string current_trace()
{
    State& s = State::get();
    std::string r;
    const std::uint64_t from =
        s.ring_pos > State::kRing ? s.ring_pos - State::kRing : 0;
    for (std::uint64_t i = from; i < s.ring_pos; ++i)
    {
        r += (r.empty() ? "" : "; ");
        r += s.ring[i % State::kRing];
    }
    return r;
}

// --- verdict --------------------------------------------------------------
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(
    const char* key, const char* f, ...)
{
    char msg[1500];
    va_list a;
    va_start(a, f);
    vsnprintf(msg, sizeof msg, f, a);
    va_end(a);
    for (char* c = msg; *c; ++c)
    {
        if (*c == '\n')
        {
            *c = ' ';
        }
    }
    fflush(stdout);
    std::string line = "@@VIOLATION ";
    line += key;
    line += "\t";
    line += msg;
    line += "\n";
    write_all(1, line.data(), line.size());
    dump_trace(1);
    _exit(42);
}

#define VM_CHECK(cond, key, ...)              \
    do                                        \
    {                                         \
        if (!(cond)) vm::fail(key, __VA_ARGS__); \
    } while (0)

// --- coverage -------------------------------------------------------------
inline void state(std::uint64_t h)
{
    State& s = State::get();
    if (s.distinct.size() < 4000000)
    {
        s.distinct.insert(mix(h));
    }
}
inline std::uint64_t hash(const void* p, std::size_t n,
                          std::uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i)
    {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h;
}
inline void count(const char* name, std::uint64_t n = 1)
{
    State::get().counters[name] += n;
}
inline void sample(const std::string& t)
{
    State& s = State::get();
    if (s.samples.size() < 4)
    {
        s.samples.push_back(t.substr(0, 600));
    }
}
inline std::string json_escape(const std::string& t)
{
    std::string r;
    for (unsigned char c: t)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
        {
            r += static_cast<char>(c);
        }
    }
    return r;
}
inline void report()
{
    State& s = State::get();
    fflush(stdout);
    std::string o = "@@COV {\"events\":" + std::to_string(s.events) +
                    ",\"cases\":" + std::to_string(s.cases) +
                    ",\"distinct\":" + std::to_string(s.distinct.size()) +
                    ",\"counters\":{";
    bool first = true;
    for (auto& [k, v]: s.counters)
    {
        o += (first ? "\"" : ",\"") + json_escape(k) +
             "\":" + std::to_string(v);
        first = false;
    }
    o += "},\"samples\":[";
    first = true;
    for (auto& t: s.samples)
    {
        o += (first ? "\"" : ",\"") + json_escape(t) + "\"";
        first = false;
    }
    o += "]}\n";
    write_all(1, o.data(), o.size());
}

// --- termination observed from a child process ----------------------------
struct Death
{
    bool aborted = false;   // terminated by SIGABRT
    bool returned = false;  // f() returned normally
    int status = 0;
    std::string err;  // what it wrote to standard error
};

// Runs f in a forked child and observes how it ends.
template <typename F>
Death observe(F&& f)
{
    int fd[2];
    if (pipe(fd))
    {
        perror("pipe");
        _exit(3);
    }
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        _exit(3);
    }
    if (!pid)
    {
        State::get().in_child = true;
        signal(SIGABRT, SIG_DFL);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        rlimit cpu{20, 20};
        setrlimit(RLIMIT_CPU, &cpu);
        dup2(fd[1], 2);
        close(fd[0]);
        close(fd[1]);
        std::forward<F>(f)();
        fflush(stderr);
        _exit(77);
    }
    close(fd[1]);
    Death d;
    char buf[4096];
    for (;;)
    {
        const auto n = read(fd[0], buf, sizeof buf);
        if (n <= 0)
        {
            break;
        }
        if (d.err.size() < (std::size_t{1} << 21))
        {
            d.err.append(buf, static_cast<std::size_t>(n));
        }
    }
    close(fd[0]);
    waitpid(pid, &d.status, 0);
    d.aborted = WIFSIGNALED(d.status) && WTERMSIG(d.status) == SIGABRT;
    d.returned = WIFEXITED(d.status) && WEXITSTATUS(d.status) == 77;
    if (WIFEXITED(d.status) && WEXITSTATUS(d.status) == 42)
    {
        _exit(42);  // the child reported a violation itself
    }
    ++State::get().events;
    return d;
}

inline std::string printable(const std::string& t)
{
    std::string r = t.substr(0, 700);
    for (auto& c: r)
    {
        if (c == '\n')
        {
            c = '|';
        }
    }
    return r;
}

// --- main -----------------------------------------------------------------
inline void on_signal(int sig)
{
    if (!State::get().in_child)
    {
        char b[64];
        const int n = snprintf(b, sizeof b, "@@SIGNAL %d\n", sig);
        write_all(2, b, static_cast<std::size_t>(n));
        dump_trace(2);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

// bodies: run(case rng, case number)
template <typename Body>
int run_main(int argc, char** argv, Body&& body)
{
    State& s = State::get();
    std::uint64_t only = UINT64_MAX, stream = 0;
    const char* states_file = nullptr;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        const std::uint64_t v = strtoull(argv[i + 1], nullptr, 10);
        if (a == "--seed") s.seed = v;
        else if (a == "--cases") s.cases = v;
        else if (a == "--only") only = v;
        else if (a == "--stream") stream = v;
        else if (a == "--thorough") s.thorough = v != 0;
        else if (a == "--states") states_file = argv[i + 1];
    }
    signal(SIGABRT, on_signal);
    signal(SIGFPE, on_signal);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && \
    !defined(VM_SANITIZED)
    signal(SIGSEGV, on_signal);
    signal(SIGBUS, on_signal);
    signal(SIGILL, on_signal);
#endif
    for (std::uint64_t i = 0; i < s.cases; ++i)
    {
        if (only != UINT64_MAX && i != only)
        {
            continue;
        }
        begin_case(i);
        Rng r(mix(s.seed * 0x100000001b3ull + stream * 7919) ^ mix(i));
        body(r, i);
        if (s.samples.size() < 3 && s.ring_pos)
        {
            sample(current_trace());
        }
    }
    if (states_file)
    {
        if (FILE* f = fopen(states_file, "wb"))
        {
            for (const std::uint64_t h: s.distinct)
            {
                fwrite(&h, sizeof h, 1, f);
            }
            fclose(f);
        }
    }
    report();
    return 0;
}
}  // namespace vm
