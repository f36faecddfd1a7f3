// C07: conditional abort, observed from outside of the process that ends.
#include "vmon.h"

#include <cerrno>
#include <csignal>
#include <functional>
#include <thread>

#include <cassert>
#include <utils/common.h>

namespace
{
int evaluations;
bool cond(bool v)
{
    ++evaluations;
    return v;
}

void expect(const vm::Death& d, bool aborts, const std::string& text,
            const char* what)
{
    VM_CHECK(d.aborted == aborts && d.returned == !aborts, "termination",
             "%s: %s (status %d)", what,
             d.returned ? "returned"
                        : (d.aborted ? "aborted" : "ended otherwise"),
             d.status);
    VM_CHECK(d.err == text, "message", "%s: wrote \"%s\" (%zu bytes) instead of \"%s\" (%zu)",
             what, vm::printable(d.err).c_str(), d.err.size(),
             vm::printable(text).c_str(), text.size());
    vm::op("%s -> %s, %zu bytes", what, aborts ? "abort" : "return",
           d.err.size());
    vm::count(aborts ? "aborts" : "returns");
    vm::state(vm::hash(what, strlen(what)) ^ vm::hash(text.data(), text.size()) ^
              aborts);
}

// How the program has set up its standard error stream; both must get the
// message out before the end.
int g_buffering;
void prepare()
{
    if (g_buffering == 1)
    {
        setvbuf(stderr, nullptr, _IOFBF, 1 << 15);
    }
    else if (g_buffering == 2)
    {
        setvbuf(stderr, nullptr, _IOLBF, 1 << 15);
    }
}

// Where the call is made from.
int g_from;
std::function<void()>* g_call;
template <typename F>
void from_anywhere(F&& f)
{
    switch (g_from)
    {
        case 0:
        {
            std::thread(f).join();
            break;
        }
        case 1:
        {
            // in a signal handler
            std::function<void()> g(f);
            g_call = &g;
            signal(SIGUSR1, [](int) { (*g_call)(); });
            raise(SIGUSR1);
            break;
        }
        case 2:
        {
            // while an exception is on its way
            struct Leave
            {
                F& f;
                ~Leave() { f(); }
            };
            try
            {
                Leave l{f};
                throw 1;
            }
            catch (int)
            {
            }
            break;
        }
        case 3:
            try
            {
                throw 1;
            }
            catch (int)
            {
                f();
            }
            break;
        case 4:
        {
            // while the program ends
            static std::function<void()> g;
            g = f;
            std::atexit(
                []
                {
                    g();
                    fflush(stderr);
                    _exit(77);
                });
            std::exit(3);
        }
        case 5:
            errno = ENOMEM;
            f();
            break;
        default: f(); break;
    }
}

// The message cannot be written anywhere: the program ends all the same.
template <typename F>
void unwritable(vm::Rng& r, bool v, F&& f)
{
    const bool full = r.chance(1, 2) && access("/dev/full", W_OK) == 0;
    const auto d = vm::observe(
        [&]
        {
            prepare();
            if (full)
            {
                dup2(open("/dev/full", O_WRONLY), 2);
            }
            else
            {
                close(2);
            }
            f();
        });
    VM_CHECK(d.aborted == v && d.returned == !v, "termination",
             "standard error %s: %s (status %d)", full ? "full" : "closed",
             d.returned ? "returned" : d.aborted ? "aborted" : "ended otherwise",
             d.status);
    vm::op("standard error %s -> %d", full ? "full" : "closed", v);
    vm::count("without a place for the message");
    vm::state(static_cast<std::uint64_t>(2 * full + v) ^ 0x77);
}

template <typename... A>
void plain(bool v, const char* what, const char* f, A... a)
{
    const int n = snprintf(nullptr, 0, f, a...);
    std::string want(static_cast<std::size_t>(n) + 1, '\0');
    snprintf(want.data(), want.size(), f, a...);
    want.pop_back();
    const auto d = vm::observe(
        [&] { prepare(); from_anywhere([&] { utils::abort_if(v, f, a...); }); });
    expect(d, v, v ? want : "", what);
}

bool has(const std::string& where, const std::string& what)
{
    return where.find(what) != std::string::npos;
}
// The message of the macro form must name the call site and contain the text.
void expect_site(const vm::Death& d, bool aborts, const char* file, int line,
                 const char* func, const std::string& text, const char* what)
{
    VM_CHECK(d.aborted == aborts && d.returned == !aborts, "termination",
             "%s: %s (status %d)", what,
             d.returned ? "returned"
                        : (d.aborted ? "aborted" : "ended otherwise"),
             d.status);
    if (!aborts)
    {
        VM_CHECK(d.err.empty(), "message", "%s: wrote \"%s\"", what,
                 vm::printable(d.err).c_str());
    }
    else
    {
        VM_CHECK(has(d.err, file), "message", "%s: no file \"%s\" in \"%s\"",
                 what, file, vm::printable(d.err).c_str());
        VM_CHECK(has(d.err, std::to_string(line)), "message",
                 "%s: no line %d in \"%s\"", what, line,
                 vm::printable(d.err).c_str());
        VM_CHECK(has(d.err, func), "message", "%s: no function %s in \"%s\"",
                 what, func, vm::printable(d.err).c_str());
        VM_CHECK(has(d.err, text), "message", "%s: no \"%s\" in \"%s\"", what,
                 vm::printable(text).c_str(), vm::printable(d.err).c_str());
    }
    vm::op("%s -> %s, %zu bytes", what, aborts ? "abort" : "return",
           d.err.size());
    vm::count(aborts ? "aborts" : "returns");
    vm::state(vm::hash(what, strlen(what)) ^ vm::hash(text.data(), text.size()) ^
              aborts);
}

const char* g_file;
int g_line;
bool g_value;
int g_number;
const char* g_text;

// clang-format off
#line 77701 "some/where/plain file.cpp"
void site_bare() { g_line = 77701; UTILS_ABORT_IF(cond(g_value)); }
void site_text() { g_line = 77702; UTILS_ABORT_IF(cond(g_value), "\nonly text"); }
void site_args() { g_line = 77703; UTILS_ABORT_IF(cond(g_value), "\nnumber %d text %s.", g_number, g_text); }
template <typename T> void site_template(T t) { g_line = 77704; UTILS_ABORT_IF(cond(g_value), "\n%d%%", static_cast<int>(t)); }
void site_overload(int) { g_line = 77705; UTILS_ABORT_IF(cond(g_value), " int"); }
void site_overload(double) { g_line = 77706; UTILS_ABORT_IF(cond(g_value), " double"); }
struct Site { void member() const { g_line = 77707; UTILS_ABORT_IF(cond(g_value), "%c", 'x'); } };
void site_debug() { g_line = 77708; UTILS_DEBUG_ABORT_IF(cond(g_value), "\ndebug %d", ++g_number); }
void site_debug_bare() { g_line = 77709; UTILS_DEBUG_ABORT_IF(cond(g_value)); }
int site_nested() { g_line = 77710; if (g_value) UTILS_ABORT_IF(cond(true), "nested"); else return 5; return 6; }
#line 88801 "100%/a%s%n%d%%.cpp"
void site_percent() { g_line = 88801; UTILS_ABORT_IF(cond(g_value), "\nafter %s", g_text); }
#line 160 "c_abort.cpp"
// clang-format on

void on_abort(int) {}

void run(vm::Rng& r, std::uint64_t i)
{
    const bool v = r.chance(2, 3);
    g_buffering = static_cast<int>(r.below(5));
    g_from = static_cast<int>(r.below(18));
    if (r.chance(1, 24))
    {
        unwritable(r, v, [v] { utils::abort_if(v, "%d %s\n", 17, "text"); });
        g_value = v;
        g_number = 3;
        g_text = "text";
        unwritable(r, v, site_args);
    }
    std::string text(r.chance(1, 40)  ? r.below(std::size_t{1} << 20)
                     : r.chance(1, 6) ? r.below(9000)
                                      : r.below(60),
                     'a');
    for (auto& c: text)
    {
        c = static_cast<char>(33 + r.below(94));
    }
    if (r.chance(1, 3))
    {
        text += "%s%d%n%";
    }
    const int n = static_cast<int>(r());
    switch (i % 24)
    {
        case 0: plain(v, "text", "nothing to convert\n"); break;
        case 1: plain(v, "%s", "%s", text.c_str()); break;
        case 2: plain(v, "%d %s %x", "a %d b %s c %x\n", n, text.c_str(), n);
            break;
        case 3:
            plain(v, "%lld %llu %zu", "%lld %llu %zu",
                  static_cast<long long>(r()),
                  static_cast<unsigned long long>(r()),
                  static_cast<std::size_t>(r()));
            break;
        case 4:
            plain(v, "%f %e %.3Lf %c%%", "%f %e %.3Lf %c%%", n / 7.0, n * 1e30,
                  static_cast<long double>(n) / 3, 'q');
            break;
        case 5: plain(v, "%p %5d|%-5d|%05d", "%p %5d|%-5d|%05d",
                      static_cast<const void*>(text.data()), n % 1000, 7, 42);
            break;
        case 6: plain(v, "%.*s", "%.*s", static_cast<int>(text.size() / 2),
                      text.c_str());
            break;
        case 7:
            plain(v, "many", "%d%d%d%d%d%d%d%d%f%f%f%f%f%f%f%f%f%f%d", 1, 2, 3, 4,
                  5, 6, 7, 8, 1., 2., 3., 4., 5., 6., 7., 8., 9., 10., n);
            break;
        case 8: plain(v, "empty", "%s", ""); break;
        case 9:
        {
            const auto d = vm::observe([&] { prepare(); from_anywhere([&] { utils::abort_if(v); }); });
            expect(d, v, "", "no message");
            const auto e = vm::observe([&] { prepare(); from_anywhere([&] { utils::abort_if(v, nullptr); }); });
            expect(e, v, "", "null message");
            break;
        }
        case 10:
        {
            // a handler that returns does not keep the program alive
            const auto d = vm::observe(
                [&]
                {
                    prepare();
                    signal(SIGABRT, on_abort);
                    utils::abort_if(v, "%s\n", text.c_str());
                });
            expect(d, v, v ? text + "\n" : "", "with a handler");
            break;
        }
        case 11:
        {
            // blocked signals do not keep it alive either
            const auto d = vm::observe(
                [&]
                {
                    prepare();
                    sigset_t s;
                    sigfillset(&s);
                    sigprocmask(SIG_BLOCK, &s, nullptr);
                    utils::abort_if(v, "%d\n", n);
                });
            expect(d, v, v ? std::to_string(n) + "\n" : "",
                   "with the signal blocked");
            break;
        }
        default:
        {
            g_value = v;
            g_number = n;
            g_text = text.c_str();
            evaluations = 0;
            const char* file = "some/where/plain file.cpp";
            const char* func = "";
            void (*f)() = nullptr;
            const char* what = "";
            std::string want;
            bool debug = false;
            int before = g_number;
            switch (i % 24)
            {
                case 12: f = site_bare; func = "site_bare"; what = "UTILS_ABORT_IF(c)"; break;
                case 13: f = site_text; func = "site_text"; want = "\nonly text"; what = "UTILS_ABORT_IF(c, text)"; break;
                case 14:
                case 15: f = site_args; func = "site_args"; want = "\nnumber " + std::to_string(n) + " text " + text + "."; what = "UTILS_ABORT_IF(c, format, args)"; break;
                case 16: f = [] { site_template('a'); }; func = "site_template"; want = "\n97%"; what = "in a template"; break;
                case 17: f = [] { site_overload(1.5); }; func = "site_overload(double)"; want = " double"; what = "in an overload"; break;
                case 18: f = [] { Site().member(); }; func = "Site::member"; want = "x"; what = "in a member"; break;
                case 19: f = site_debug; func = "site_debug"; want = "\ndebug " + std::to_string(static_cast<int>(static_cast<unsigned>(n) + 1)); what = "UTILS_DEBUG_ABORT_IF(c, format, args)"; debug = true; break;
                case 20: f = site_debug_bare; func = "site_debug_bare"; what = "UTILS_DEBUG_ABORT_IF(c)"; debug = true; break;
                case 21: f = [] { site_nested(); }; func = "site_nested"; want = "nested"; what = "in an if without braces"; break;
                default: f = site_percent; func = "site_percent"; file = "100%/a%s%n%d%%.cpp"; want = "\nafter " + text; what = "in a file with percent signs"; break;
            }
#ifdef NDEBUG
            const bool active = !debug;
#else
            const bool active = true;
#endif
            if (n == INT_MAX && debug)
            {
                break;
            }
            // how often the condition is evaluated, seen through shared memory
            static int* shared = static_cast<int*>(
                mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            shared[0] = shared[1] = 0;
            static int* counter;
            counter = shared;
            const auto d = vm::observe(
                [&]
                {
                    prepare();
                    // evaluations and line must survive the abort
                    signal(SIGABRT,
                           [](int)
                           {
                               counter[0] = evaluations;
                               counter[1] = g_line;
                               counter[2] = g_number;
                           });
                    from_anywhere(
                        [f]
                        {
                            f();
                            counter[0] = evaluations;
                            counter[1] = g_line;
                            counter[2] = g_number;
                        });
                });
            expect_site(d, v && active, file, shared[1], func, want, what);
            if (!(i % 24 == 21 && !v))
            {
                VM_CHECK(shared[0] == (active ? 1 : 0), "evaluations",
                         "%s: the condition was evaluated %d times", what,
                         shared[0]);
            }
            if (i % 24 == 19 && !active)
            {
                VM_CHECK(shared[2] == before, "evaluations",
                         "%s: arguments were evaluated although disabled",
                         what);
            }
            break;
        }
    }
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
