// P02 (MONITOR=2): the scope timer's callback.
// P03 (MONITOR=3): its arithmetic, under a scripted clock.
#include <optional>
#include "vmon.h"

#include <chrono>
#include <functional>
#include <thread>

#include <utils/timer.h>

#ifndef MONITOR
#define MONITOR 2
#endif

namespace
{
// the same timer for other clocks and larger callbacks
template <typename T>
struct rebind;
template <template <std::size_t, std::size_t, typename> class T, std::size_t A,
          std::size_t S, typename C>
struct rebind<T<A, S, C>>
{
    template <std::size_t A2, std::size_t S2, typename C2>
    using type = T<A2, S2, C2>;
};
template <std::size_t A, std::size_t S, typename C>
using timer_for = rebind<utils::timer>::type<A, S, C>;

// A clock that goes on with every look at it, as scripted.
template <typename Rep, typename Period, int Tag>
struct Scripted
{
    using duration = std::chrono::duration<Rep, Period>;
    using rep = Rep;
    using period = Period;
    using time_point = std::chrono::time_point<Scripted>;
    static constexpr bool is_steady = true;
    static inline Rep at = 0;
    static inline Rep step = 0;
    static inline std::vector<Rep> seen;
    static time_point now() noexcept
    {
        const Rep t = at;
        at = static_cast<Rep>(at + step);
        seen.push_back(t);
        return time_point(duration(t));
    }
    static bool saw(Rep t)
    {
        return std::find(seen.begin(), seen.end(), t) != seen.end();
    }
};

// ---------------------------------------------------------------- P02 -----
struct Called
{
    int id;
    const void* timer;
    std::int64_t start;
};
struct World
{
    std::vector<Called> calls;
    std::map<const void*, int> live;  // callable -> id it owns, -1: moved from
    std::map<int, int> owning;        // id -> callables that own it
    void born(const void* p, int id)
    {
        VM_CHECK(live.emplace(p, id).second, "constructed-twice",
                 "a callback was constructed over a living one");
        if (id >= 0) ++owning[id];
    }
    void died(const void* p)
    {
        auto it = live.find(p);
        VM_CHECK(it != live.end(), "destroyed-twice",
                 "a callback that does not live was destroyed");
        if (it->second >= 0) --owning[it->second];
        live.erase(it);
    }
    void alive(const void* p, const char* what)
    {
        VM_CHECK(live.count(p), "dead-callback",
                 "a callback that does not live was %s", what);
    }
};
World& w()
{
    static World* x = new World;
    return *x;
}
using Clock = Scripted<std::int64_t, std::nano, 0>;

// A function object that owns something and knows where it is.
template <typename Timer, std::size_t Extra, std::size_t Align = 8>
struct alignas(Align) Owner
{
    int* id;
    const void* self[Extra];
    void keep()
    {
        for (auto& s: self) s = this;
    }
    explicit Owner(int i) : id(new int(i)) { keep(); w().born(this, i); }
    Owner(const Owner& o) noexcept : id(nullptr)
    {
        w().alive(&o, "copied");
        o.check();
        VM_CHECK(o.id, "copied-moved-from", "a callback already moved from was copied");
        id = new int(*o.id);
        keep();
        w().born(this, *id);
    }
    Owner(Owner&& o) noexcept : id(nullptr)
    {
        w().alive(&o, "moved");
        o.check();
        VM_CHECK(o.id, "moved-twice", "a callback was moved from twice");
        id = o.id;
        o.id = nullptr;
        --w().owning[*id];
        w().live[&o] = -1;
        keep();
        w().born(this, *id);
    }
    Owner& operator=(const Owner&) = delete;
    ~Owner()
    {
        w().alive(this, "destroyed");
        check();
        w().died(this);
        delete id;
    }
    void check() const
    {
        VM_CHECK(reinterpret_cast<std::uintptr_t>(this) % Align == 0,
                 "misaligned", "callback at %p", static_cast<const void*>(this));
        for (auto& s: self)
        {
            VM_CHECK(s == this, "copied-bytewise",
                     "a callback was moved without its move constructor");
        }
    }
    void operator()(const Timer& t) const noexcept
    {
        w().alive(this, "called");
        check();
        VM_CHECK(id, "moved-from", "a callback already moved from was called");
        w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()});
    }
};
// fits into the ordinary timer: one pointer
template <typename Timer>
struct Small
{
    int* id;
    explicit Small(int i) : id(new int(i)) { w().born(this, i); }
    Small(const Small& o) noexcept : id(new int(*o.id)) { w().alive(&o, "copied"); w().born(this, *id); }
    Small(Small&& o) noexcept : id(o.id)
    {
        w().alive(&o, "moved");
        VM_CHECK(id, "moved-twice", "a callback was moved from twice");
        o.id = nullptr;
        --w().owning[*id];
        w().live[&o] = -1;
        w().born(this, *id);
    }
    ~Small() { w().died(this); delete id; }
    void operator()(const Timer& t) const noexcept
    {
        w().alive(this, "called");
        VM_CHECK(id, "moved-from", "a callback already moved from was called");
        w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()});
    }
};
template <typename Timer>
struct Unique
{
    std::unique_ptr<int> p;
    void operator()(const Timer& t) const noexcept
    {
        VM_CHECK(p, "moved-from", "a callback without its state was called");
        w().calls.push_back({*p, &t, t.start_tp().time_since_epoch().count()});
    }
};
// only its non-const call operator may be used, and only with the timer
template <typename Timer>
struct Picky
{
    int* id;
    void operator()(const Timer& t) noexcept { w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()}); }
};

// callbacks with operators of their own
int own_calls;
template <typename Timer>
struct Guarded
{
    int* id;
    void operator&() const { ++own_calls; }
    static void* operator new(std::size_t n) { ++own_calls; return ::operator new(n); }
    static void operator delete(void* p) { ++own_calls; ::operator delete(p); }
    void operator()(const Timer& t) const noexcept { w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()}); }
};
template <typename Timer>
struct Placed
{
    int* id;
    static void* operator new(std::size_t, void* p) { ++own_calls; return p; }
    static void* operator new(std::size_t, Placed* p) { ++own_calls; return p; }
    static void operator delete(void*) { ++own_calls; }
    static void operator delete(void*, void*) { ++own_calls; }
    void operator()(const Timer& t) const noexcept { w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()}); }
};
// knows where it is, and has a destructor that does nothing
template <typename Timer>
struct Rooted
{
    int* id;
    const void* self;
    explicit Rooted(int* i) : id(i), self(this) {}
    Rooted(const Rooted& o) noexcept : id(o.id), self(this) {}
    Rooted(Rooted&& o) noexcept : id(o.id), self(this) { o.id = nullptr; }
    void operator()(const Timer& t) const noexcept
    {
        VM_CHECK(self == this, "copied-bytewise",
                 "a callback was moved without its move constructor");
        VM_CHECK(id, "moved-from", "a callback already moved from was called");
        w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()});
    }
};
// does not promise that moving it succeeds, and counts its copies
int wary_copies;
template <typename Timer>
struct Wary
{
    int* id;
    explicit Wary(int* i) : id(i) {}
    Wary(const Wary& o) noexcept : id(o.id) { ++wary_copies; }
    Wary(Wary&& o) noexcept(false) : id(o.id) { o.id = nullptr; }
    void operator()(const Timer& t) const noexcept
    {
        VM_CHECK(id, "moved-from", "a callback already moved from was called");
        w().calls.push_back({*id, &t, t.start_tp().time_since_epoch().count()});
    }
};
template <typename Timer>
void function_1(const Timer& t) noexcept
{
    w().calls.push_back({-1, &t, t.start_tp().time_since_epoch().count()});
}
template <typename Timer>
void function_2(const Timer& t) noexcept
{
    w().calls.push_back({-2, &t, t.start_tp().time_since_epoch().count()});
}

template <typename Timer, bool Large>
struct Machine
{
    static constexpr unsigned kSlots = 5;
    struct Slot
    {
        alignas(Timer) unsigned char raw[sizeof(Timer)];
        Timer* t = nullptr;
        int id = 0;  // 0: nothing, negative: a function
        std::int64_t start = 0;
    } slot[kSlots];
    static inline int next_id = 1;
    static inline int plain_id[64];

    template <typename F>
    void make(Slot& s, int id, F&& f, const char* what)
    {
        Clock::seen.clear();
        s.t = new (s.raw) Timer(std::forward<F>(f));
        s.id = id;
        s.start = s.t->start_tp().time_since_epoch().count();
        VM_CHECK(Clock::saw(s.start), "start",
                 "the start time was not read from the clock");
        vm::op("timer %td with %s %d", &s - slot, what, id);
        vm::state(vm::hash(what, strlen(what)) ^ sizeof(Timer));
    }
    template <typename O>
    void owner(vm::Rng& r, Slot& s, const char* what)
    {
        const int id = next_id++;
        switch (r.below(3))
        {
            case 0: make(s, id, O(id), what); break;
            case 1:
            {
                O o(id);
                make(s, id, o, what);
                VM_CHECK(o.id, "source", "an lvalue callback was moved from");
                VM_CHECK(w().owning[id] == 2, "lifetime",
                         "%d owners of callback %d", w().owning[id], id);
                break;
            }
            default:
            {
                const O o(id);
                make(s, id, o, what);
                VM_CHECK(o.id, "source", "a const callback was moved from");
                break;
            }
        }
    }

    void run(vm::Rng& r)
    {
        w().calls.clear();
        Clock::at = static_cast<std::int64_t>(r.below(1000000));
        Clock::step = static_cast<std::int64_t>(1 + r.below(1000));
        const unsigned steps = static_cast<unsigned>(10 + r.below(60));
        for (unsigned k = 0; k < steps; ++k)
        {
            step(r);
            // every callback has exactly one owner while a timer holds it
            std::map<int, int> held;
            for (auto& s: slot)
            {
                if (s.t && s.id > 0) ++held[s.id];
            }
            for (auto& [id, n]: w().owning)
            {
                auto it = held.find(id);
                if (id >= 1000000)
                {
                    continue;
                }
                VM_CHECK(n == (it != held.end()), "lifetime",
                         "%d owners of callback %d, %s", n, id,
                         it != held.end() ? "which a timer holds"
                                          : "which no timer holds any more");
            }
            vm::state(vm::mix(held.size() * 64 + k % 8) ^ sizeof(Timer) ^ w().live.size() * 7);
        }
        for (auto& s: slot)
        {
            if (s.t) destroy(s);
        }
        VM_CHECK(!wary_copies, "copied",
                 "a callback given up by its owners was copied %d times",
                 wary_copies);
        VM_CHECK(!own_calls, "place",
                 "%d calls to a callback's own operators", own_calls);
        VM_CHECK(w().live.empty(), "leak", "%zu callbacks still live",
                 w().live.size());
        w().owning.clear();
    }
    void no_calls(const char* what)
    {
        VM_CHECK(w().calls.empty(), "called-early", "%s called callback %d",
                 what, w().calls[0].id);
    }
    void destroy(Slot& s)
    {
        Timer* t = s.t;
        s.t = nullptr;
        w().calls.clear();
        t->~Timer();
        vm::op("destroy timer %td", &s - slot);
        if (!s.id)
        {
            no_calls("destroying a timer moved from");
        }
        else
        {
            VM_CHECK(w().calls.size() == 1, "calls",
                     "destroying a timer with callback %d made %zu calls",
                     s.id, w().calls.size());
            VM_CHECK(w().calls[0].id == s.id, "calls",
                     "callback %d was called instead of %d", w().calls[0].id,
                     s.id);
            VM_CHECK(w().calls[0].timer == t, "argument",
                     "the callback was given another timer");
            VM_CHECK(w().calls[0].start == s.start, "argument",
                     "the callback sees another start time");
            vm::count("callbacks");
        }
        w().calls.clear();
    }
    void step(vm::Rng& r)
    {
        Slot& s = slot[r.below(kSlots)];
        Slot& o = slot[r.below(kSlots)];
        const auto what = r.below(100);
        if (!s.t)
        {
            if (what < 40 && o.t)
            {
                s.t = new (s.raw) Timer(std::move(*o.t));
                vm::op("timer %td from timer %td", &s - slot, &o - slot);
                s.id = o.id;
                s.start = o.start;
                o.id = 0;
                no_calls("move construction");
                vm::count("moves");
            }
            else
            {
                create(r, s);
                no_calls("construction");
            }
        }
        else if (what < 30)
        {
            destroy(s);
            return;
        }
        else if (what < 70 && o.t)
        {
            Timer& result = (*s.t = std::move(*o.t));
            vm::op("timer %td = timer %td", &s - slot, &o - slot);
            VM_CHECK(&result == s.t, "result", "assignment returns another object");
            if (&s != &o)
            {
                s.id = o.id;
                s.start = o.start;
                o.id = 0;
            }
            no_calls("move assignment");
            vm::count(&s == &o ? "moves onto itself" : "move assignments");
        }
        else if (what < 80)
        {
            Clock::seen.clear();
            s.t->reset();
            s.start = s.t->start_tp().time_since_epoch().count();
            vm::op("reset timer %td", &s - slot);
            VM_CHECK(Clock::saw(s.start), "start", "reset to another time");
            no_calls("reset");
        }
        else
        {
            (void)s.t->leaked();
            (void)s.t->leaked_nano_sec();
            no_calls("reading");
        }
        for (auto& x: slot)
        {
            VM_CHECK(!x.t || !x.id || x.t->start_tp().time_since_epoch().count() == x.start,
                     "start", "the start time of timer %td changed", &x - slot);
        }
    }
    void create(vm::Rng& r, Slot& s)
    {
        const auto kind = r.below(Large ? 13 : 8);
        switch (kind)
        {
            case 0: make(s, -1, function_1<Timer>, "a function"); break;
            case 1: make(s, -2, &function_2<Timer>, "a function pointer"); break;
            case 2:
            {
                void (*p)(const Timer&) noexcept = function_1<Timer>;
                make(s, -1, p, "a function pointer variable");
                break;
            }
            case 3: owner<Small<Timer>>(r, s, "a small owner"); break;
            case 4:
            {
                // what it owns is given up when a timer holds it
                const int id = next_id++;
                w().owning[id + 1000000] = 0;
                make(s, 0, Unique<Timer>{std::make_unique<int>(0x40000000 + id)},
                     "a unique pointer");
                s.id = 0x40000000 + id;
                w().owning[s.id] = 1;
                w().owning.erase(s.id);
                break;
            }
            case 5:
            {
                const unsigned i = static_cast<unsigned>(r.below(64));
                plain_id[i] = -100 - static_cast<int>(i);
                int* p = &plain_id[i];
                make(s, *p, Picky<Timer>{p}, "a non-const call operator");
                break;
            }
            case 6:
            {
                const unsigned i = static_cast<unsigned>(r.below(64));
                plain_id[i] = -100 - static_cast<int>(i);
                int* p = &plain_id[i];
                make(s, *p,
                     [p](const Timer& t) noexcept {
                         w().calls.push_back(
                             {*p, &t, t.start_tp().time_since_epoch().count()});
                     },
                     "a lambda");
                break;
            }
            case 7:
            {
                const unsigned i = static_cast<unsigned>(r.below(64));
                plain_id[i] = -100 - static_cast<int>(i);
                int* p = &plain_id[i];
                if (r.chance(1, 3))
                {
                    make(s, *p, Wary<Timer>(p), "a class that may fail to move");
                }
                else if (r.chance(1, 2))
                {
                    make(s, *p, Guarded<Timer>{p}, "a class with its own operators");
                }
                else
                {
                    const Placed<Timer> f{p};
                    make(s, *p, f, "a class with its own placement new");
                }
                break;
            }
            default:
                if constexpr (Large)
                {
                    switch (kind)
                    {
                        case 11: owner<Owner<Timer, 1>>(r, s, "an owner of 16 bytes"); break;
                        case 12:
                        {
                            const unsigned i = static_cast<unsigned>(r.below(64));
                            plain_id[i] = -100 - static_cast<int>(i);
                            const Rooted<Timer> o(&plain_id[i]);
                            make(s, plain_id[i], o, "a class that knows its place");
                            break;
                        }
                        case 8: owner<Owner<Timer, 7>>(r, s, "an owner of 64 bytes"); break;
                        case 9: owner<Owner<Timer, 1, 32>>(r, s, "an owner aligned 32"); break;
                        default:
                        {
                            // a lambda that owns a string
                            const unsigned i = static_cast<unsigned>(r.below(64));
                            plain_id[i] = -100 - static_cast<int>(i);
                            std::string text = r.chance(1, 2)
                                                   ? std::string("small")
                                                   : std::string(50, 'L');
                            const bool large = text.size() > 20;
                            int* p = &plain_id[i];
                            make(s, *p,
                                 [p, large, text](const Timer& t) noexcept
                                 {
                                     VM_CHECK(text == (large ? std::string(50, 'L')
                                                             : std::string("small")),
                                              "moved-from",
                                              "a callback's string changed");
                                     w().calls.push_back(
                                         {*p, &t,
                                          t.start_tp().time_since_epoch().count()});
                                 },
                                 "a lambda with a string");
                            break;
                        }
                    }
                }
                break;
        }
    }
};

// the timer as it is: with the real clock
struct Real
{
    int* calls;
    const void** last;
};
void real(vm::Rng& r)
{
    static int calls;
    static const void* last;
    calls = 0;
    const auto cb = [](const utils::timer& t) noexcept
    {
        ++calls;
        last = &t;
    };
    const void* where = nullptr;
    {
        utils::timer a(cb);
        utils::timer b(cb);
        utils::timer c(std::move(a));
        if (r.chance(1, 2))
        {
            b = std::move(c);
            where = &b;
        }
        VM_CHECK(!calls, "called-early", "%d calls", calls);
        (void)where;
    }
    VM_CHECK(calls == (where ? 1 : 2), "calls", "%d calls of two timers", calls);
    VM_CHECK(!where || last == where, "argument", "another timer");
    // ends of scopes through exceptions
    calls = 0;
    try
    {
        utils::timer a(cb);
        throw 1;
    }
    catch (int)
    {
    }
    VM_CHECK(calls == 1, "calls", "%d calls when unwinding", calls);
    std::vector<utils::timer> v;
    calls = 0;
    const std::size_t n = 1 + r.below(9);
    for (std::size_t k = 0; k < n; ++k)
    {
        v.emplace_back(cb);
    }
    VM_CHECK(!calls, "called-early", "%d calls while a vector grew", calls);
    v.erase(v.begin());
    v.clear();
    // erasing moves the others down over the first one, whose callback is
    // discarded
    VM_CHECK(calls == static_cast<int>(n) - (n > 1), "calls",
             "%d calls by a vector of %zu timers, one erased", calls, n);
    vm::op("ordinary timers");
}

// One callback for a very long time: passed on, and its timer reset, more often
// than any small counter can count.
void very_long(vm::Rng& r)
{
    using Timer = timer_for<alignof(void*), 2 * sizeof(void*), Clock>;
    int calls = 0, others = 0;
    auto owned = std::make_shared<int>(1);
    {
        struct Counting
        {
            int* n;
            void operator()(const Timer&) noexcept { ++*n; }
        };
        std::optional<Timer> t[2];
        static_assert(sizeof(Counting) <= 2 * sizeof(void*));
        struct Shared
        {
            std::unique_ptr<std::shared_ptr<int>> keep;
            int* n;
            void operator()(const Timer&) noexcept { ++*n; }
        };
        t[0].emplace(Shared{std::make_unique<std::shared_ptr<int>>(owned), &calls});
        int at = 0;
        const unsigned rounds = 70000 + static_cast<unsigned>(r.below(70000));
        for (unsigned k = 0; k < rounds; ++k)
        {
            switch (r.below(4))
            {
                case 0: t[at]->reset(); break;
                case 1:
                    t[1 - at].reset();
                    t[1 - at].emplace(std::move(*t[at]));
                    at = 1 - at;
                    break;
                case 2:
                    if (t[1 - at])
                    {
                        *t[1 - at] = std::move(*t[at]);
                        at = 1 - at;
                    }
                    break;
                default:
                    // a short-lived timer in between
                    Timer x(Counting{&others});
                    (void)x.leaked();
                    break;
            }
            if (calls)
            {
                break;
            }
        }
        VM_CHECK(calls == 0, "called-early", "%d calls while the callback was passed on", calls);
    }
    VM_CHECK(calls == 1, "calls", "%d calls after a callback was passed on for long", calls);
    VM_CHECK(owned.use_count() == 1, "lifetime", "%ld owners left", owned.use_count());
    VM_CHECK(others > 0, "calls", "short-lived timers did not call");
    vm::op("a callback passed on for very long");
    vm::count("callbacks passed on for long");
}

void callbacks(vm::Rng& r, std::uint64_t i)
{
    if (i % 1000 == 500)
    {
        very_long(r);
        return;
    }
    if (r.chance(1, 2))
    {
        Machine<timer_for<alignof(void*), sizeof(void*), Clock>, false> m;
        m.run(r);
    }
    else
    {
        Machine<timer_for<32, 96, Clock>, true> m;
        m.run(r);
    }
    real(r);
}

// ---------------------------------------------------------------- P03 -----
using i128 = __int128;

template <typename C>
struct Arithmetic
{
    using Timer = timer_for<8, 8, C>;
    using Rep = typename C::rep;
    using Period = typename C::period;
    static void ignore(const Timer&) noexcept {}

    // ticks of C in units of 1/Den s, truncated toward zero
    static i128 in_unit(i128 ticks, i128 den)
    {
        return ticks * Period::num * den / Period::den;
    }
    static Rep draw(vm::Rng& r)
    {
        // as large as the conversions of std::chrono themselves can represent
        constexpr std::intmax_t factor =
            std::max({std::ratio_divide<Period, std::nano>::num,
                      std::ratio_divide<Period, std::micro>::num,
                      std::ratio_divide<Period, std::milli>::num,
                      std::ratio_divide<Period, std::ratio<1>>::num});
        const std::uint64_t max = static_cast<std::uint64_t>(
            std::min<i128>((i128{1} << 61) / factor,
                           std::numeric_limits<Rep>::max() / 8));
        std::uint64_t v = r.any_width(63) % (max ? max : 1);
        if (r.chance(1, 3))
        {
            // near a whole number of seconds
            const std::uint64_t s =
                static_cast<std::uint64_t>(std::max<std::intmax_t>(1, Period::den / Period::num));
            v = v / s * s + r.below(3);
        }
        return static_cast<Rep>(r.chance(1, 8) && std::is_signed_v<Rep> ? -static_cast<std::int64_t>(v)
                                                 : static_cast<std::int64_t>(v));
    }
    template <typename F>
    static void measured(const char* what, Timer& t, Rep start, F&& f,
                         i128 den, bool ticks)
    {
        C::seen.clear();
        const auto d = f(t);
        bool ok = false;
        i128 want = 0;
        for (const Rep now: C::seen)
        {
            const i128 e = static_cast<i128>(now) - start;
            want = ticks ? e : in_unit(e, den);
            ok |= static_cast<i128>(d.count()) == want;
        }
        VM_CHECK(!C::seen.empty(), "clock", "%s did not look at the clock", what);
        VM_CHECK(ok, "elapsed",
                 "%s is %lld, not %lld, for %lld ticks of %lld/%lld s", what,
                 static_cast<long long>(d.count()),
                 static_cast<long long>(want),
                 static_cast<long long>(C::seen.back() - start),
                 static_cast<long long>(Period::num),
                 static_cast<long long>(Period::den));
        VM_CHECK(t.start_tp().time_since_epoch().count() == start, "start",
                 "%s changed the start time", what);
        vm::op("%s = %lld", what, static_cast<long long>(d.count()));
    }
    static void read_all(vm::Rng& r, Timer& t, Rep start)
    {
        C::at = static_cast<Rep>(start + draw(r));
        const auto which = r.below(6);
        if (which == 0 || which == 5)
            measured("leaked", t, start, [](const Timer& x) { return x.leaked(); }, 0, true);
        if (which == 1 || which == 5)
            measured("leaked_sec", t, start, [](const Timer& x) { return x.leaked_sec(); }, 1, false);
        if (which == 2 || which == 5)
            measured("leaked_milli_sec", t, start, [](const Timer& x) { return x.leaked_milli_sec(); }, 1000, false);
        if (which == 3 || which == 5)
            measured("leaked_micro_sec", t, start, [](const Timer& x) { return x.leaked_micro_sec(); }, 1000000, false);
        if (which == 4 || which == 5)
            measured("leaked_nano_sec", t, start, [](const Timer& x) { return x.leaked_nano_sec(); }, 1000000000, false);
        static_assert(std::is_same_v<decltype(t.leaked_sec()), std::chrono::seconds>);
        static_assert(std::is_same_v<decltype(t.leaked_milli_sec()), std::chrono::milliseconds>);
        static_assert(std::is_same_v<decltype(t.leaked_micro_sec()), std::chrono::microseconds>);
        static_assert(std::is_same_v<decltype(t.leaked_nano_sec()), std::chrono::nanoseconds>);
        vm::state(vm::mix(static_cast<std::uint64_t>(C::at - start)) ^ sizeof(Rep) ^ static_cast<std::uint64_t>(Period::den) * 5);
    }
    static Rep started(Timer& t, const char* what)
    {
        const Rep s = t.start_tp().time_since_epoch().count();
        VM_CHECK(C::saw(s), "start", "%s: start time %lld is not the clock's",
                 what, static_cast<long long>(s));
        return s;
    }
    static void run(vm::Rng& r, bool very_long = false)
    {
        C::step = static_cast<Rep>(r.below(100));
        C::at = draw(r);
        C::seen.clear();
        Timer a(&ignore);
        Rep sa = started(a, "construction");
        read_all(r, a, sa);
        C::at = draw(r);
        C::seen.clear();
        Timer b(&ignore);
        Rep sb = started(b, "construction");
        const unsigned steps =
            very_long ? 420000 : static_cast<unsigned>(3 + r.below(15));
        for (unsigned k = 0; k < steps; ++k)
        {
            switch (r.below(6))
            {
                case 0:
                    C::at = draw(r);
                    C::seen.clear();
                    a.reset();
                    sa = started(a, "reset");
                    vm::op("reset");
                    break;
                case 1:
                {
                    C::at = draw(r);
                    Timer c(std::move(a));
                    VM_CHECK(c.start_tp().time_since_epoch().count() == sa, "start",
                             "move construction: start %lld instead of %lld",
                             static_cast<long long>(c.start_tp().time_since_epoch().count()),
                             static_cast<long long>(sa));
                    read_all(r, c, sa);
                    C::at = draw(r);
                    a = std::move(c);
                    VM_CHECK(a.start_tp().time_since_epoch().count() == sa, "start",
                             "move assignment: start time not taken");
                    vm::op("moved there and back");
                    break;
                }
                case 2:
                    C::at = draw(r);
                    b = std::move(a);
                    VM_CHECK(b.start_tp().time_since_epoch().count() == sa, "start",
                             "move assignment: start time not taken");
                    sb = sa;
                    C::seen.clear();
                    a.reset();
                    sa = started(a, "reset of a timer moved from");
                    VM_CHECK(b.start_tp().time_since_epoch().count() == sb, "start",
                             "resetting one timer changed another");
                    vm::op("moved over");
                    break;
                default:
                    if (r.chance(1, 2))
                    {
                        read_all(r, a, sa);
                    }
                    else
                    {
                        read_all(r, b, sb);
                    }
                    break;
            }
        }
    }
};

void real_clock(vm::Rng&)
{
    using clock = utils::timer::clock;
    const auto t0 = clock::now();
    utils::timer t([](const utils::timer&) noexcept {});
    const auto t1 = clock::now();
    VM_CHECK(t0 <= t.start_tp() && t.start_tp() <= t1, "start",
             "the start time is not between two looks at the clock");
    const auto before = clock::now();
    const auto e = t.leaked();
    const auto n = t.leaked_nano_sec();
    const auto u = t.leaked_micro_sec();
    const auto after = clock::now();
    VM_CHECK(e >= before - t.start_tp() && e <= after - t.start_tp() &&
                 n >= before - t.start_tp() && n <= after - t.start_tp() &&
                 u + std::chrono::microseconds(1) >= before - t.start_tp() &&
                 u <= after - t.start_tp(),
             "elapsed", "the elapsed time is not between two looks at the clock");
    const auto r0 = clock::now();
    t.reset();
    const auto r1 = clock::now();
    VM_CHECK(r0 <= t.start_tp() && t.start_tp() <= r1, "start",
             "not reset to the clock's time");
    vm::op("real clock");
}

void elapsed(vm::Rng& r, std::uint64_t i)
{
    if (i % 1000 == 500)
    {
        if (r.chance(1, 2))
        {
            Arithmetic<Scripted<std::int64_t, std::nano, 1>>::run(r, true);
        }
        else
        {
            Arithmetic<Scripted<std::int64_t, std::milli, 1>>::run(r, true);
        }
        vm::count("histories of 420000 operations");
        return;
    }
    Arithmetic<Scripted<std::int64_t, std::nano, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::micro, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::milli, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::ratio<1>, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::ratio<60>, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::ratio<1, 1000000007>, 1>>::run(r);
    Arithmetic<Scripted<std::int64_t, std::ratio<1, 300>, 1>>::run(r);
    Arithmetic<Scripted<std::int32_t, std::ratio<1, 100>, 1>>::run(r);
    real_clock(r);
}
}  // namespace

int main(int argc, char** argv)
{
    return vm::run_main(argc, argv, MONITOR == 2 ? callbacks : elapsed);
}
