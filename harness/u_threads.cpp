// U02: separate objects in separate threads.
//
// Every case makes a number of actors, each with objects of its own (resources,
// allocators, holders, timers, arrays, byte ranges) and its own source of random
// numbers, and lets threads carry them on: either each thread its own actors,
// without any synchronization, or all threads any actor, handed over under a
// lock. What each actor saw is compared with what an equal one sees that is
// carried on alone. Or all threads look at the same objects, which nobody
// changes. With FIRST_USE the threads of a fresh process use everything
// for the first time at once.
#include "vmon.h"

#include <chrono>
#include <mutex>
#include <thread>

#include <utils/cartesian_product.h>
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/fast_pimpl.h>
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
#include <utils/timer.h>

namespace
{
namespace um = utils::memory;

struct Actor
{
    vm::Rng r;
    std::uint64_t digest = 1;
    std::uint64_t wrong = 0;  // line of the first thing found wrong
    explicit Actor(std::uint64_t seed) : r(seed) {}
    virtual ~Actor() = default;
    virtual void step() = 0;
    virtual void finish() {}
    void saw(std::uint64_t v) { digest = vm::mix(digest * 31 + v); }
    void expect(bool ok, unsigned line)
    {
        if (!ok && !wrong)
        {
            wrong = line;
        }
    }
};
#define EXPECT(...) this->expect((__VA_ARGS__), __LINE__)

unsigned char pattern(std::uint64_t id, std::size_t i)
{
    return static_cast<unsigned char>(id * 29 + i * 7 + 3);
}

struct Piece
{
    unsigned char* p;
    std::size_t n;
    std::uint64_t id;
    void* back;
    void fill() const
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            p[i] = pattern(id, i);
        }
    }
    bool intact() const
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (p[i] != pattern(id, i))
            {
                return false;
            }
        }
        return true;
    }
};

// A resource on a buffer of its own, or what it stands on.
template <typename Res, bool Bump>
struct OnBuffer : Actor
{
    static constexpr std::size_t kSize = 2048;
    std::byte* buf;
    std::unique_ptr<Res> res;
    std::vector<Piece> live;
    std::uint64_t next = 0;
    explicit OnBuffer(std::uint64_t seed) : Actor(seed)
    {
        buf = static_cast<std::byte*>(aligned_alloc(4096, 4096));
        um::memory_resource* up = r.chance(1, 2) ? um::system_memory_resource()
                                  : r.chance(1, 2) ? um::null_memory_resource()
                                                   : nullptr;
        const std::size_t skip = r.below(64);
        if (r.chance(1, 3))
        {
            // the default is the system resource all the time
            up = um::system_memory_resource();
            res = std::make_unique<Res>(buf + skip, kSize);
        }
        else
        {
            res = std::make_unique<Res>(buf + skip, kSize, up);
        }
    }
    ~OnBuffer() override
    {
        res.reset();
        free(buf);
    }
    bool inside(const void* p) const { return p >= buf && p < buf + 4096; }
    void give_back(std::size_t k)
    {
        Piece x = live[k];
        EXPECT(x.intact());
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
        if (Bump && !inside(x.p))
        {
            um::system_memory_resource()->deallocate(x.p);
        }
        else
        {
            res->deallocate(x.p);
        }
    }
    void step() override
    {
        const auto k = r.below(100);
        if (k < 2)
        {
            for (std::size_t i = live.size(); i-- > 0;)
            {
                if (!inside(live[i].p))
                {
                    give_back(i);
                }
            }
            for (auto& x: live)
            {
                EXPECT(x.intact());
            }
            live.clear();
            res->release();
            saw(1);
        }
        else if (k < 60 || live.empty())
        {
            const std::size_t n = 1 + r.below(r.chance(1, 8) ? 3000 : 100);
            const std::size_t a = std::size_t{1} << r.below(9);
            auto* p = static_cast<unsigned char*>(res->allocate(n, a));
            EXPECT(reinterpret_cast<std::uintptr_t>(p) % a == 0);
            saw(!p ? 2 : inside(p) ? static_cast<std::uint64_t>(reinterpret_cast<std::byte*>(p) - buf) + 10 : 3);
            if (p)
            {
                live.push_back({p, n, next++, nullptr});
                live.back().fill();
            }
        }
        else
        {
            give_back(r.below(live.size()));
        }
        if constexpr (!Bump)
        {
            saw(res->busy_count() * 1000 + res->free_count());
        }
    }
    void finish() override
    {
        while (!live.empty())
        {
            give_back(live.size() - 1);
        }
        res->release();
    }
};

struct Word
{
    explicit Word(std::uint64_t v, std::string s) noexcept : value(v), text(std::move(s)) {}
    std::uint64_t value;
    std::string text;
};
struct alignas(128) Wide
{
    explicit Wide(std::uint64_t v) noexcept : value(v) {}
    std::uint64_t value;
};

// Objects on the system resource, which all actors share.
struct OnSystem : Actor
{
    um::allocator<Word> a;  // the default
    std::vector<std::pair<Word*, std::uint64_t>> words;
    std::vector<std::pair<Wide*, std::uint64_t>> wides;
    std::vector<Piece> raw;
    using Actor::Actor;
    void step() override
    {
        const std::uint64_t v = r();
        switch (r.below(8))
        {
            case 0:
            case 1:
                words.push_back({a.new_object<Word>(v, std::to_string(v)), v});
                EXPECT(words.back().first);
                break;
            case 2:
                wides.push_back({um::allocator<Wide>(um::system_memory_resource()).new_object<Wide>(v), v});
                EXPECT(wides.back().first && reinterpret_cast<std::uintptr_t>(wides.back().first) % 128 == 0);
                break;
            case 3:
            {
                const std::size_t n = 1 + r.below(200), al = std::size_t{1} << r.below(10);
                auto* p = static_cast<unsigned char*>(
                    r.chance(1, 2) ? um::system_memory_resource()->allocate(n, al) : um::aligned_malloc(n, al));
                EXPECT(p && reinterpret_cast<std::uintptr_t>(p) % al == 0);
                raw.push_back({p, n, v, nullptr});
                raw.back().fill();
                break;
            }
            case 4: drop(words); break;
            case 5: drop(wides); break;
            case 6:
                if (!raw.empty())
                {
                    EXPECT(raw.back().intact());
                    r.chance(1, 2) ? um::system_memory_resource()->deallocate(raw.back().p)
                                   : um::aligned_free(raw.back().p);
                    raw.pop_back();
                }
                break;
            default:
            {
                auto* null = um::null_memory_resource();
                EXPECT(!null->allocate(1 + r.below(100), 8));
                null->deallocate(this);
                EXPECT(*null != *um::system_memory_resource() && *null == *null);
                EXPECT(um::get_default_resource() == um::system_memory_resource());
                EXPECT(a == um::allocator<int>() && a.resource() == um::system_memory_resource());
                um::allocator<double> d(a);
                double* const x = d.allocate(1 + r.below(9));
                double* const y = d.template allocate_object<double>(1 + r.below(9));
                void* const z = d.allocate_bytes(1 + r.below(99));
                EXPECT(x && y && z && x != y);
                *x = 1.5;
                *y = 2.5;
                std::memset(z, 7, 1);
                EXPECT(*x + *y == 4);
                d.deallocate(x);
                d.deallocate_object(y);
                d.deallocate_bytes(z);
                EXPECT(!um::allocator<double>(null).allocate(3));
                break;
            }
        }
        saw(words.size() * 10000 + wides.size() * 100 + raw.size());
    }
    template <typename T>
    void drop(std::vector<std::pair<T*, std::uint64_t>>& v)
    {
        if (!v.empty())
        {
            EXPECT(v.back().first->value == v.back().second);
            saw(v.back().first->value);
            a.delete_object(v.back().first);
            v.pop_back();
        }
    }
    void finish() override
    {
        while (!words.empty())
        {
            EXPECT(words.back().first->text == std::to_string(words.back().second));
            drop(words);
        }
        while (!wides.empty())
        {
            drop(wides);
        }
        for (auto& x: raw)
        {
            EXPECT(x.intact());
            um::system_memory_resource()->deallocate(x.p);
        }
        raw.clear();
    }
};

struct Holders : Actor
{
    using H = utils::fast_pimpl<std::string, sizeof(std::string), alignof(std::string)>;
    std::vector<H> h;
    using Actor::Actor;
    std::string text() { return std::string(r.below(60), static_cast<char>('a' + r.below(26))); }
    void step() override
    {
        if (h.size() < 6)
        {
            h.emplace_back(text());
            return;
        }
        H& x = h[r.below(h.size())];
        H& y = h[r.below(h.size())];
        switch (r.below(6))
        {
            case 0: x = y; break;
            case 1:
                if (&x != &y)
                {
                    x = std::move(y);
                    y = text();
                }
                break;
            case 2: x = text(); break;
            case 3: x->append("!"); break;
            case 4:
            {
                H c(y);
                EXPECT(c.get() == y.get());
                c->push_back('c');
                x = std::move(c);
                break;
            }
            default: h.pop_back(); return;
        }
        if (x->size() > 500)
        {
            x = text();
        }
        saw(vm::hash(x->data(), x->size()));
    }
};

// A clock that only its actor carries on.
struct Script
{
    using duration = std::chrono::duration<std::int64_t, std::nano>;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<Script>;
    static constexpr bool is_steady = true;
    static inline thread_local std::int64_t at = 0;
    static time_point now() noexcept { return time_point(duration(at)); }
};
template <typename T>
struct rebind;
template <template <std::size_t, std::size_t, typename> class T, std::size_t A, std::size_t S, typename C>
struct rebind<T<A, S, C>>
{
    template <std::size_t A2, std::size_t S2, typename C2>
    using type = T<A2, S2, C2>;
};
struct Timers : Actor
{
    using T = rebind<utils::timer>::type<16, 64, Script>;
    struct Call
    {
        Timers* owner;
        std::unique_ptr<std::uint64_t> id;
        template <typename A>
        void operator()(const A& t) const noexcept
        {
            if constexpr (std::is_same_v<A, T>)
            {
                owner->saw(*id * 7 + static_cast<std::uint64_t>(t.leaked().count()));
                ++owner->called;
            }
        }
    };
    std::int64_t time = 1000;
    std::uint64_t next = 0, called = 0, lost = 0;
    std::vector<std::unique_ptr<T>> t;
    std::vector<bool> armed;
    using Actor::Actor;
    void step() override
    {
        Script::at = time += static_cast<std::int64_t>(r.below(5000));
        if (t.size() < 4)
        {
            t.push_back(std::make_unique<T>(Call{this, std::make_unique<std::uint64_t>(++next)}));
            armed.push_back(true);
            return;
        }
        const std::size_t x = r.below(4), y = r.below(4);
        switch (r.below(6))
        {
            case 0: t[x]->reset(); break;
            case 1:
                if (x != y)
                {
                    lost += armed[x];
                    *t[x] = std::move(*t[y]);
                    armed[x] = armed[y];
                    armed[y] = false;
                }
                break;
            case 2:
            {
                auto n = std::make_unique<T>(std::move(*t[x]));
                t[x] = std::move(n);  // the empty one goes
                break;
            }
            case 3:
            case 4:
                saw(static_cast<std::uint64_t>(t[x]->leaked_micro_sec().count()) * 3 +
                    static_cast<std::uint64_t>(t[x]->leaked().count()));
                break;
            default:
                t.erase(t.begin() + static_cast<std::ptrdiff_t>(x));
                armed.erase(armed.begin() + static_cast<std::ptrdiff_t>(x));
                break;
        }
        saw(called);
    }
    void finish() override
    {
        Script::at = time;
        t.clear();
        EXPECT(called + lost == next);
        saw(called);
    }
};
int& own_calls()
{
    static thread_local int n = 0;
    return n;
}
template <typename A>
void on_end(const A&) noexcept
{
    ++own_calls();
}
struct RealTimers : Actor
{
    using Actor::Actor;
    void step() override
    {
        const int before = own_calls();
        {
            utils::timer a{[](const auto&) noexcept { ++own_calls(); }};
            const auto d = a.leaked();
            EXPECT(d.count() >= 0);
            utils::timer b{std::move(a)};
            EXPECT(b.start_tp() <= std::chrono::steady_clock::now());
            b.reset();
            EXPECT(b.leaked_nano_sec().count() >= 0 && own_calls() == before);
        }
        EXPECT(own_calls() == before + 1);
        saw(1);
    }
};

int nothing_to_say()
{
    return 1;
}
struct Values : Actor
{
    using Actor::Actor;
    void step() override
    {
        const std::uint64_t v = r.any_width() | 1, w = r.any_width();
        switch (r.below(10))
        {
            case 0:
                saw(static_cast<std::uint64_t>(utils::ctz(v << r.below(20))) * 64 +
                    static_cast<std::uint64_t>(utils::clz(v)));
                saw(static_cast<std::uint64_t>(utils::clz(static_cast<std::uint32_t>(v))) * 64 +
                    static_cast<std::uint64_t>(utils::ctz(static_cast<std::uint32_t>(v))));
                saw(static_cast<std::uint64_t>(utils::clz(static_cast<std::uint16_t>(v))) +
                    static_cast<std::uint64_t>(utils::ctz(static_cast<std::uint8_t>(v))));
                break;
            case 1:
            {
                const auto d = utils::div(static_cast<std::int64_t>(w >> 1), static_cast<std::int32_t>(v & 0xffff));
                EXPECT(d.quot * static_cast<std::int64_t>(v & 0xffff) + d.rem == static_cast<std::int64_t>(w >> 1));
                saw(static_cast<std::uint64_t>(d.quot));
                const auto e = utils::div_as<std::uint8_t>(w & 0xff, (v & 0x7f) | 1);
                saw(e.rem);
                break;
            }
            case 2:
                saw(utils::bits_count(w) * 70u + utils::nbits_occupied(v));
                saw(utils::kNumBitsTable[w & 0xff]);
                saw(utils::is_power_of_2(w) + 2 * utils::greatest_divisor_that_is_power_of_2(v));
                saw(utils::next_multiple_of(64, w >> 8));
                saw(utils::next_multiple_of<32>(w >> 8) +
                    utils::next_multiple_of<16>(static_cast<std::uint32_t>(w >> 40)));
                saw(static_cast<std::uint64_t>(utils::to_underlying(static_cast<std::byte>(v))));
                break;
            case 3:
            {
                const auto p = reinterpret_cast<const void*>(static_cast<std::uintptr_t>(w >> 20));
                const std::size_t a = std::size_t{1} << r.below(12);
                saw(utils::skip_to_align(p, a) + utils::is_aligned(p, a));
                saw(utils::max_alignment_inside_block(a, 1 + r.below(10000)));
                saw(um::get_alignment(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(v << 3))));
                break;
            }
            case 4:
            {
                std::byte b[300], c[300];
                for (std::size_t i = 0; i < 300; ++i)
                {
                    b[i] = static_cast<std::byte>(pattern(v, i));
                }
                um::memcpy(c, b, 300);
                const std::size_t to = r.below(100), from = r.below(100), n = r.below(200);
                um::memmove(b + to, b + from, n);
                EXPECT(std::memcmp(b + to, c + from, n) == 0);
                saw(vm::hash(b, 300));
                const std::size_t z = r.below(300);
                um::secure_zero_memory(b, z);
                EXPECT(z == 0 || utils::memvcmp(b, 0, z));
                EXPECT(um::secure_zero_memory_safe(nullptr, z) != 0);
                saw(vm::hash(b, 300));
                break;
            }
            case 5:
            {
                unsigned char b[200];
                const std::size_t n = 1 + r.below(200);
                std::memset(b, static_cast<int>(w & 0xff), n);
                EXPECT(utils::memvcmp(b, static_cast<unsigned char>(w), n));
                b[r.below(n)] ^= 1;
                saw(utils::memvcmp(b, static_cast<unsigned char>(w), n));
                break;
            }
            case 6:
            {
                const auto a = utils::make_array(std::to_string(v), std::to_string(w));
                auto b = utils::make_array<std::string, 3>(a[0]);
                const auto c = utils::concatenate_arrays(a, std::move(b));
                EXPECT(c[4] == a[0] && c[1] == a[1] && utils::is_equal(c, c));
                saw(vm::hash(c[1].data(), c[1].size()));
                const auto z = utils::make_zero_array<std::uint32_t, 9>();
                EXPECT(utils::memvcmp(z.data(), 0, sizeof z));
                const auto g = utils::make_array_from_range<3, 40, 2>();
                saw(static_cast<std::uint64_t>(g.back()));
                const std::string text = std::to_string(v) + "some more";
                const auto t = utils::make_array<5, char>(std::string_view(text));
                const auto s = utils::sv_to_array<0, 2, 4>(std::string_view(text));
                saw(vm::hash(t.data(), t.size()) + static_cast<std::uint64_t>(s[1]));
                break;
            }
            case 7:
            {
                std::string all;
                utils::for_each_arg([&](const auto& x) { all += std::to_string(x); }, v, 7, 2.5);
                utils::for_each_in_tuple([&](auto&& x) { all += std::to_string(x); }, std::make_tuple(w, 'a', 1.5f));
                saw(vm::hash(all.data(), all.size()));
                break;
            }
            case 8:
                saw(utils::bit_cast<std::uint64_t>(utils::bit_cast<double>(v & 0x7fefffffffffffff)));
                saw(utils::shift_left(static_cast<std::uint16_t>(v), r.below(16)) +
                    utils::shift_right(w, r.below(64)));
                break;
            default:
                utils::abort_if(v == 0, "never %d", 1);
                UTILS_ABORT_IF(v == 0, "\nnever %d", nothing_to_say());
                UTILS_DEBUG_ABORT_IF(v == 0);
                saw(3);
                break;
        }
    }
};

constexpr unsigned kKinds = 10;
const char* const kNames[kKinds] = {"blocks 16", "blocks 64", "blocks 1",  "monotonic",   "system",
                                    "holders",   "timers",    "real timers", "values", "many values"};
std::unique_ptr<Actor> make(unsigned kind, std::uint64_t seed)
{
    switch (kind)
    {
        case 0: return std::make_unique<OnBuffer<um::simple_resource<100, 16>, false>>(seed);
        case 1: return std::make_unique<OnBuffer<um::simple_resource<64, 64>, false>>(seed);
        case 2: return std::make_unique<OnBuffer<um::simple_resource<300, 1>, false>>(seed);
        case 3: return std::make_unique<OnBuffer<um::monotonic_buffer_resource, true>>(seed);
        case 4: return std::make_unique<OnSystem>(seed);
        case 5: return std::make_unique<Holders>(seed);
        case 6: return std::make_unique<Timers>(seed);
        case 7: return std::make_unique<RealTimers>(seed);
        default: return std::make_unique<Values>(seed);
    }
}

struct Task
{
    unsigned kind;
    std::uint64_t seed;
    unsigned steps;
    // the outcome
    std::uint64_t digest = 0, wrong = 0;
    void done(Actor& a)
    {
        a.finish();
        digest = a.digest;
        wrong = a.wrong;
    }
};

void alone(Task& t)
{
    auto a = make(t.kind, t.seed);
    for (unsigned i = 0; i < t.steps; ++i)
    {
        a->step();
    }
    t.done(*a);
}

void meet(std::atomic<unsigned>& ready, unsigned threads)
{
    ready.fetch_add(1, std::memory_order_relaxed);
    for (unsigned spins = 0; ready.load(std::memory_order_relaxed) < threads; ++spins)
    {
        if (spins > 2000)
        {
            std::this_thread::yield();
        }
    }
}

// Each thread has actors of its own, which it carries on in turns.
void apart(std::vector<Task>& tasks, unsigned threads, std::uint64_t seed)
{
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> pool;
    for (unsigned k = 0; k < threads; ++k)
    {
        pool.emplace_back(
            [&, k]
            {
                vm::Rng r(seed + k);
                std::vector<std::unique_ptr<Actor>> mine;
                std::vector<Task*> task;
                std::vector<unsigned> left;
                meet(ready, threads);
                for (std::size_t i = k; i < tasks.size(); i += threads)
                {
                    mine.push_back(make(tasks[i].kind, tasks[i].seed));
                    task.push_back(&tasks[i]);
                    left.push_back(tasks[i].steps);
                }
                while (!mine.empty())
                {
                    const std::size_t i = r.below(mine.size());
                    for (auto n = 1 + r.below(8); n && left[i]; --n, --left[i])
                    {
                        mine[i]->step();
                    }
                    if (!left[i])
                    {
                        task[i]->done(*mine[i]);
                        mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(i));
                        task.erase(task.begin() + static_cast<std::ptrdiff_t>(i));
                        left.erase(left.begin() + static_cast<std::ptrdiff_t>(i));
                    }
                }
            });
    }
    for (auto& t: pool)
    {
        t.join();
    }
}

// Any thread carries any actor on.
std::uint64_t handed_over(std::vector<Task>& tasks, unsigned threads, std::uint64_t seed)
{
    struct Shared
    {
        std::unique_ptr<Actor> actor;
        Task* task;
        unsigned left;
        unsigned by;
    };
    std::mutex lock;
    std::vector<Shared> ready_to_go;
    std::size_t unfinished = tasks.size();
    std::uint64_t handovers = 0;
    for (auto& t: tasks)
    {
        ready_to_go.push_back({nullptr, &t, t.steps, 99});
    }
    std::vector<std::thread> pool;
    for (unsigned k = 0; k < threads; ++k)
    {
        pool.emplace_back(
            [&, k]
            {
                vm::Rng r(seed + k);
                for (;;)
                {
                    Shared s;
                    {
                        std::lock_guard<std::mutex> g(lock);
                        if (!unfinished)
                        {
                            return;
                        }
                        if (!ready_to_go.empty())
                        {
                            std::swap(ready_to_go[r.below(ready_to_go.size())], ready_to_go.back());
                            s = std::move(ready_to_go.back());
                            ready_to_go.pop_back();
                            handovers += s.by != 99 && s.by != k;
                            s.by = k;
                        }
                        else
                        {
                            s.task = nullptr;
                        }
                    }
                    if (!s.task)
                    {
                        std::this_thread::yield();
                        continue;
                    }
                    if (!s.actor)
                    {
                        s.actor = make(s.task->kind, s.task->seed);
                    }
                    for (auto n = 1 + r.below(20); n && s.left; --n, --s.left)
                    {
                        s.actor->step();
                    }
                    const bool end = !s.left;
                    if (end)
                    {
                        s.task->done(*s.actor);
                        s.actor.reset();
                    }
                    std::lock_guard<std::mutex> g(lock);
                    if (end)
                    {
                        --unfinished;
                    }
                    else
                    {
                        ready_to_go.push_back(std::move(s));
                    }
                }
            });
    }
    for (auto& t: pool)
    {
        t.join();
    }
    return handovers;
}

// Things that nobody changes, looked at by all threads at once. What a thread
// sees is a function of its own seed.
struct Scene
{
    using Blocks = um::simple_resource<100, 16>;
    using H = Holders::H;
    std::byte* buf;
    std::unique_ptr<Blocks> blocks;
    std::unique_ptr<um::monotonic_buffer_resource> bump;
    std::vector<void*> live;
    um::allocator<Word> a;
    H holder;
    std::array<std::string, 3> words;
    unsigned char same[200];
    utils::timer started{[](const auto&) noexcept {}};
    Timers::T scripted;
    explicit Scene(vm::Rng& r)
        : a(um::system_memory_resource())
        , holder(std::string(r.below(60), 'h'))
        , words{std::to_string(r()), std::string(r.below(40), 'w'), std::to_string(r.below(9))}
        , scripted((Script::at = static_cast<std::int64_t>(r.below(100000)), [](const auto&) noexcept {}))
    {
        buf = static_cast<std::byte*>(aligned_alloc(4096, 4096));
        std::memset(buf, 0x5a, 4096);
        std::memset(same, 0x77, sizeof same);
        blocks = std::make_unique<Blocks>(buf + r.below(32), 1600 - r.below(300), nullptr);
        for (int i = 0; i < 20; ++i)
        {
            if (void* p = blocks->allocate(1 + r.below(150), std::size_t{1} << r.below(8)))
            {
                live.push_back(p);
            }
            if (live.size() > 2 && r.chance(1, 3))
            {
                const std::size_t k = r.below(live.size());
                blocks->deallocate(live[k]);
                live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
            }
        }
        bump = std::make_unique<um::monotonic_buffer_resource>(buf + 2048, 500, blocks.get());
    }
    ~Scene()
    {
        for (void* p: live)
        {
            blocks->deallocate(p);
        }
        bump.reset();
        blocks.reset();
        free(buf);
    }
    std::uint64_t look(std::uint64_t seed) const
    {
        vm::Rng r(seed);
        std::uint64_t seen = 1;
        const auto saw = [&](std::uint64_t v) { seen = vm::mix(seen * 31 + v); };
        const Blocks& b = *blocks;
        const um::monotonic_buffer_resource& m = *bump;
        for (auto n = 20 + r.below(60); n; --n)
        {
            switch (r.below(9))
            {
                case 0:
                {
                    saw(b.busy_count() * 1000 + b.free_count());
                    saw(b.size() + static_cast<std::uint64_t>(b.data() - buf));
                    std::size_t i = 0;
                    do
                    {
                        using I = Blocks::BIndex;
                        saw(b.in_use(static_cast<I>(i)) + 2 * b.block_size(static_cast<I>(i)));
                        saw(b.block_size_in_bytes(static_cast<I>(i)) + b.at(static_cast<I>(i)).prev_index());
                        i = b.at(static_cast<I>(i)).next_index();
                        saw(b.infos()[i].next_index());
                    } while (i);
                    break;
                }
                case 1:
                    saw(m.size() + static_cast<std::uint64_t>(m.data() - buf));
                    saw((m == m) + 2 * (m == b) + 4 * (b != m) + 8 * b.is_equal(b));
                    break;
                case 2:
                {
                    const um::allocator<Word> c(a);
                    const um::allocator<int> d(a);
                    saw((c == a) + 2 * (d == a) + 4 * (a != um::allocator<int>(bump.get())));
                    saw(c.resource() == a.resource() && d.resource() == a.resource());
                    break;
                }
                case 3:
                {
                    H c(holder), d(std::string("other"));
                    d = holder;
                    saw(c->size() * 100 + d.get().size() + (holder.get() == c.get()) + vm::hash(holder->data(), holder->size()));
                    break;
                }
                case 4:
                {
                    const auto c = utils::concatenate_arrays(words, words);
                    const auto d = utils::make_array<std::string, 3>(words[1]);
                    saw(c.size() + d.size() + utils::is_equal(words, words) + utils::is_equal(words, d) * 2);
                    saw(vm::hash(c[3].data(), c[3].size()));
                    break;
                }
                case 5:
                {
                    unsigned char to[200];
                    um::memcpy(to, same, sizeof same);
                    const std::size_t k = r.below(199);
                    std::byte back[200];
                    um::memmove(back, reinterpret_cast<const std::byte*>(same) + k, 200 - k);
                    saw(utils::memvcmp(same + k, 0x77, 200 - k) + 2 * utils::memvcmp(to, 0x77, 200) +
                        static_cast<std::uint64_t>(back[0]));
                    break;
                }
                case 6:
                    Script::at = 200000 + static_cast<std::int64_t>(r.below(10000000));
                    saw(static_cast<std::uint64_t>(scripted.leaked().count()) * 3 +
                        static_cast<std::uint64_t>(scripted.leaked_micro_sec().count()) +
                        static_cast<std::uint64_t>(scripted.leaked_sec().count()));
                    saw(static_cast<std::uint64_t>(scripted.start_tp().time_since_epoch().count()));
                    break;
                case 7:
                {
                    const auto x = started.leaked_nano_sec(), y = started.leaked_nano_sec();
                    saw((x <= y) + 2 * (x.count() >= 0) +
                        4 * (started.start_tp() + y <= std::chrono::steady_clock::now()));
                    break;
                }
                default:
                {
                    um::memory_resource* z = um::null_memory_resource();
                    saw(z->allocate(r.below(100)) == nullptr);
                    z->deallocate(buf + r.below(10));
                    int calls = 0;
                    utils::for_each_arg([&](const std::string& w) { calls += static_cast<int>(w.size()); }, words[0],
                                        words[1], words[2]);
                    saw(static_cast<std::uint64_t>(calls));
                    break;
                }
            }
        }
        return seen;
    }
};

void run_shared(vm::Rng& r)
{
    const unsigned threads = static_cast<unsigned>(2 + r.below(5));
    const std::uint64_t seed = r();
    const Scene scene(r);
    std::vector<std::uint64_t> seen(threads);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> pool;
    for (unsigned k = 0; k < threads; ++k)
    {
        pool.emplace_back(
            [&, k]
            {
                meet(ready, threads);
                seen[k] = scene.look(seed + k);
            });
    }
    for (auto& t: pool)
    {
        t.join();
    }
    for (unsigned k = 0; k < threads; ++k)
    {
        vm::op("looked at with %u threads: %016" PRIx64, threads, seen[k]);
        VM_CHECK(scene.look(seed + k) == seen[k], "other-result",
                 "objects look different while %u threads look at them", threads);
        vm::state(seen[k]);
    }
    vm::count("shared objects looked at", threads);
    vm::State::get().events += threads * 50;
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (r.chance(1, 5))
    {
        run_shared(r);
        return;
    }
    const unsigned threads = static_cast<unsigned>(2 + r.below(5));
    const bool twins = r.chance(1, 3);  // all of one kind
    const unsigned kind = static_cast<unsigned>(i % kKinds);
    std::vector<Task> tasks(twins ? threads : 2 + r.below(2 * threads));
    for (auto& t: tasks)
    {
        t.kind = twins ? kind : static_cast<unsigned>(r.below(kKinds));
        t.seed = r();
        t.steps = static_cast<unsigned>(10 + r.below(120));
    }
    if (!twins)
    {
        tasks[0].kind = kind;
    }
    std::vector<Task> reference = tasks;
    const bool first = r.chance(1, 2);
    const bool together = r.chance(2, 5);
    if (first)
    {
        for (auto& t: reference)
        {
            alone(t);
        }
    }
    if (together)
    {
        vm::count("handed over", handed_over(tasks, threads, r()));
    }
    else
    {
        apart(tasks, threads, r());
    }
    if (!first)
    {
        for (auto& t: reference)
        {
            alone(t);
        }
    }
    for (std::size_t k = 0; k < tasks.size(); ++k)
    {
        vm::op("%s, %u steps, %s: %016" PRIx64, kNames[tasks[k].kind], tasks[k].steps,
               together ? "handed from thread to thread" : "in its own thread", tasks[k].digest);
        VM_CHECK(!reference[k].wrong, "wrong-alone", "%s alone: see line %" PRIu64, kNames[tasks[k].kind],
                 reference[k].wrong);
        VM_CHECK(!tasks[k].wrong, "wrong-result", "%s with %u threads at work: see line %" PRIu64,
                 kNames[tasks[k].kind], threads, tasks[k].wrong);
        VM_CHECK(tasks[k].digest == reference[k].digest, "other-result",
                 "%s behaves differently while %u threads are at work", kNames[tasks[k].kind], threads);
        vm::count(kNames[tasks[k].kind]);
        vm::state(tasks[k].digest ^ together);
    }
    vm::State::get().events += tasks.size() * 60;
}

#ifdef FIRST_USE
// The parent uses nothing of the library itself.
void run_first(vm::Rng& r, std::uint64_t)
{
    const unsigned threads = static_cast<unsigned>(2 + r.below(6));
    const unsigned which = static_cast<unsigned>(r.below(6));
    const std::uint64_t seed = r();
    const auto d = vm::observe(
        [&]
        {
            std::atomic<unsigned> ready{0};
            std::vector<std::thread> pool;
            std::vector<std::array<um::memory_resource*, 4>> seen(threads);
            std::vector<Task> tasks;
            for (unsigned k = 0; k < threads; ++k)
            {
                tasks.push_back({static_cast<unsigned>((seed + k * 7) % kKinds), seed + k, 30});
            }
            for (unsigned k = 0; k < threads; ++k)
            {
                pool.emplace_back(
                    [&, k]
                    {
                        vm::Rng tr(seed ^ (k * 977));
                        const auto delay = tr.below(300);
                        meet(ready, threads);
                        for (std::uint64_t i = 0; i < delay; ++i)
                        {
                            asm volatile("" ::: "memory");
                        }
                        const unsigned w = which < 5 ? which : static_cast<unsigned>(tr.below(5));
                        switch (w)
                        {
                            case 0: seen[k][0] = um::system_memory_resource(); break;
                            case 1: seen[k][1] = um::null_memory_resource(); break;
                            case 2: seen[k][2] = um::get_default_resource(); break;
                            case 3: seen[k][3] = um::allocator<int>().resource(); break;
                            default: alone(tasks[k]); break;
                        }
                        seen[k][0] = um::system_memory_resource();
                        seen[k][1] = um::null_memory_resource();
                        if (w != 2)
                        {
                            seen[k][2] = um::get_default_resource();
                        }
                        if (w != 3)
                        {
                            seen[k][3] = um::allocator<int>().resource();
                        }
                        void* p = seen[k][0]->allocate(40, 8);
                        if (!p || seen[k][1]->allocate(1, 1))
                        {
                            tasks[k].wrong = 1;
                        }
                        seen[k][2]->deallocate(p);
                    });
            }
            for (auto& t: pool)
            {
                t.join();
            }
            for (unsigned k = 0; k < threads; ++k)
            {
                VM_CHECK(seen[k] == seen[0], "first-use",
                         "threads that use the accessors for the first time at once get different resources");
                VM_CHECK(seen[k][0] == um::system_memory_resource() && seen[k][0] == seen[k][2] &&
                             seen[k][2] == seen[k][3] && seen[k][0] != seen[k][1] &&
                             seen[k][1] == um::null_memory_resource(),
                         "first-use", "not the system or null resource");
                VM_CHECK(!tasks[k].wrong, "first-use", "%s: see line %" PRIu64, kNames[tasks[k].kind],
                         tasks[k].wrong);
                if (tasks[k].digest)
                {
                    Task t{tasks[k].kind, tasks[k].seed, tasks[k].steps};
                    alone(t);
                    VM_CHECK(t.digest == tasks[k].digest, "first-use", "%s behaves differently",
                             kNames[tasks[k].kind]);
                }
            }
        });
    vm::op("%u threads use %u first", threads, which);
    const bool race = d.err.find("ThreadSanitizer: data race") != std::string::npos;
    VM_CHECK(d.returned && !race, race ? "tsan:data-race" : "first-use", "first use by %u threads: status 0x%x %s",
             threads, static_cast<unsigned>(d.status), vm::printable(d.err).c_str());
    vm::count("first uses");
    vm::state(seed);
}
#endif
}  // namespace

int main(int argc, char** argv)
{
#ifdef FIRST_USE
    return vm::run_main(argc, argv, run_first);
#else
    return vm::run_main(argc, argv, run);
#endif
}
