// M08: the default resource as a linearizable register.
//
// Every case runs threads (in two translation units) that install resources,
// each one at most once, and read the default.  Call, result and return are
// recorded.  As all installed values are distinct, the results of the
// installations fix their order: the checker follows that chain, then looks for
// operations whose real-time order contradicts it.
#include "vmon.h"

#include <cassert>
#include <chrono>
#include <thread>

#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include "m_system_tu.h"

namespace
{
namespace um = utils::memory;

struct Tag : um::memory_resource
{
    explicit Tag(std::uint64_t i)
        : memory_resource(&Tag::allocate<Tag>, &Tag::deallocate<Tag>), id(i)
    {
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return &o == this;
    }
    void* allocate_impl(std::size_t n, std::size_t) noexcept
    {
        ++asked;
        return n <= sizeof room ? room : nullptr;
    }
    void deallocate_impl(void*) noexcept { ++returned; }
    std::uint64_t id;  // deliberately not atomic: published by the register
    int asked = 0, returned = 0;
    alignas(64) unsigned char room[256];
};

std::uint64_t now()
{
    return static_cast<std::uint64_t>(
        std::chrono::steady_clock::now().time_since_epoch().count());
}

struct Event
{
    bool install;
    um::memory_resource* in;
    um::memory_resource* out;
    std::uint64_t call, ret;
    unsigned thread;
};

void spin(std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n; ++i)
    {
        asm volatile("" ::: "memory");
    }
}

std::string text(const std::vector<Event>& h)
{
    std::string s;
    for (auto& e: h)
    {
        char b[160];
        snprintf(b, sizeof b, "t%u [%" PRIu64 ",%" PRIu64 "] %s%p -> %p; ",
                 e.thread, e.call, e.ret, e.install ? "install " : "read",
                 e.install ? static_cast<void*>(e.in) : nullptr,
                 static_cast<void*>(e.out));
        s += b;
    }
    return s;
}

void check_history(um::memory_resource* first, const std::vector<Event>& h,
                   um::memory_resource* last)
{
    // the order of installations
    std::map<um::memory_resource*, const Event*> by_out;
    std::size_t installs = 0;
    for (auto& e: h)
    {
        if (!e.install)
        {
            continue;
        }
        ++installs;
        VM_CHECK(by_out.emplace(e.out, &e).second, "reported-twice",
                 "two installations report to have replaced %p: t%u and t%u",
                 static_cast<void*>(e.out), by_out[e.out]->thread, e.thread);
    }
    std::map<um::memory_resource*, std::size_t> position;
    std::vector<const Event*> order;
    um::memory_resource* v = first;
    position[v] = 0;
    for (;;)
    {
        auto it = by_out.find(v);
        if (it == by_out.end())
        {
            break;
        }
        order.push_back(it->second);
        v = it->second->in;
        position[v] = order.size();
    }
    VM_CHECK(order.size() == installs, "lost-installation",
             "only %zu of %zu installations follow from the initial value",
             order.size(), installs);
    VM_CHECK(v == last, "lost-installation",
             "the default at the end is %p, the last one installed %p",
             static_cast<void*>(last), static_cast<void*>(v));
    // all operations by place in that order
    std::vector<std::pair<std::size_t, const Event*>> all;
    for (auto& e: h)
    {
        if (e.install)
        {
            all.push_back({2 * position[e.in], &e});
        }
        else
        {
            auto it = position.find(e.out);
            VM_CHECK(it != position.end(), "value-from-nowhere",
                     "read %p, which was never installed",
                     static_cast<void*>(e.out));
            all.push_back({2 * it->second + 1, &e});
        }
    }
    std::sort(all.begin(), all.end(),
              [](auto& a, auto& b) { return a.first < b.first; });
    std::uint64_t latest_call = 0, pending = 0;
    std::size_t at = SIZE_MAX;
    const Event* who = nullptr;
    const Event* pending_who = nullptr;
    for (auto& [pos, e]: all)
    {
        if (pos != at)
        {
            at = pos;
            if (pending > latest_call)
            {
                latest_call = pending;
                who = pending_who;
            }
        }
        VM_CHECK(e->ret >= latest_call, "not-linearizable",
                 "t%u %s -> %p returned before the call of t%u %s -> %p that "
                 "must precede it",
                 e->thread, e->install ? "install" : "read",
                 static_cast<void*>(e->out), who->thread,
                 who->install ? "install" : "read",
                 static_cast<void*>(who->out));
        if (e->call > pending)
        {
            pending = e->call;
            pending_who = e;
        }
    }
    // what the interleaving was: threads in the order of installation
    std::uint64_t sig = installs;
    std::size_t switches = 0;
    for (std::size_t i = 0; i < order.size(); ++i)
    {
        sig = vm::mix(sig * 31 + order[i]->thread);
        switches += i && order[i]->thread != order[i - 1]->thread;
    }
    vm::state(sig);
    vm::count("installations", installs);
    vm::count("reads", h.size() - installs);
    vm::count("thread switches between installations", switches);
}

void concurrent(vm::Rng& r)
{
    const unsigned threads = static_cast<unsigned>(2 + r.below(6));
    const unsigned ops = static_cast<unsigned>(1 + r.below(
        r.chance(1, 3) ? 6 : 60));
    const unsigned reads = static_cast<unsigned>(r.below(100));
    const unsigned delay = static_cast<unsigned>(r.chance(1, 2) ? 0 : r.below(300));
    auto* init = new Tag(1);
    (void)um::set_default_resource(init);
    std::vector<std::vector<Event>> logs(threads);
    std::vector<std::vector<Tag*>> made(threads);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> pool;
    std::atomic<std::uint64_t> bad{0};
    std::uint64_t base = r() | 1;
    for (unsigned t = 0; t < threads; ++t)
    {
        logs[t].reserve(ops);
        made[t].reserve(ops);
        pool.emplace_back(
            [&, t, seed = r()]
            {
                vm::Rng tr(seed);
                std::vector<um::allocator<int>> kept;
                std::vector<um::memory_resource*> kept_as;
                kept.reserve(ops);
                ready.fetch_add(1);
                for (unsigned spins = 0; ready.load() < threads; ++spins)
                {
                    if (spins > 2000)
                    {
                        std::this_thread::yield();
                    }
                }
                for (unsigned k = 0; k < ops; ++k)
                {
                    Event e{};
                    e.thread = t;
                    const auto what = tr.below(100);
                    if (delay)
                    {
                        tr.chance(1, 40) ? std::this_thread::yield()
                                         : spin(tr.below(delay));
                    }
                    if (what < reads)
                    {
                        const auto how = tr.below(3);
                        e.call = now();
                        if (how == 0)
                        {
                            e.out = tu_default();
                            e.ret = now();
                        }
                        else if (how == 1)
                        {
                            um::allocator<int> a;
                            e.ret = now();
                            e.out = a.resource();
                            kept.push_back(a);
                            kept_as.push_back(e.out);
                        }
                        else
                        {
                            e.out = um::get_default_resource();
                            e.ret = now();
                        }
                    }
                    else
                    {
                        e.install = true;
                        auto* x = new Tag(base + (t + 1) * 1000 + k);
                        made[t].push_back(x);
                        e.in = x;
                        const bool other = tr.chance(1, 2);
                        e.call = now();
                        e.out = other ? tu_set_default(x)
                                      : um::set_default_resource(x);
                        e.ret = now();
                    }
                    // uses what it got, as a program would
                    const std::uint64_t id =
                        e.out ? static_cast<Tag*>(e.out)->id : 0;
                    if (id != 1 && (id - base < 1000 ||
                                    id - base >= 1000u * (threads + 1)))
                    {
                        bad = id + 1;
                    }
                    logs[t].push_back(e);
                }
                for (std::size_t k = 0; k < kept.size(); ++k)
                {
                    if (kept[k].resource() != kept_as[k])
                    {
                        bad = 2;
                    }
                }
            });
    }
    for (auto& p: pool)
    {
        p.join();
    }
    auto* last = um::get_default_resource();
    VM_CHECK(last == tu_default(), "two-registers",
             "translation units see %p and %p", static_cast<void*>(last),
             static_cast<void*>(tu_default()));
    std::vector<Event> h;
    for (auto& l: logs)
    {
        h.insert(h.end(), l.begin(), l.end());
    }
    std::sort(h.begin(), h.end(),
              [](auto& a, auto& b) { return a.call < b.call; });
    vm::op("%u threads, %u operations each, %u%% reads", threads, ops, reads);
    for (std::size_t i = h.size() > 40 ? h.size() - 40 : 0; i < h.size(); ++i)
    {
        vm::op("t%u [%" PRIu64 ",%" PRIu64 "] %s %p -> %p", h[i].thread,
               h[i].call - h[0].call, h[i].ret - h[0].call,
               h[i].install ? "install" : "read",
               static_cast<void*>(h[i].in), static_cast<void*>(h[i].out));
    }
    vm::State::get().events += h.size() > 40 ? h.size() - 40 : 0;
    check_history(init, h, last);
    VM_CHECK(!bad.load(), "value-from-nowhere", "unknown resource seen (%" PRIu64 ")",
             bad.load() - 1);
    (void)um::set_default_resource(um::system_memory_resource());
    delete init;
    for (auto& m: made)
    {
        for (auto* x: m)
        {
            delete x;
        }
    }
}

void sequential(vm::Rng& r)
{
    std::vector<std::unique_ptr<Tag>> tags;
    for (unsigned k = 0; k < 6; ++k)
    {
        tags.push_back(std::make_unique<Tag>(k));
    }
    um::memory_resource* model = um::system_memory_resource();
    (void)tu_set_default(model);
    alignas(64) static std::byte buf[256];
    struct Built
    {
        um::allocator<long> a;
        std::unique_ptr<um::monotonic_buffer_resource> m;
        std::unique_ptr<um::simple_resource<32, 8>> s;
        um::memory_resource* expected;
    };
    std::vector<Built> built;
    const unsigned steps = static_cast<unsigned>(10 + r.below(40));
    for (unsigned k = 0; k < steps; ++k)
    {
        switch (r.below(4))
        {
            case 0:
            case 1:
            {
                um::memory_resource* x;
                switch (r.below(10))
                {
                    case 0: x = um::system_memory_resource(); break;
                    case 1: x = um::null_memory_resource(); break;
                    case 2: x = nullptr; break;
                    default: x = tags[r.below(tags.size())].get(); break;
                }
                auto* old = r.chance(1, 2) ? um::set_default_resource(x)
                                           : tu_set_default(x);
                vm::op("install %p -> %p", static_cast<void*>(x),
                       static_cast<void*>(old));
                VM_CHECK(old == model, "wrong-value",
                         "installing returned %p, the default was %p",
                         static_cast<void*>(old), static_cast<void*>(model));
                model = x;
                break;
            }
            case 2:
            {
                Built b{{}, nullptr, nullptr, model};
                b.m = std::make_unique<um::monotonic_buffer_resource>(buf,
                                                                      256);
                b.s = std::make_unique<um::simple_resource<32, 8>>(buf,
                                                                   256);
                built.push_back(std::move(b));
                vm::op("build with %p", static_cast<void*>(model));
                break;
            }
            default:
            {
                if (built.empty())
                {
                    break;
                }
                // each object asks the resource it was built with
                auto& b = built[r.below(built.size())];
                auto* tag = dynamic_cast<Tag*>(b.expected);
                VM_CHECK(b.a.resource() == b.expected, "resource-changed",
                         "an allocator built with %p now uses %p",
                         static_cast<void*>(b.expected),
                         static_cast<void*>(b.a.resource()));
                if (!tag)
                {
                    break;
                }
                const unsigned how = static_cast<unsigned>(r.below(3));
                std::vector<int> before;
                for (auto& t: tags)
                {
                    before.push_back(t->asked);
                }
                if (how == 0)
                {
                    b.a.deallocate(b.a.allocate(3));
                }
                else if (how == 1)
                {
                    (void)b.m->allocate(300, 8);
                }
                else
                {
                    b.s->deallocate(b.s->allocate(300, 8));
                }
                vm::op("use %u of %p", how, static_cast<void*>(b.expected));
                for (std::size_t t = 0; t < tags.size(); ++t)
                {
                    VM_CHECK(tags[t]->asked - before[t] ==
                                 (tags[t].get() == tag),
                             "resource-changed",
                             "resource %zu was asked by an object built with "
                             "%p",
                             t, static_cast<void*>(tag));
                }
                vm::count("uses of objects built earlier");
                break;
            }
        }
        auto* g = um::get_default_resource();
        auto* u = tu_default();
        VM_CHECK(g == model && u == model, "wrong-value",
                 "the default is %p, read as %p and %p",
                 static_cast<void*>(model), static_cast<void*>(g),
                 static_cast<void*>(u));
        vm::state(vm::mix(static_cast<std::uint64_t>(
                      dynamic_cast<Tag*>(model)
                          ? dynamic_cast<Tag*>(model)->id + 2
                          : model == um::system_memory_resource())) ^
                  built.size() ^ (k << 8));
    }
    built.clear();
    (void)um::set_default_resource(um::system_memory_resource());
}

um::memory_resource* const at_start = um::get_default_resource();

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0 || um::get_default_resource() != um::system_memory_resource())
    {
        VM_CHECK(um::get_default_resource() == um::system_memory_resource() &&
                     tu_default() == um::system_memory_resource(),
                 "initial-value", "the default is %p, not the system resource",
                 static_cast<void*>(um::get_default_resource()));
        VM_CHECK(at_start == um::system_memory_resource() &&
                     tu_default_at_start() == um::system_memory_resource(),
                 "initial-value",
                 "not the system resource while objects were initialized");
        vm::op("initial value");
    }
    if (i % 8 == 0)
    {
        sequential(r);
    }
    else
    {
        concurrent(r);
    }
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
