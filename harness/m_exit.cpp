// M07 (and with -DDEFAULT_ONLY: M08), second half: the system and null resources
// and the default one serve the program until its very end: in the destructors of objects with static or
// thread storage duration and in exit handlers, whatever was used before first.
#include "vmon.h"

#include <cassert>
#include <cstddef>
#include <memory>
#include <thread>
#include <type_traits>
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

namespace
{
namespace um = utils::memory;

struct Shared
{
    unsigned uses;
    bool done;
    char bad[200];
};
Shared* shared;
struct Plan
{
    bool active;
    std::uint64_t seed;
};
Plan plan;
void bad(const char* where, const char* what)
{
    // each property judges what it is about
    const bool about_default = std::strstr(what, "default") != nullptr;
#ifdef DEFAULT_ONLY
    if (!about_default) return;
#else
    if (about_default) return;
#endif
    if (!shared->bad[0])
    {
        snprintf(shared->bad, sizeof shared->bad, "%s: %s", where, what);
    }
}

struct Item
{
    long a;
    char c[20];
    explicit Item(long x) noexcept : a(x), c{1} {}
};

// What is kept from main() for the end.
struct Kept
{
    um::memory_resource *system = nullptr, *null = nullptr, *def = nullptr;
    struct
    {
        void* p;
        std::size_t n;
    } region[6]{};
    Item* item = nullptr;
};
Kept kept;

void use(const char* where, std::uint64_t salt)
{
    vm::Rng r(plan.seed ^ salt);
    ++shared->uses;
    um::memory_resource* const s = um::system_memory_resource();
    um::memory_resource* const n = um::null_memory_resource();
    um::memory_resource* const d = um::get_default_resource();
    if (!s || !n || (kept.system && kept.system != s) || (kept.null && kept.null != n))
    {
        bad(where, "another system or null resource");
        return;
    }
    if (d != (kept.def ? kept.def : s))
    {
        bad(where, "another default resource");
        return;
    }
    for (int k = 0; k < 6; ++k)
    {
        switch (r.below(6))
        {
            case 0:
                if (!(*s == *s) || *s != *s || *s == *n || !(*n == *n) || *n != *n ||
                    !s->is_equal(*s) || n->is_equal(*s))
                {
                    bad(where, "equality of resources");
                }
                break;
            case 1:
            {
                const std::size_t size = 1 + r.below(3000),
                                  al = std::size_t{1} << r.below(10);
                void* p = s->allocate(size, al);
                if (!p || reinterpret_cast<std::uintptr_t>(p) % al)
                {
                    bad(where, "allocation");
                }
                else
                {
                    std::memset(p, 7, size);
                }
                s->deallocate(p);
                break;
            }
            case 2:
                for (auto& x: kept.region)
                {
                    if (x.p)
                    {
                        for (std::size_t b = 0; b < x.n; ++b)
                        {
                            if (static_cast<unsigned char*>(x.p)[b] != 0x3c)
                            {
                                bad(where, "contents");
                                break;
                            }
                        }
                        s->deallocate(x.p);
                        x.p = nullptr;
                        break;
                    }
                }
                break;
            case 3:
                if (n->allocate(1 + r.below(100), 8))
                {
                    bad(where, "something from the null resource");
                }
                n->deallocate(nullptr);
                break;
            case 4:
            {
                um::allocator<Item> a(s), b(a), c(n);
                um::allocator<char> e(b), f;
                if (d && (f == a) != (d == s))
                {
                    bad(where, "an allocator on the default resource");
                }
                if (!(a == b) || a != b || a == c || !(a == e))
                {
                    bad(where, "equality of allocators");
                }
                if (kept.item)
                {
                    if (kept.item->a != 77)
                    {
                        bad(where, "object");
                    }
                    a.delete_object(kept.item);
                    kept.item = nullptr;
                }
                Item* i = b.new_object<Item>(5);
                if (!i || i->a != 5)
                {
                    bad(where, "new object");
                }
                a.delete_object(i);
                if (c.new_object<Item>(1))
                {
                    bad(where, "an object from the null resource");
                }
                break;
            }
            default:
            {
                alignas(64) std::byte room[256];
                um::simple_resource<4, 64> blocks(room, sizeof room, s);
                um::monotonic_buffer_resource mono(room, n);
                void* big = blocks.allocate(1000, 8);
                void* small = blocks.allocate(60, 8);
                if (!big || !small || mono.allocate(1000, 1) || blocks == mono)
                {
                    bad(where, "resources above the system");
                }
                blocks.deallocate(big);
                blocks.deallocate(small);
                // installing works as ever
                um::memory_resource* const old = um::set_default_resource(&blocks);
                if (old != d || um::get_default_resource() != &blocks ||
                    um::set_default_resource(old) != &blocks)
                {
                    bad(where, "installation of a default resource");
                }
                break;
            }
        }
    }
}

struct Keeper
{
    const char* name;
    std::uint64_t salt;
    bool last;
    ~Keeper()
    {
        if (plan.active)
        {
            use(name, salt);
            if (last)
            {
                shared->done = true;
            }
        }
    }
};
// destroyed in the opposite order, after whatever is constructed in main()
Keeper first{"static object destroyed last", 11, true};
Keeper second{"static object", 22, false};
thread_local Keeper local{"object of a thread", 33, false};

void main_part(vm::Rng r)
{
    if (r.chance(1, 3))
    {
        std::atexit([] { use("exit handler registered first", 44); });
    }
    const std::uint64_t which = r.below(16);
    if (r.chance(1, 4))
    {
        // an object that is constructed in main(), before the resources
        static Keeper early{"static object of a function", 55, false};
        (void)early;
    }
    if (which & 1) kept.system = um::system_memory_resource();
    if (which & 2) kept.null = um::null_memory_resource();
    if (which & 4)
    {
        um::memory_resource* const d = um::get_default_resource();
        kept.system = um::system_memory_resource();
        if (d != kept.system)
        {
            bad("main", "the default resource");
        }
    }
    if (which & 8)
    {
        switch (r.below(2))
        {
            case 0: kept.def = um::system_memory_resource(); break;
            default: kept.def = um::null_memory_resource(); break;
        }
        (void)um::set_default_resource(kept.def);
    }
    if (r.chance(2, 3))
    {
        kept.system = um::system_memory_resource();
        for (std::size_t k = r.below(6); k-- > 0;)
        {
            kept.region[k].n = 1 + r.below(1000);
            kept.region[k].p = kept.system->allocate(kept.region[k].n, 16);
            std::memset(kept.region[k].p, 0x3c, kept.region[k].n);
        }
        kept.item = um::allocator<Item>(kept.system).new_object<Item>(77);
    }
    if (r.chance(1, 3))
    {
        static Keeper late{"static object of a function, late", 66, false};
        (void)late;
    }
    if (r.chance(1, 3))
    {
        std::atexit([] { use("exit handler registered last", 77); });
    }
    if (r.chance(1, 3))
    {
        (void)local.name;
    }
    if (r.chance(1, 4))
    {
        std::thread([] { (void)local.name; use("another thread", 88); }).join();
    }
}

void run(vm::Rng& r, std::uint64_t)
{
    if (!shared)
    {
        shared = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    *shared = {};
    const std::uint64_t seed = r();
    const auto d = vm::observe(
        [&]
        {
            plan = {true, seed};
            main_part(vm::Rng(seed));
            std::exit(0);
        });
    vm::op("a program with seed %llx ends, %u uses of the resources",
           static_cast<unsigned long long>(seed), shared->uses);
    VM_CHECK(!shared->bad[0], "end-of-program", "%s", shared->bad);
    VM_CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 0 && shared->done,
             "end-of-program", "status 0x%x, %u uses, %s: %s",
             static_cast<unsigned>(d.status), shared->uses,
             shared->done ? "all done" : "not done",
             vm::printable(d.err).c_str());
    vm::count("uses at the end of a program", shared->uses);
    vm::state(vm::mix(seed % 4096));
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
