// M07: the system and null resources on an operating system layer that hands
// out storage no larger and no better aligned than it was asked for, surrounds
// it with canaries, and fails at random.
#include "vmon.h"

#include <algorithm>
#include <cassert>
#include <sys/mman.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include "m_system_tu.h"

namespace
{
namespace um = utils::memory;

struct OsBlock
{
    std::size_t size, align;
    std::byte* base;
    std::size_t room;
    bool mapped;
};
std::map<void*, OsBlock> os;
bool failing = false, exhausted = false;
std::size_t refusals = 0;
constexpr std::size_t kGuard = 64;
// what this system is able to grant; storage nobody touches costs nothing
constexpr std::size_t kMostSize = std::size_t{5} << 30;
constexpr std::size_t kMostAlign = std::size_t{1} << 26;

int os_memalign(void** out, std::size_t align, std::size_t size)
{
    vm::op("  os: memalign(%zu, %zu)", align, size);
    if (align < sizeof(void*) || (align & (align - 1)))
    {
        ++refusals;
        return EINVAL;
    }
    if (failing || size > kMostSize || align > kMostAlign)
    {
        // the result is unspecified
        *out = reinterpret_cast<void*>(std::uintptr_t{0xdead0});
        ++refusals;
        // any number but 0 says so
        constexpr int kWhy[] = {ENOMEM, EINVAL, EAGAIN, ENOSYS, -1, 1 << 16};
        return kWhy[refusals % 6];
    }
    const std::size_t room = size + 3 * align + 2 * kGuard;
    std::byte* base;
    const bool mapped = room > (std::size_t{1} << 18);
    if (mapped)
    {
        void* m = ::mmap(nullptr, room, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED)
        {
            exhausted = true;
            ++refusals;
            return ENOMEM;
        }
        base = static_cast<std::byte*>(m);
    }
    else
    {
        base = static_cast<std::byte*>(std::malloc(room));
    }
    auto u = reinterpret_cast<std::uintptr_t>(base) + kGuard;
    u = (u + 2 * align - 1) & ~(2 * align - 1);
    u += align;  // an odd multiple of align: not aligned any better
    if (u + size + kGuard > reinterpret_cast<std::uintptr_t>(base) + room)
    {
        u -= 2 * align;
    }
    auto* p = reinterpret_cast<std::byte*>(u);
    if (p < base + kGuard)
    {
        std::fprintf(stderr, "rig\n");
        _exit(3);
    }
    std::memset(p - kGuard, 0x5a, kGuard);
    std::memset(p + size, 0x5a, kGuard);
    os[p] = {size, align, base, room, mapped};
    *out = p;
    return 0;
}
void check_guards(const OsBlock& b, const std::byte* p)
{
    for (std::size_t i = 0; i < kGuard; ++i)
    {
        VM_CHECK(p[b.size + i] == std::byte{0x5a} &&
                     *(p - kGuard + i) == std::byte{0x5a},
                 "stray-write",
                 "bytes outside of the %zu bytes asked for were written",
                 b.size);
    }
}
std::vector<void*> freed;
void os_free(void* p)
{
    vm::op("  os: free(%p)", p);
    if (!p)
    {
        return;
    }
    auto it = os.find(p);
    VM_CHECK(it != os.end(), "foreign-free",
             "the system was given %p back, which it did not hand out", p);
    check_guards(it->second, static_cast<std::byte*>(p));
    if (it->second.mapped)
    {
        ::munmap(it->second.base, it->second.room);
    }
    else
    {
        std::free(it->second.base);
    }
    os.erase(it);
    freed.push_back(p);
}

struct Live
{
    std::byte* p;
    std::size_t size, align;
    std::uint64_t id;
};
std::byte pattern(std::uint64_t id, std::size_t i)
{
    return static_cast<std::byte>(vm::mix(id * 131 + i / 8) >> (8 * (i % 8)));
}

// all bytes of what is small, the edges and a few in between of what is large
std::size_t next(std::size_t i, std::size_t n)
{
    return n <= 16384 || i < 4096 || i + 1 >= n - 4096
               ? i + 1
               : std::min(i + n / 13, n - 4096);
}

template <std::size_t N, std::size_t A>
struct alignas(A) Obj
{
    unsigned char c[N];
};

template <typename T>
void* typed(um::memory_resource* r, std::size_t& n, std::size_t& a)
{
    n = sizeof(T);
    a = alignof(T);
    return r->allocate<T>();
}

void identity(vm::Rng&)
{
    auto* s = um::system_memory_resource();
    auto* n = um::null_memory_resource();
    VM_CHECK(s && n && s != n, "identity", "system %p null %p",
             static_cast<void*>(s), static_cast<void*>(n));
    VM_CHECK(s == um::system_memory_resource() && s == tu_system() &&
                 s == tu_system_at_start(),
             "identity", "the system resource differs between calls or "
                         "translation units");
    VM_CHECK(n == um::null_memory_resource() && n == tu_null() &&
                 n == tu_null_at_start(),
             "identity", "the null resource differs between calls or "
                         "translation units");
    VM_CHECK(*s == *s && *n == *n && !(*s != *s) && !(*n != *n), "equality",
             "a resource does not equal itself");
    VM_CHECK(*s != *n && *n != *s && !(*s == *n) && !(*n == *s), "equality",
             "system and null resource compare equal");
    VM_CHECK(s->is_equal(*s) && n->is_equal(*n) && !s->is_equal(*n) &&
                 !n->is_equal(*s),
             "equality", "is_equal");
}

// resources of every kind, also over the same, overlapping or no storage
void comparisons(vm::Rng& r)
{
    alignas(64) static std::byte buf[512];
    auto* s = um::system_memory_resource();
    auto* n = um::null_memory_resource();
    um::memory_resource* const up[] = {s, n, nullptr};
    const auto upstream = [&] { return up[r.below(3)]; };
    const auto start = [&] { return r.chance(1, 5) ? nullptr : buf + 64 * r.below(2); };
    const auto size = [&]
    { return r.chance(1, 5) ? std::size_t{0} : std::size_t{64} << r.below(3); };
    um::monotonic_buffer_resource m1(start(), size(), upstream());
    um::monotonic_buffer_resource m2(start(), size(), upstream());
    um::monotonic_buffer_resource m3(buf, upstream());
    um::simple_resource<8, 32> b1(start(), size(), upstream());
    um::simple_resource<8, 32> b2(start(), size(), upstream());
    um::simple_resource<4, 64> b3(buf, upstream());
    um::memory_resource* all[] = {s, n, &m1, &m2, &m3, &b1, &b2, &b3};
    void* p = r.chance(1, 2) ? m1.allocate(8, 8) : nullptr;
    for (auto* x: all)
    {
        for (auto* y: all)
        {
            const bool same = x == y;
            const um::memory_resource &cx = *x, &cy = *y;
            VM_CHECK((cx == cy) == same && (cx != cy) == !same &&
                         cx.is_equal(cy) == same,
                     "equality", "resources %zu and %zu compare %s",
                     static_cast<std::size_t>(std::find(all, all + 8, x) - all),
                     static_cast<std::size_t>(std::find(all, all + 8, y) - all),
                     same ? "different" : "equal");
        }
    }
    VM_CHECK(m1 == m1 && m1 != m2 && b1 == b1 && b1 != b2 && b1 != m1 && !(m1 == *s),
             "equality", "compared by their own types");
    vm::count("comparisons of resources", 64);
    if (p && (p < buf || p >= buf + sizeof buf))
    {  // it was the upstream's
        s->deallocate(p);
    }
}

void run(vm::Rng& r, std::uint64_t)
{
    identity(r);
    comparisons(r);
    std::vector<Live> live;
    const std::size_t steps = 20 + r.below(100);
    auto* sys = um::system_memory_resource();
    auto* nul = um::null_memory_resource();
    for (std::size_t k = 0; k < steps; ++k)
    {
        const auto what = r.below(100);
        if (what < 60)
        {
            std::size_t n = r.any_width(r.chance(1, 5) ? 64 : 12);
            std::size_t a = std::size_t{1}
                            << (r.chance(1, 6)   ? r.below(64)
                                : r.chance(1, 3) ? r.below(28)
                                                 : r.below(11));
            if (r.chance(1, 3))
            {
                // sizes that share bits with the alignment
                const std::size_t m[] = {
                    a,     a * (1 + r.below(9)), a >> r.below(5), a << 1 | a,
                    ~a, std::size_t{1} << r.below(33), a - 1 + r.below(3)};
                n = m[r.below(7)] + r.below(3) - 1;
                if (!n)
                {
                    n = 1;
                }
            }
            failing = r.chance(1, 5);
            const bool failed = failing;
            exhausted = false;
            const std::size_t had = os.size(), refused = refusals;
            void* p;
            const char* how = "allocate";
            switch (r.below(6))
            {
                case 0:
                    p = um::aligned_malloc(n, a);
                    how = "aligned_malloc";
                    break;
                case 1:
                    a = alignof(std::max_align_t);
                    p = sys->allocate(n);
                    break;
                case 2:
                    switch (r.below(4))
                    {
                        case 0: p = typed<char>(sys, n, a); break;
                        case 1: p = typed<Obj<24, 8>>(sys, n, a); break;
                        case 2: p = typed<Obj<64, 64>>(sys, n, a); break;
                        default: p = typed<Obj<512, 256>>(sys, n, a); break;
                    }
                    how = "allocate<T>";
                    break;
                default: p = sys->allocate(n, a); break;
            }
            vm::op("%s(%zu, %zu)%s -> %p", how, n, a,
                   failing ? " under failure" : "", p);
            failing = false;
            if (!p)
            {
                VM_CHECK(!n || refusals != refused, "false-exhaustion",
                         "null although the system did not refuse");
                const bool able = !failed && n && n <= kMostSize / 4 &&
                                  a <= kMostAlign / 4;
                VM_CHECK(!able || exhausted, "false-exhaustion",
                         "null although the system is able to grant %zu bytes "
                         "aligned to %zu",
                         n, a);
                VM_CHECK(os.size() == had || !n, "leak",
                         "storage was obtained but not returned");
                vm::count("refusals");
                vm::state(vm::mix(n) ^ a);
                continue;
            }
            const auto u = reinterpret_cast<std::uintptr_t>(p);
            VM_CHECK(os.count(p), "not-from-system",
                     "%p was not handed out by the system", p);
            VM_CHECK(u % a == 0, "misaligned", "%p, asked for %zu", p, a);
            VM_CHECK(os[p].size >= n, "too-small", "%zu bytes for %zu",
                     os[p].size, n);
            VM_CHECK(os.size() == had + 1, "leak", "more than one block taken");
            auto* b = static_cast<std::byte*>(p);
            for (auto& l: live)
            {
                VM_CHECK(b + n <= l.p || l.p + l.size <= b, "overlap",
                         "[%p, +%zu) with [%p, +%zu)", p, n,
                         static_cast<void*>(l.p), l.size);
            }
            for (std::size_t i = 0; i < n; i = next(i, n))
            {
                b[i] = pattern(k, i);
            }
            live.push_back({b, n, a, k});
            vm::count("allocations");
            vm::state(vm::mix(n * 64 + static_cast<unsigned>(
                                           __builtin_ctzll(a))) ^
                      live.size());
        }
        else if (what < 90)
        {
            if (live.empty())
            {
                continue;
            }
            const std::size_t i = r.below(live.size());
            const Live l = live[i];
            for (std::size_t c = 0; c < l.size; c = next(c, l.size))
            {
                VM_CHECK(l.p[c] == pattern(l.id, c), "contents",
                         "byte %zu of %zu changed", c, l.size);
            }
            live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
            freed.clear();
            if (r.chance(1, 4))
            {
                um::aligned_free(l.p);
            }
            else
            {
                sys->deallocate(l.p);
            }
            vm::op("deallocate(%p)", static_cast<void*>(l.p));
            vm::count("deallocations");
            VM_CHECK(freed.size() == 1 && freed[0] == l.p, "not-returned",
                     "%zu pointers given back to the system", freed.size());
        }
        else if (what < 93)
        {
            // null is ignored
            const std::size_t had = os.size();
            sys->deallocate(nullptr);
            um::aligned_free(nullptr);
            VM_CHECK(os.size() == had, "foreign-free", "freed for null");
        }
        else
        {
            const std::size_t had = os.size();
            const std::size_t n = r.any_width(64);
            const std::size_t a = std::size_t{1} << r.below(64);
            void* p = r.chance(1, 3) ? nul->allocate(n) : nul->allocate(n, a);
            vm::op("null resource: allocate(%zu, %zu) -> %p", n, a, p);
            VM_CHECK(!p, "null-resource", "handed out %p", p);
            VM_CHECK(!nul->allocate<double>(), "null-resource", "typed");
            nul->deallocate(live.empty() ? nullptr : live.back().p);
            nul->deallocate(nullptr);
            VM_CHECK(os.size() == had, "null-resource",
                     "touched the system's storage");
            vm::count("null resource operations");
        }
        VM_CHECK(os.size() >= live.size(), "double-use", "%zu for %zu regions",
                 os.size(), live.size());
    }
    for (auto& l: live)
    {
        for (std::size_t c = 0; c < l.size; c = next(c, l.size))
        {
            VM_CHECK(l.p[c] == pattern(l.id, c), "contents",
                     "byte %zu of %zu changed", c, l.size);
        }
        sys->deallocate(l.p);
    }
    VM_CHECK(os.empty(), "leak", "%zu blocks not given back", os.size());
}
}  // namespace

int main(int argc, char** argv)
{
    sysops::memory::ops::memalign_hook = os_memalign;
    sysops::memory::ops::free_hook = os_free;
    return vm::run_main(argc, argv, run);
}
