// M06: the monotonic buffer resource.
#include "block_rig.h"

#include <utils/memory/monotonic_buffer_resource.h>

namespace
{
using utils::memory::monotonic_buffer_resource;

struct Region
{
    std::byte* p;
    std::size_t size;
    std::uint64_t id;
};

// Buffers of any size whose bytes can be neither read nor written: whatever
// the resource does, it never touches them.
void untouchable(vm::Rng& r)
{
    constexpr std::size_t kSpace = std::size_t{1} << 42;
    static std::byte* space = []
    {
        void* m = mmap(nullptr, kSpace, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return m == MAP_FAILED ? nullptr : static_cast<std::byte*>(m);
    }();
    if (!space)
    {
        vm::count("no address space");
        return;
    }
    std::byte* buf = space + (r.chance(1, 2) ? r.any_width(20) : 0);
    const std::size_t len = std::min<std::size_t>(
        1 + r.any_width(42), kSpace - static_cast<std::size_t>(buf - space));
    monotonic_buffer_resource m(buf, len, nullptr);
    vm::op("untouchable buffer %p, %zu bytes", buf, len);
    VM_CHECK(m.data() == buf && m.size() == len, "geometry",
             "reports [%p, +%zu)", static_cast<const void*>(m.data()),
             m.size());
    std::uintptr_t next = reinterpret_cast<std::uintptr_t>(buf);
    const std::uintptr_t end = next + len;
    for (std::size_t k = 0; k < 20; ++k)
    {
        if (r.chance(1, 16))
        {
            m.release();
            next = reinterpret_cast<std::uintptr_t>(buf);
            continue;
        }
        const std::size_t left = end - next;
        const std::size_t align = std::size_t{1} << r.below(44);
        const std::uintptr_t skip = (0 - next) & (align - 1);
        std::size_t size = r.any_width(42);
        switch (r.below(6))
        {
            case 0: size = left; break;
            case 1: size = left > skip ? left - skip : 1; break;
            case 2: size = left > skip ? left - skip + 1 : 1; break;
            case 3: size = left / (1 + r.below(9)); break;
            default: break;
        }
        const bool fits = size && skip <= left && size <= left - skip;
        auto* p = static_cast<std::byte*>(rig::ask(m, size, align));
        vm::op("allocate(%zu, %zu) at +%zu -> %p", size, align,
               static_cast<std::size_t>(
                   next - reinterpret_cast<std::uintptr_t>(buf)),
               static_cast<void*>(p));
        VM_CHECK((p != nullptr) == fits, "false-exhaustion",
                 "%zu bytes aligned to %zu with %zu left (%zu padding) gave %p",
                 size, align, left, static_cast<std::size_t>(skip),
                 static_cast<void*>(p));
        if (p)
        {
            VM_CHECK(reinterpret_cast<std::uintptr_t>(p) == next + skip,
                     "wasted-space", "placed at %p, not at the next place",
                     static_cast<void*>(p));
            next += skip + size;
        }
        m.deallocate(p);
        vm::state(vm::mix(left) ^ size);
    }
    vm::count("untouchable buffers");
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (i % 8 == 5)
    {
        untouchable(r);
        return;
    }
    constexpr std::size_t kGuard = 256;
    std::byte* buf = rig::arena() + 4096 + r.below(4096);
    if (r.chance(1, 2))
    {
        buf = rig::arena() + (std::size_t{1} << (12 + r.below(5)));
    }
    std::size_t len = r.any_width(13);
    bool null = false;
    if (r.chance(1, 12))
    {
        len = 0;
        null = true;
    }
    else if (r.chance(1, 12))
    {
        null = true;
    }
    else if (!len)
    {
        null = true;
    }
    std::vector<std::byte> image(len + 2 * kGuard);
    for (std::size_t k = 0; k < image.size(); ++k)
    {
        image[k] = rig::pat(7, k);
    }
    std::memcpy(buf - kGuard, image.data(), image.size());
    std::byte* given = null && len ? nullptr : buf;

    alignas(monotonic_buffer_resource) unsigned char st[sizeof(
        monotonic_buffer_resource)];
    auto* m = new (st) monotonic_buffer_resource(given, len, nullptr);
    vm::op("monotonic(%p, %zu)", static_cast<void*>(given), len);
    if (null)
    {
        vm::count("empty buffers");
        VM_CHECK(m->size() == 0, "geometry", "size %zu of an empty buffer",
                 m->size());
    }
    else
    {
        VM_CHECK(m->data() == buf && m->size() == len, "geometry",
                 "reports [%p, +%zu)", static_cast<const void*>(m->data()),
                 m->size());
    }
    VM_CHECK(*m == *m && !(*m != *m), "geometry", "not equal to itself");
    std::uintptr_t next = reinterpret_cast<std::uintptr_t>(buf);
    const std::uintptr_t end = next + (null ? 0 : len);
    std::vector<Region> live;
    const auto check = [&]
    {
        const std::byte* now = buf - kGuard;
        if (std::memcmp(now, image.data(), image.size()))
        {
            for (std::size_t k = 0; k < image.size(); ++k)
            {
                VM_CHECK(now[k] == image[k], "stray-write",
                         "byte at buffer offset %td changed",
                         static_cast<std::ptrdiff_t>(k) -
                             static_cast<std::ptrdiff_t>(kGuard));
            }
        }
    };
    // one resource for a very long time, now and then
    const bool very_long = i % 2500 == 1234;
    const std::size_t steps = very_long ? 220000 : 10 + r.below(80);
    const std::uint64_t allocates = very_long ? 50 : 85;
    const std::uint64_t deallocates = very_long ? 60 : 96;
    if (very_long)
    {
        vm::count("histories of 220000 operations");
    }
    const unsigned big = static_cast<unsigned>(1 + r.below(200));
    for (std::size_t s = 0; s < steps; ++s)
    {
        const auto k = r.below(100);
        if (k < allocates)
        {
            const std::size_t left = end - next;
            const std::size_t align =
                std::size_t{1}
                << (r.chance(1, 6) ? r.below(64) : r.below(r.chance(1, 2) ? 4 : 10));
            const std::uintptr_t skip = (0 - next) & (align - 1);
            std::size_t size;
            switch (r.below(10))
            {
                case 0: size = 0; break;
                case 1: size = left; break;
                case 2: size = left >= skip ? left - skip : 1; break;
                case 3: size = left >= skip ? left - skip + 1 : 1; break;
                case 4: size = r.any_width(64); break;
                case 5: size = SIZE_MAX - r.any_width(14); break;
                case 6:
                    // wraps around to an address inside the buffer
                    size = 0 - (next + skip) +
                           reinterpret_cast<std::uintptr_t>(buf) +
                           r.below(len + 1);
                    break;
                default: size = 1 + r.below(big); break;
            }
            const bool fits =
                size && skip <= left && size <= left - skip;
            auto* p = static_cast<std::byte*>(rig::ask(*m, size, align));
            vm::op("allocate(%zu, %zu) at %td -> %p", size, align,
                   static_cast<std::ptrdiff_t>(
                       next - reinterpret_cast<std::uintptr_t>(buf)),
                   static_cast<void*>(p));
            vm::count(p ? "allocations" : "refusals");
            if (p)
            {
                const auto u = reinterpret_cast<std::uintptr_t>(p);
                VM_CHECK(u % align == 0, "misaligned", "%p, asked for %zu",
                         static_cast<void*>(p), align);
                VM_CHECK(size && u >= reinterpret_cast<std::uintptr_t>(buf) &&
                             u < end && size <= end - u,
                         "out-of-bounds", "[%p, +%zu) in [%p, +%zu)",
                         static_cast<void*>(p), size, static_cast<void*>(buf),
                         len);
                for (auto& l: live)
                {
                    VM_CHECK(p + size <= l.p || l.p + l.size <= p, "overlap",
                             "[%p, +%zu) with [%p, +%zu)",
                             static_cast<void*>(p), size,
                             static_cast<void*>(l.p), l.size);
                }
                VM_CHECK(u == next + skip, "wasted-space",
                         "placed at +%zu with only %zu bytes of padding needed",
                         static_cast<std::size_t>(u - next),
                         static_cast<std::size_t>(skip));
                live.push_back({p, size, s});
                for (std::size_t b = 0; b < size; ++b)
                {
                    p[b] = rig::pat(s + 100, b);
                }
                std::memcpy(image.data() + kGuard + (p - buf), p, size);
                next = u + size;
            }
            VM_CHECK((p != nullptr) == fits, "false-exhaustion",
                     "%zu bytes aligned to %zu with %zu left (%zu padding) "
                     "gave %p",
                     size, align, left, static_cast<std::size_t>(skip),
                     static_cast<void*>(p));
        }
        else if (k < deallocates)
        {
            void* p = live.empty() || r.chance(1, 4)
                          ? nullptr
                          : live[r.below(live.size())].p;
            m->deallocate(p);
            vm::op("deallocate(%p)", p);
        }
        else
        {
            m->release();
            vm::op("release()");
            vm::count("releases");
            live.clear();
            next = reinterpret_cast<std::uintptr_t>(buf);
        }
        check();
        vm::state(vm::mix((end - next) * 1024 + (next & 1023)) ^ live.size());
    }
    m->~monotonic_buffer_resource();
    check();

    if (i % 64 == 3)
    {
        alignas(32) std::byte a[96];
        monotonic_buffer_resource x(a, nullptr), y(a);
        VM_CHECK(x.data() == a && x.size() == 96 && y.data() == a &&
                     y.size() == 96 && x != y,
                 "geometry", "array constructors");
        VM_CHECK(x.allocate(96, 32) == a && !x.allocate(1, 1), "geometry",
                 "array of 96 bytes");
        x.release();
        VM_CHECK(x.allocate(1, 1) == a, "geometry", "after release");
    }
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
