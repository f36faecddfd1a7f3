// A fixed-buffer block resource under observation: buffer with canaries, the
// set of live regions as the user knows it, and the monitors over both.
#pragma once
#include "vmon.h"

#include <utils/memory/memory.h>
#include <utils/memory/simple_resource.h>

namespace rig
{
using utils::memory::memory_resource;

inline std::byte* arena()
{
    // 1 MiB aligned address range, enough for the largest geometry
    static std::byte* base = []
    {
        constexpr std::size_t kSize = std::size_t{8} << 20;
        void* p = mmap(nullptr, kSize, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            _exit(3);
        }
        auto u = reinterpret_cast<std::uintptr_t>(p);
        u = (u + (1u << 20) - 1) & ~std::uintptr_t{(1u << 20) - 1};
        return reinterpret_cast<std::byte*>(u);
    }();
    return base;
}

// Every way there is to ask for a region: by size and alignment, by size alone
// and by type.
template <std::size_t N>
struct alignas(N) Typed
{
    char c[N];
};
inline void* ask(memory_resource& res, std::size_t size, std::size_t align)
{
    if (size == align)
    {
        switch (size)
        {
            case 1: return res.allocate<Typed<1>>();
            case 2: return res.allocate<const Typed<2>>();
            case 4: return res.allocate<Typed<4>>();
            case 8: return res.allocate<Typed<8>>();
            case 16: return res.allocate<Typed<16>>();
            case 32: return res.allocate<Typed<32>>();
            case 64: return res.allocate<Typed<64>>();
            case 128: return res.allocate<Typed<128>>();
            case 256: return res.allocate<Typed<256>>();
            default: break;
        }
    }
    if (align == alignof(std::max_align_t) && size % 2)
    {
        return res.allocate(size);
    }
    return res.allocate(size, align);
}

inline std::size_t align_of_address(const void* p)
{
    const auto u = reinterpret_cast<std::uintptr_t>(p);
    return static_cast<std::size_t>(u & (~u + 1));
}

inline std::byte pat(std::uint64_t id, std::size_t i)
{
    return static_cast<std::byte>((id * 37 + i * 11 + (i >> 8) * 5 + 1) & 0xff);
}

struct Live
{
    std::byte* p;
    std::size_t size;
    std::size_t align;
    std::uint64_t id;
};

enum Mon : unsigned
{
    kRegions = 1,  // M01
    kMap = 2,      // M02
    kFit = 4,      // M03
    kGeometry = 8, // M13
    kSparse = 16   // in far larger buffers, whose bytes cannot be touched
};

// Address space that can be neither read nor written.
constexpr std::size_t kSpace = std::size_t{1} << 42;
inline std::byte* space()
{
    static std::byte* p = []
    {
        void* m = mmap(nullptr, kSpace, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return m == MAP_FAILED ? nullptr : static_cast<std::byte*>(m);
    }();
    return p;
}
// The same from a low address on, where it is to be had.
constexpr std::size_t kLowSpace = std::size_t{1} << 35;
inline std::byte* low_space()
{
    static std::byte* p = []
    {
        void* const at = reinterpret_cast<void*>(std::uintptr_t{1} << 20);
        void* m = mmap(at, kLowSpace, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return m == MAP_FAILED ? nullptr : static_cast<std::byte*>(m);
    }();
    return p;
}

template <std::size_t N, std::size_t BS, unsigned Monitors>
struct BlockRig
{
    using Res = utils::memory::simple_resource<N, BS>;
    using BIndex = typename Res::BIndex;

    vm::Rng& r;
    std::byte* buf;
    std::size_t len;
    std::byte* first;    // expected first block
    std::size_t blocks;  // expected number of blocks
    alignas(Res) unsigned char storage[sizeof(Res)];
    Res* res = nullptr;
    std::vector<Live> live;
    std::vector<std::size_t> owned_size;  // by block
    std::uint64_t next_id = 1;
    static constexpr std::size_t kGuard = 512;
    std::vector<std::byte> image;  // expected guard + buffer + guard

    // Chooses a buffer. The address alignment varies from 1 to 64 KiB.
    explicit BlockRig(vm::Rng& rng) : r(rng)
    {
        if constexpr (Monitors & kSparse)
        {
            place();
            return;
        }
        const std::size_t a = std::size_t{1} << r.below(17);
        std::size_t off = (1 + r.below(3)) * a;
        if (r.chance(1, 3))
        {
            off += r.below(2 * BS + 2);
        }
        if (r.chance(1, 2))
        {
            off = (off + BS - 1) / BS * BS;
        }
        off += (kGuard / a + 1) * a;
        buf = arena() + off;
        std::size_t want;
        switch (r.below(4))
        {
            case 0: want = r.below(N + 4); break;
            case 1: want = N; break;
            case 2: want = r.below(N < 8 ? N + 1 : 9); break;
            default: want = 1 + r.below(N); break;
        }
        len = want * BS;
        switch (r.below(4))
        {
            case 0: len += r.below(BS); break;
            case 1: len += 2 * BS; break;
            case 2: len = len ? len - 1 : 0; break;
            default: break;
        }
        geometry();
        snapshot();
    }

    void place()
    {
        const bool low = low_space() && r.chance(1, 3);
        std::byte* const from = low ? low_space() : space();
        const std::size_t most = low ? kLowSpace : kSpace;
        std::size_t off = 0;
        switch (r.below(4))
        {
            case 0: break;
            case 1: off = r.any_width(31); break;
            case 2: off = std::size_t{1} << r.below(32); break;
            default:
            {
                // the blocks lie around a multiple of 4 GiB
                const auto u = reinterpret_cast<std::uintptr_t>(from);
                off = (std::uintptr_t{1} << 32) - u % (std::uintptr_t{1} << 32);
                const std::size_t back = r.below(N + 1) * BS;
                off = off > back ? off - back : off;
                break;
            }
        }
        buf = from + off;
        len = r.chance(1, 4) ? r.any_width(36)
                             : (1 + r.below(N + 2)) * BS + r.below(BS);
        len = std::min(len, most - off);
        geometry();
    }

    // (re)initializes the buffer and its surroundings
    void snapshot()
    {
        image.resize(len + 2 * kGuard);
        for (std::size_t i = 0; i < image.size(); ++i)
        {
            image[i] = pat(9000, i);
        }
        std::memcpy(buf - kGuard, image.data(), image.size());
    }

    void geometry()
    {
        const auto u = reinterpret_cast<std::uintptr_t>(buf);
        const std::size_t skip = (BS - u % BS) % BS;
        blocks = buf && len > skip ? (len - skip) / BS : 0;
        blocks = blocks > N ? N : blocks;
        first = blocks ? buf + skip : nullptr;
    }

    ~BlockRig()
    {
        if (res)
        {
            res->~Res();
        }
    }

    void construct(memory_resource* upstream)
    {
        vm::op("simple_resource<%zu,%zu>(%p, %zu): %zu blocks", N, BS,
               static_cast<void*>(buf), len, blocks);
        res = new (storage) Res(buf, len, upstream);
        after(true);
    }

    // runs of consecutive free blocks according to the resource's own map
    template <typename F>
    void free_runs(F&& f) const
    {
        const Res& c = *res;
        std::size_t i = 0, steps = 0;
        while (blocks)
        {
            const std::size_t n = c.block_size(static_cast<BIndex>(i));
            if (!c.in_use(static_cast<BIndex>(i)))
            {
                f(i, n);
            }
            const std::size_t next = c.at(static_cast<BIndex>(i)).next_index();
            if (!next || next <= i || ++steps > blocks)
            {
                break;
            }
            i = next;
        }
    }

    bool fits(std::size_t size, std::size_t align) const
    {
        bool ok = false;
        free_runs(
            [&](std::size_t b, std::size_t n)
            {
                const auto lo = reinterpret_cast<std::uintptr_t>(first + b * BS);
                const auto hi = lo + n * BS;
                const auto p = (lo + align - 1) / align * align;
                ok = ok || (p >= lo && p < hi && size <= hi - p);
            });
        return ok;
    }

    // Every buffer of this size and alignment contains an address aligned so.
    // What is aligned to more may or may not be there.
    std::size_t guaranteed_alignment() const
    {
        if (!first)
        {
            return 0;
        }
        const auto reach = align_of_address(first) + blocks * BS - 1;
        std::size_t a = 1;
        while (a <= reach / 2)
        {
            a *= 2;
        }
        return a;
    }

    std::size_t pick_size()
    {
        switch (r.below(12))
        {
            case 0: return 0;
            case 1: return r.chance(1, 2) ? 1 : std::size_t{1} << r.below(9);
            case 2: return BS;
            case 3: return BS * (1 + r.below(4));
            case 4: return BS * (1 + r.below(4)) + r.below(3) - 1;
            case 5:
            {  // exactly one of the free runs, or nearly
                std::vector<std::size_t> s;
                free_runs([&](std::size_t, std::size_t n) { s.push_back(n); });
                const std::size_t n =
                    s.empty() ? blocks + 1 : s[r.below(s.size())];
                return n * BS + (r.chance(1, 2) ? 0 : r.below(2 * BS)) -
                       (r.chance(1, 4) ? BS - 1 : 0);
            }
            case 6: return r.below(blocks * BS + 2);
            case 7:
                return r.chance(1, 3) ? SIZE_MAX - r.any_width(20)
                                      : r.any_width(64);
            default: return 1 + r.below(3 * BS);
        }
    }

    std::size_t pick_align()
    {
        switch (r.below(8))
        {
            case 0: return std::size_t{1} << r.below(64);
            case 1:
            case 2: return std::size_t{1} << r.below(14);
            case 3: return BS;
            case 4:
                return r.chance(1, 2) ? std::max<std::size_t>(guaranteed_alignment(), 1)
                       : first        ? align_of_address(first)
                                      : 1;
            case 5:
                if constexpr (Monitors & kSparse)
                {
                    return std::size_t{1} << r.below(43);
                }
                [[fallthrough]];
            default: return std::size_t{1} << r.below(5);
        }
    }

    void* do_alloc(std::size_t size, std::size_t align)
    {
        const bool expect = size && align <= guaranteed_alignment() &&
                            fits(size, align);
        auto* p = static_cast<std::byte*>(ask(*res, size, align));
        vm::op("allocate(%zu, %zu) -> %p (block %td)", size, align,
               static_cast<void*>(p), p && BS ? (p - first) / static_cast<std::ptrdiff_t>(BS) : -1);
        vm::count(p ? "allocations" : "refusals");
        if constexpr (Monitors & kFit)
        {
            if (expect)
            {
                vm::count("requests that fit");
                VM_CHECK(p, "false-exhaustion",
                         "request of %zu bytes aligned to %zu refused although "
                         "a free run of blocks holds it",
                         size, align);
            }
        }
        if (!p)
        {
            return nullptr;
        }
        if constexpr (Monitors & kRegions)
        {
            VM_CHECK(size, "region-for-nothing", "non-null for a size of 0");
            VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0 &&
                         reinterpret_cast<std::uintptr_t>(p) % BS == 0,
                     "misaligned", "%p is not aligned to %zu and %zu",
                     static_cast<void*>(p), align, BS);
        }
        // Without this nothing below is safe to do, whatever is monitored.
        VM_CHECK(blocks && p >= first && p < first + blocks * BS &&
                     size <= static_cast<std::size_t>(first + blocks * BS - p),
                 "out-of-bounds", "region [%p, +%zu) outside of [%p, +%zu)",
                 static_cast<void*>(p), size, static_cast<void*>(first),
                 blocks * BS);
        for (auto& l: live)
        {
            VM_CHECK(p + size <= l.p || l.p + l.size <= p, "overlap",
                     "region [%p, +%zu) overlaps live [%p, +%zu)",
                     static_cast<void*>(p), size, static_cast<void*>(l.p),
                     l.size);
        }
        if constexpr (Monitors & kFit)
        {
            if (align <= BS)
            {
                const std::size_t want = (size + BS - 1) / BS;
                const std::size_t got = static_cast<const Res&>(*res).block_size(
                    static_cast<BIndex>((p - first) / static_cast<std::ptrdiff_t>(BS)));
                VM_CHECK(got == want, "wasted-blocks",
                         "request of %zu bytes uses %zu blocks of %zu, not %zu",
                         size, got, BS, want);
            }
        }
        live.push_back({p, size, align, next_id++});
        fill(live.back());
        after(false);
        return p;
    }

    void fill([[maybe_unused]] const Live& l)
    {
        if constexpr (Monitors & kSparse)
        {
            return;
        }
        for (std::size_t i = 0; i < l.size; ++i)
        {
            l.p[i] = pat(l.id, i);
        }
        std::memcpy(image.data() + kGuard + (l.p - buf), l.p, l.size);
    }

    void verify([[maybe_unused]] const Live& l)
    {
        if constexpr (!(Monitors & kSparse) &&
                      Monitors & (kRegions | kGeometry))
        {
            for (std::size_t i = 0; i < l.size; ++i)
            {
                VM_CHECK(l.p[i] == pat(l.id, i), "contents-changed",
                         "byte %zu of live region %p changed", i,
                         static_cast<void*>(l.p));
            }
        }
    }

    void restore([[maybe_unused]] const Live& l)
    {
        if constexpr (Monitors & kSparse)
        {
            return;
        }
        // no longer the user's: give it a recognizable content again
        const std::size_t at = kGuard + static_cast<std::size_t>(l.p - buf);
        for (std::size_t i = 0; i < l.size; ++i)
        {
            l.p[i] = image[at + i] = pat(9000, at + i);
        }
    }

    void do_free(std::size_t k)
    {
        Live l = live[k];
        verify(l);
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
        vm::op("deallocate(%p) (block %td)", static_cast<void*>(l.p),
               (l.p - first) / static_cast<std::ptrdiff_t>(BS));
        res->deallocate(l.p);
        vm::count("deallocations");
        if constexpr (Monitors & (kRegions | kGeometry))
        {
            verify(l);  // the resource itself does not write into the buffer
        }
        restore(l);
        after(false);
    }

    void do_release()
    {
        vm::op("release() with %zu live", live.size());
        for (auto& l: live)
        {
            verify(l);
            restore(l);
        }
        live.clear();
        res->release();
        vm::count("releases");
        after(true);
    }

    void check_all_free()
    {
        if constexpr (Monitors & (kMap | kFit))
        {
            if (!blocks || !live.empty())
            {
                return;
            }
            const Res& c = *res;
            VM_CHECK(!c.in_use(0) && c.block_size(0) == blocks &&
                         c.free_count() == 1 && c.busy_count() == 0,
                     "not-coalesced",
                     "nothing is allocated, but block 0 is %s, its region has "
                     "%zu of %zu blocks, free %zu, busy %zu",
                     c.in_use(0) ? "in use" : "free", c.block_size(0), blocks,
                     c.free_count(), c.busy_count());
        }
    }

    // Monitors that look at the state after each operation.
    void after([[maybe_unused]] bool full)
    {
        const Res& c = *res;
        if constexpr (Monitors & kGeometry)
        {
            VM_CHECK(c.data() == first && c.size() == blocks * BS, "geometry",
                     "buffer [%p, +%zu), blocks of %zu, at most %zu: manages "
                     "[%p, +%zu) instead of [%p, +%zu)",
                     static_cast<void*>(buf), len, BS, N,
                     static_cast<const void*>(c.data()), c.size(),
                     static_cast<void*>(first), blocks * BS);
        }
        if constexpr (!(Monitors & kSparse) &&
                      Monitors & (kRegions | kGeometry))
        {
            if (full || len <= 4096)
            {
                check_untouched();
            }
        }
        std::uint64_t h = vm::mix(N * 131 + BS * 17 + blocks);
        if (blocks)
        {
            if constexpr (Monitors & kMap)
            {
                h = check_map(h);
            }
            else
            {
                free_runs([&](std::size_t b, std::size_t n)
                          { h = vm::mix(h ^ (b * 65599 + n)); });
            }
        }
        else
        {
            VM_CHECK(c.busy_count() == 0 && c.free_count() == 0, "counts",
                     "no blocks, but free %zu, busy %zu", c.free_count(),
                     c.busy_count());
        }
        vm::state(h);
        if (live.empty())
        {
            check_all_free();
        }
    }

    void check_untouched()
    {
        // live regions hold what the user stored, the rest is as at the start
        const std::byte* now = buf - kGuard;
        if (std::memcmp(image.data(), now, image.size()) == 0)
        {
            return;
        }
        for (std::size_t i = 0; i < image.size(); ++i)
        {
            VM_CHECK(image[i] == now[i], "stray-write",
                     "byte at buffer offset %td changed",
                     static_cast<std::ptrdiff_t>(i) -
                         static_cast<std::ptrdiff_t>(kGuard));
        }
    }

    std::uint64_t check_map(std::uint64_t h)
    {
        owned_size.assign(blocks, 0);
        for (auto& l: live)
        {
            owned_size[static_cast<std::size_t>(l.p - first) / BS] = l.size;
        }
        const Res& c = *res;
        std::size_t i = 0, prev = 0, covered = 0, busy = 0, free = 0;
        bool prev_free = false;
        for (;;)
        {
            const auto& info = c.at(static_cast<BIndex>(i));
            const bool used = c.in_use(static_cast<BIndex>(i));
            const std::size_t n = c.block_size(static_cast<BIndex>(i));
            VM_CHECK(info.prev_index() == prev, "bad-back-link",
                     "region at block %zu links back to %zu instead of %zu", i,
                     static_cast<std::size_t>(info.prev_index()), prev);
            VM_CHECK(n > 0 && i + n <= blocks, "bad-region",
                     "region at block %zu has %zu of %zu blocks", i, n, blocks);
            VM_CHECK(c.block_size_in_bytes(static_cast<BIndex>(i)) == n * BS,
                     "bad-byte-size", "region at %zu", i);
            covered += n;
            const std::size_t owned = owned_size[i];
            VM_CHECK(used == (owned != 0), "wrong-use-mark",
                     "region at block %zu is marked %s, but is %s", i,
                     used ? "in use" : "free", owned ? "allocated" : "not");
            VM_CHECK(owned <= n * BS, "region-too-small",
                     "allocation of %zu bytes in a region of %zu blocks", owned,
                     n);
            VM_CHECK(used || !prev_free || i == 0, "not-coalesced",
                     "free regions at blocks %zu and %zu are neighbours", prev,
                     i);
            prev_free = !used;
            (used ? busy : free)++;
            h = vm::mix(h ^ (i * 65599 + n * 2 + used));
            const std::size_t next = info.next_index();
            if (!next)
            {
                break;
            }
            VM_CHECK(next > i && next < blocks, "bad-forward-link",
                     "region at block %zu links to %zu of %zu", i, next,
                     blocks);
            VM_CHECK(next == i + n, "bad-region", "region %zu+%zu, next %zu", i,
                     n, next);
            prev = i;
            i = next;
        }
        VM_CHECK(covered == blocks, "not-a-partition",
                 "regions cover %zu of %zu blocks", covered, blocks);
        VM_CHECK(busy == live.size() && c.busy_count() == busy &&
                     c.free_count() == free,
                 "counts",
                 "%zu live, %zu regions in use, %zu free; reported busy %zu, "
                 "free %zu",
                 live.size(), busy, free, c.busy_count(), c.free_count());
        return h;
    }

    std::size_t pick_live()
    {
        switch (r.below(4))
        {
            case 0: return 0;
            case 1: return live.size() - 1;
            default: return r.below(live.size());
        }
    }

    // One random operation.
    void step(unsigned alloc_bias)
    {
        const auto k = r.below(100);
        if (k < 1)
        {
            do_release();
        }
        else if (k < 3)
        {
            vm::op("deallocate(nullptr)");
            res->deallocate(nullptr);
            after(false);
        }
        else if (live.empty() || r.below(100) < alloc_bias)
        {
            do_alloc(pick_size(), pick_align());
        }
        else
        {
            do_free(pick_live());
        }
    }

    // A random history.
    void history(std::size_t steps)
    {
        unsigned bias = 60;
        if (r.chance(1, 4) && blocks <= 2000)
        {
            // fill up with small regions, then punch holes
            const std::size_t mx = 1 + r.below(3);
            for (std::size_t i = 0; i < blocks + 1; ++i)
            {
                if (!do_alloc(1 + r.below(mx * BS), 1) && r.chance(1, 2))
                {
                    break;
                }
            }
            bias = 45;
        }
        else if (blocks > 1 && blocks <= 2000 && r.chance(1, 24))
        {
            // as many regions as there can be, then every other one given back,
            // and now and then these as well
            while (!live.empty())
            {
                do_free(live.size() - 1);
            }
            while (do_alloc(1 + r.below(BS), 1))
            {
            }
            const std::size_t odd = r.below(2);
            std::sort(live.begin(), live.end(),
                      [](const Live& a, const Live& b) { return a.p < b.p; });
            for (std::size_t i = live.size(); i-- > 0;)
            {
                if (i % 2 == odd)
                {
                    do_free(i);
                }
            }
            vm::count("combs");
        }
        for (std::size_t i = 0; i < steps; ++i)
        {
            if (r.chance(1, 24))
            {
                bias = 20 + static_cast<unsigned>(r.below(70));
            }
            step(bias);
        }
    }

    void finish()
    {
        if (r.chance(1, 2))
        {
            while (!live.empty())
            {
                do_free(pick_live());
            }
        }
        else
        {
            do_release();
        }
        after(true);
        if constexpr (Monitors & kFit)
        {
            if (blocks)
            {  // the whole capacity is back, as one piece and block by block
                VM_CHECK(do_alloc(blocks * BS, 1), "capacity-lost",
                         "the whole buffer cannot be allocated");
                do_free(0);
                if (blocks <= 600)
                {
                    for (std::size_t i = 0; i < blocks; ++i)
                    {
                        VM_CHECK(do_alloc(1 + r.below(BS), 1), "capacity-lost",
                                 "block %zu of %zu cannot be allocated", i,
                                 blocks);
                    }
                    VM_CHECK(!res->allocate(1, 1), "more-than-capacity",
                             "allocated more than %zu blocks", blocks);
                    while (!live.empty())
                    {
                        do_free(pick_live());
                    }
                    after(true);
                }
            }
        }
        vm::op("destroy");
        res->~Res();
        res = nullptr;
    }
};
}  // namespace rig
