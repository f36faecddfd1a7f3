// M01, M02, M03, M13: histories of operations on the block resource.
#include "block_rig.h"

#ifndef MONITORS
#define MONITORS 15
#endif

template <std::size_t N, std::size_t BS>
void run(vm::Rng& r, std::uint64_t)
{
    rig::BlockRig<N, BS, MONITORS> g(r);
    if (MONITORS & rig::kGeometry)
    {
        switch (r.below(8))
        {
            case 0: g.len = r.below(2 * BS + 1); break;
            case 1: g.len = 0; break;
            case 2: g.buf = nullptr; break;
            default: break;
        }
        if (!g.buf)
        {
            const std::size_t n = g.len;
            g.geometry();
            vm::op("null buffer, size %zu", n);
            typename decltype(g)::Res res(nullptr, n, nullptr);
            VM_CHECK(!res.data() && !res.size(), "geometry",
                     "null buffer, but data %p size %zu",
                     static_cast<const void*>(res.data()), res.size());
            VM_CHECK(!res.allocate(1 + r.below(100), 1), "geometry",
                     "allocated without a buffer");
            res.deallocate(nullptr);
            res.release();
            VM_CHECK(res == res && !(res != res), "geometry", "equality");
            vm::count("null buffers");
            vm::state(vm::mix(n + N * 7 + BS));
            return;
        }
        g.geometry();
        g.snapshot();
    }
    g.construct(nullptr);
    if (!g.blocks)
    {
        vm::count("resources without blocks");
        VM_CHECK(!g.res->allocate(1 + r.below(100), 1), "out-of-bounds",
                 "allocated without blocks");
        g.do_release();
    }
    else
    {
        g.history(20 + r.below((vm::State::get().thorough ? 400 : 120)));
    }
    g.finish();
}

template <std::size_t N, std::size_t BS>
void run_array(vm::Rng& r)
{
    // the constructors that take arrays
    struct
    {
        alignas(4096) std::byte pre[64];
        std::byte a[N * BS + 3];
    } s;
    auto& a = s.a;
    const auto u = reinterpret_cast<std::uintptr_t>(&a[0]);
    const std::size_t skip = (BS - u % BS) % BS;
    std::size_t n = sizeof a > skip ? (sizeof a - skip) / BS : 0;
    n = n > N ? N : n;
    utils::memory::simple_resource<N, BS> x(a, nullptr), y(a);
    VM_CHECK((n ? x.data() == a + skip : !x.data()) && x.size() == n * BS,
             "geometry", "array of %zu", sizeof a);
    VM_CHECK(x.data() == y.data() && x.size() == y.size(), "geometry",
             "array constructors differ");
    VM_CHECK(x == x && y == y && x != y, "geometry", "equality");
    void* p = x.allocate(1 + r.below(N * BS / 2), 1);
    x.deallocate(p);
    vm::op("array of %zu bytes, %zu blocks of %zu", sizeof a, n, BS);
    vm::state(vm::mix(sizeof a * 31 + BS));
}

// Buffers far larger than the maximum, and any buffer at all whose bytes can be
// neither read nor written: whatever the resource does, it never touches them.
template <std::size_t N, std::size_t BS>
void run_untouchable(vm::Rng& r)
{
    using rig::kSpace;
    using rig::space;
    if (!space())
    {
        vm::count("no address space");
        return;
    }
    std::byte* buf = space() + (r.chance(1, 2) ? r.any_width(20) : 0);
    const std::size_t most =
        kSpace - static_cast<std::size_t>(buf - space());
    std::size_t len = std::min<std::size_t>(r.any_width(42), most);
    switch (r.below(4))
    {
        case 0:
        {
            // the number of blocks is a multiple of 2^32, 2^16, 2^8 and a bit
            const unsigned w = r.chance(1, 2) ? 32 : r.chance(1, 2) ? 16 : 8;
            len = ((std::size_t{1 + r.below(3)} << w) + r.below(N + 2)) * BS;
            break;
        }
        case 1: len = (std::size_t{1} << (8 + r.below(34))) + r.below(BS); break;
        default: break;
    }
    len = std::min(len, most);
    const auto u = reinterpret_cast<std::uintptr_t>(buf);
    const std::size_t skip = (BS - u % BS) % BS;
    const std::size_t blocks =
        std::min<std::size_t>(len > skip ? (len - skip) / BS : 0, N);
    utils::memory::simple_resource<N, BS> x(buf, len, nullptr);
    vm::op("untouchable buffer %p, %zu bytes, blocks of %zu", buf, len, BS);
    VM_CHECK((blocks ? x.data() == buf + skip : !x.data()) &&
                 x.size() == blocks * BS,
             "geometry", "%zu bytes: %zu blocks of %zu instead of %zu", len,
             x.size() / BS, BS, blocks);
    std::vector<std::byte*> live;
    for (std::size_t k = 0; blocks && k < 12; ++k)
    {
        if (live.empty() || r.chance(2, 3))
        {
            const std::size_t n = 1 + r.below(2 * BS);
            auto* p = static_cast<std::byte*>(
                x.allocate(n, std::size_t{1} << r.below(13)));
            if (p)
            {
                VM_CHECK(p >= buf + skip && p + n <= buf + skip + blocks * BS,
                         "out-of-bounds", "[%p, +%zu)", p, n);
                live.push_back(p);
            }
        }
        else
        {
            x.deallocate(live.back());
            live.pop_back();
        }
    }
    x.release();
    vm::count("untouchable buffers");
    vm::state(vm::mix(len * 31 + BS) ^ N);
}

// Histories in buffers of many GiB.
template <std::size_t N, std::size_t BS>
void run_sparse(vm::Rng& r)
{
    if (!rig::space())
    {
        vm::count("no address space");
        return;
    }
    rig::BlockRig<N, BS, MONITORS | rig::kSparse> g(r);
    if (g.blocks && static_cast<std::size_t>(g.first - g.buf) +
            (g.blocks + 1) * BS > std::size_t{1} << 32)
    {
        vm::count("buffers beyond 4 GiB");
    }
    g.construct(nullptr);
    if (g.blocks)
    {
        g.history(20 + r.below(80));
    }
    g.finish();
    vm::count("sparse buffers");
}

// One small resource for a very long time: whatever it counts wraps around.
template <std::size_t N, std::size_t BS>
void run_long(vm::Rng& r)
{
    rig::BlockRig<N, BS, MONITORS> g(r);
    g.buf = rig::arena() + 4096 + r.below(2) * r.below(BS);
    g.len = (2 + r.below(std::min<std::size_t>(N, 8))) * BS;
    g.geometry();
    g.snapshot();
    g.construct(nullptr);
    const std::size_t rounds =
        vm::State::get().thorough && r.chance(1, 4) ? 560000 : 70000;
    // mostly one region at a time, now and then many; or release() each time
    const bool release = r.chance(1, 4);
    const std::size_t most = 1 + r.below(3);
    for (std::size_t k = 0; k < rounds && g.blocks; ++k)
    {
        if (r.below(64) == 0)
        {
            g.step(60);
            continue;
        }
        g.do_alloc(1 + r.below(BS + BS / 4), 1);
        while (g.live.size() >= most)
        {
            if (release)
            {
                g.do_release();
            }
            else
            {
                g.do_free(g.pick_live());
            }
        }
    }
    g.finish();
    vm::count("histories of 70000 allocations and more");
}

int main(int argc, char** argv)
{
    using fn = void (*)(vm::Rng&, std::uint64_t);
    static const fn geometries[] = {
        run<2, 8>,     run<3, 1>,    run<5, 16>,   run<8, 64>,   run<32, 8>,
        run<128, 4>,   run<255, 2>,  run<256, 4>,  run<257, 1>,  run<300, 32>,
        run<7, 4096>,  run<1000, 1>, run<16, 256>,
#ifdef THOROUGH
        run<4, 2>,     run<64, 16>,  run<129, 8>,  run<512, 2>,  run<4096, 8>,
        run<65536, 1>, run<65537, 1>, run<2, 32768>,
#endif
    };
    return vm::run_main(argc, argv,
                        [](vm::Rng& r, std::uint64_t i)
                        {
                            constexpr std::size_t n =
                                sizeof geometries / sizeof geometries[0];
                            if (i % 1000 == 400)
                            {
                                switch (r.below(4))
                                {
                                    case 0: run_long<2, 16>(r); break;
                                    case 1: run_long<5, 64>(r); break;
                                    case 2: run_long<8, 8>(r); break;
                                    default: run_long<300, 16>(r); break;
                                }
                                return;
                            }
                            if (i % 16 == 5)
                            {
                                switch (r.below(8))
                                {
                                    case 0: run_sparse<5, std::size_t{1} << 30>(r); break;
                                    case 1: run_sparse<3, std::size_t{1} << 32>(r); break;
                                    case 2: run_sparse<17, std::size_t{1} << 29>(r); break;
                                    case 3: run_sparse<130, std::size_t{1} << 26>(r); break;
                                    case 4: run_sparse<300, std::size_t{1} << 24>(r); break;
                                    case 5: run_sparse<64, std::size_t{1} << 31>(r); break;
                                    case 6: run_sparse<256, std::size_t{1} << 27>(r); break;
                                    default:
                                        run_sparse<9, std::size_t{1} << 35>(r);
                                        break;
                                }
                                return;
                            }
                            if ((MONITORS & rig::kGeometry) && i % 16 == 7)
                            {
                                switch (r.below(4))
                                {
                                    case 0: run_array<32, 8>(r); break;
                                    case 1: run_array<7, 64>(r); break;
                                    case 2: run_array<3, 1>(r); break;
                                    default: run_array<256, 16>(r); break;
                                }
                                return;
                            }
                            if ((MONITORS & rig::kGeometry) && i % 8 == 3)
                            {
                                switch (r.below(8))
                                {
                                    case 0: run_untouchable<2, 8>(r); break;
                                    case 1: run_untouchable<32, 8>(r); break;
                                    case 2: run_untouchable<7, 64>(r); break;
                                    case 3: run_untouchable<300, 1>(r); break;
                                    case 4: run_untouchable<255, 2>(r); break;
                                    case 5: run_untouchable<256, 16>(r); break;
                                    case 6: run_untouchable<257, 4>(r); break;
                                    default:
                                        run_untouchable<5, 4096>(r);
                                        break;
                                }
                                return;
                            }
                            geometries[r.below(n)](r, i);
                        });
}
