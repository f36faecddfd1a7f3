// M04: misuse of the block resource aborts with a diagnostic, use does not.
// Every misuse is tried in a forked copy of a randomly reached state.
#include "block_rig.h"

namespace
{
void must_abort(const vm::Death& d, const char* what)
{
    vm::op("in a copy: %s -> %s", what,
           d.aborted ? "abort" : d.returned ? "returned" : "other end");
    vm::count(what);
    VM_CHECK(d.aborted, "misuse-not-detected",
             "%s: status 0x%x instead of abort; stderr: %s", what,
             static_cast<unsigned>(d.status), vm::printable(d.err).c_str());
    VM_CHECK(d.err.find("Sanitizer") == std::string::npos &&
                 d.err.find("runtime error:") == std::string::npos,
             "misuse-corrupts", "%s: %s", what, vm::printable(d.err).c_str());
    VM_CHECK(d.err.find("reason") != std::string::npos ||
                 d.err.find("ssertion") != std::string::npos,
             "no-diagnostic", "%s: aborted without a reason: '%s'", what,
             vm::printable(d.err).c_str());
#ifdef NDEBUG
    VM_CHECK(d.err.find("reason") != std::string::npos, "no-diagnostic",
             "%s: aborted without a reason: '%s'", what,
             vm::printable(d.err).c_str());
#endif
}

// Has nothing to give and takes whatever it gets: what the block resource does
// not refuse itself goes unnoticed.
class Careless : public utils::memory::memory_resource
{
    friend class utils::memory::memory_resource;

   public:
    Careless()
        : memory_resource(&Careless::allocate<Careless>,
                          &Careless::deallocate<Careless>)
    {
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }

   private:
    void* allocate_impl(std::size_t, std::size_t) noexcept { return nullptr; }
    void deallocate_impl(void*) noexcept {}
};

template <std::size_t N, std::size_t BS>
void run(vm::Rng& r, std::uint64_t)
{
    Careless careless;
    rig::BlockRig<N, BS, 0> g(r);
    const bool upstream = r.chance(1, 3);
    g.construct(upstream ? &careless : nullptr);
    std::vector<std::byte*> freed;
    const auto misuse = [&](const char* what, std::byte* p)
    {
        must_abort(vm::observe([&] { g.res->deallocate(p); }), what);
        vm::state(vm::mix(static_cast<std::uint64_t>(p - g.buf) * 977 +
                          g.live.size() * 31 + N) ^
                  vm::hash(what, std::strlen(what)));
    };
    const int rounds = 2;
    for (int round = 0; round < rounds; ++round)
    {
        const std::size_t steps = g.blocks ? 1 + r.below(60) : 0;
        if (round && g.blocks && r.chance(1, 25))
        {
            // used for a very long time first
            const bool release = r.chance(1, 4);
            for (std::size_t i = 0; i < 70000; ++i)
            {
                void* const p = g.res->allocate(1, 1);
                if (!p && g.live.empty())
                {
                    break;
                }
                if (release && g.live.empty())
                {
                    g.res->release();
                }
                else
                {
                    g.res->deallocate(p);
                }
            }
            vm::op("70000 allocations and deallocations");
            vm::count("long lives before");
        }
        for (std::size_t i = 0; i < steps; ++i)
        {
            const auto k = r.below(100);
            if (k < 2)
            {
                g.do_release();
            }
            else if (k < 60 || g.live.empty())
            {
                g.do_alloc(r.chance(1, 2) ? 1 + r.below(4 * BS) : g.pick_size(),
                           r.chance(3, 4) ? 1 : g.pick_align());
            }
            else
            {
                const std::size_t v = g.pick_live();
                freed.push_back(g.live[v].p);
                g.do_free(v);
            }
        }
        const auto is_live = [&](std::byte* p)
        {
            for (auto& l: g.live)
            {
                if (l.p == p)
                {
                    return true;
                }
            }
            return false;
        };
        if (!freed.empty())
        {
            std::byte* p = freed[r.below(freed.size())];
            if (!is_live(p))
            {
                misuse("double deallocation", p);
            }
        }
        if (g.blocks)
        {
            // any block that is not the start of a live region
            for (int t = 0; t < 8; ++t)
            {
                std::byte* p = g.first + r.below(g.blocks) * BS;
                if (!is_live(p))
                {
                    bool inside = false;
                    for (auto& l: g.live)
                    {
                        inside = inside || (p > l.p && p < l.p + l.size);
                    }
                    misuse(inside ? "pointer into a live region"
                                  : "pointer to a free block",
                           p);
                    break;
                }
            }
            if (BS > 1)
            {
                std::byte* p = g.first + r.below(g.blocks * BS);
                if (!g.live.empty() && r.chance(1, 2))
                {
                    p = g.live[r.below(g.live.size())].p;
                }
                p += (p - g.first) % static_cast<std::ptrdiff_t>(BS)
                         ? 0
                         : static_cast<std::ptrdiff_t>(1 + r.below(BS - 1));
                misuse("misaligned pointer", p);
                p = r.chance(1, 2)
                        ? g.first - BS * r.below(9)
                        : g.first + (g.blocks + 1 + r.below(9)) * BS;
                misuse("misaligned pointer outside", p - (1 + r.below(BS - 1)));
            }
            switch (upstream ? 9 : r.below(4))
            {
                case 0: misuse("pointer just behind", g.first + g.blocks * BS); break;
                case 1:
                    misuse("pointer behind",
                           g.first + (g.blocks + 1 + r.below(300)) * BS);
                    break;
                case 2: misuse("pointer just before", g.first - BS); break;
                case 9: break;  // they are upstream's
                default:
                    misuse("pointer before", g.first - (1 + r.below(7)) * BS);
                    break;
            }
        }
        else if (!upstream)
        {
            misuse("pointer without blocks",
                   rig::arena() + (1 + r.below(16)) * 32768);
        }
        if (!g.live.empty())
        {
            const auto d = vm::observe(
                [&]
                {
                    using Res = typename decltype(g)::Res;
                    g.res->~Res();
                });
            must_abort(d, "destruction while in use");
            vm::state(vm::mix(g.live.size()) ^ 0xdead);
        }
        else
        {
            const auto d = vm::observe(
                [&]
                {
                    using Res = typename decltype(g)::Res;
                    g.res->release();
                    g.res->~Res();
                });
            VM_CHECK(d.returned, "abort-in-correct-use",
                     "destruction with nothing allocated: %s",
                     vm::printable(d.err).c_str());
            vm::count("destruction while unused");
        }
        // destruction right after release is correct use, too
        const auto d = vm::observe(
            [&]
            {
                using Res = typename decltype(g)::Res;
                g.res->deallocate(nullptr);
                g.res->release();
                g.res->~Res();
            });
        VM_CHECK(d.returned, "abort-in-correct-use",
                 "destruction after release: %s", vm::printable(d.err).c_str());
        vm::count("destruction after release");
    }
    g.finish();
}
// However few or many of however many blocks are in use: not one may be left.
template <std::size_t N>
void run_crowd(vm::Rng& r)
{
    using Res = utils::memory::simple_resource<N, 1>;
    static std::byte buf[N];
    auto res = std::make_unique<Res>(buf, N, nullptr);
    std::vector<void*> live;
    std::size_t n = r.chance(1, 3) ? 1 + r.below(3)
                    : r.chance(1, 2)
                        ? (std::size_t{1} << r.range(5, 12)) + r.below(3) - 1
                        : 1 + r.below(700);
    n = N <= 300 && r.chance(1, 2) ? N : std::min(n, N - 1);
    const bool wide = r.chance(1, 2);  // regions of more than one block
    while (live.size() < n)
    {
        void* p = res->allocate(
            wide ? 1 + r.below((N - live.size()) / (n - live.size()) % 64 + 1)
                 : 1,
            1);
        if (!p)
        {
            break;
        }
        live.push_back(p);
    }
    vm::op("%zu of %zu blocks in use", live.size(), N);
    must_abort(vm::observe([&] { res->~Res(); }), "destruction while in use");
    const std::size_t keep = r.below(3);
    while (live.size() > keep)
    {
        const std::size_t v = r.below(live.size());
        std::swap(live[v], live.back());
        void* const p = live.back();
        live.pop_back();
        res->deallocate(p);
        if (live.size() == keep)
        {
            must_abort(vm::observe([&] { res->deallocate(p); }),
                       "double deallocation");
        }
    }
    const auto d = vm::observe([&] { res->~Res(); });
    if (keep && !live.empty())
    {
        must_abort(d, "destruction while in use");
    }
    else
    {
        VM_CHECK(d.returned, "abort-in-correct-use", "everything given back: %s",
                 vm::printable(d.err).c_str());
    }
    res->release();
    vm::count("crowds");
    vm::state(vm::mix(n * 31 + keep) ^ N);
}
}  // namespace

int main(int argc, char** argv)
{
    using fn = void (*)(vm::Rng&, std::uint64_t);
    static const fn geometries[] = {
        run<2, 8>,   run<3, 1>,   run<5, 16>,   run<32, 8>,
        run<255, 2>, run<256, 4>, run<257, 1>, run<16, 256>,
    };
    return vm::run_main(argc, argv, [](vm::Rng& r, std::uint64_t i)
                        {
                            if (i % 12 == 7)
                            {
                                switch (r.below(5))
                                {
                                    case 0: run_crowd<5000>(r); break;
                                    case 4: run_crowd<256>(r); break;
                                    case 1: run_crowd<65536>(r); break;
                                    case 2: run_crowd<300>(r); break;
                                    default: run_crowd<70001>(r); break;
                                }
                                return;
                            }
                            geometries[r.below(8)](r, i);
                        });
}
