// M05: what the block and monotonic resources ask of their upstream resource.
#include "recording.h"
#include "block_rig.h"

#include <utils/memory/monotonic_buffer_resource.h>

namespace
{
// the default resource for as long as it lives
struct Installed
{
    utils::memory::memory_resource* old;
    explicit Installed(utils::memory::memory_resource* res)
        : old(utils::memory::set_default_resource(res))
    {
    }
    ~Installed() { utils::memory::set_default_resource(old); }
};
using rig::Recorder;
using utils::memory::memory_resource;

struct UpLive
{
    void* p;
    std::size_t size;
};

void check_forwarded(Recorder& up, std::size_t before, std::size_t size,
                     std::size_t align, void* got)
{
    VM_CHECK(up.calls.size() == before + 1, "not-once",
             "request of %zu aligned to %zu that cannot be served locally "
             "reached upstream %zu times",
             size, align, up.calls.size() - before);
    const rig::Call& c = up.calls.back();
    VM_CHECK(c.alloc && c.size == size, "wrong-size",
             "request of %zu bytes forwarded as %zu", size, c.size);
    VM_CHECK(c.align >= align && !(c.align & (c.align - 1)), "wrong-alignment",
             "request aligned to %zu forwarded as %zu", align, c.align);
    VM_CHECK(c.p == got, "answer-changed", "upstream gave %p, user got %p",
             c.p, got);
}

template <typename Res>
std::uint64_t map_of(const Res& c, std::size_t blocks)
{
    using BIndex = typename Res::BIndex;
    std::uint64_t h = vm::mix(c.busy_count() * 65599 + c.free_count());
    std::size_t i = 0, steps = 0;
    while (blocks)
    {
        h = vm::mix(h ^ (i * 4 + c.in_use(static_cast<BIndex>(i))));
        const std::size_t n = c.at(static_cast<BIndex>(i)).next_index();
        if (n <= i || ++steps > blocks)
        {
            break;
        }
        i = n;
    }
    return h;
}

template <std::size_t N, std::size_t BS>
void block(vm::Rng& r, std::uint64_t very_long)
{
    rig::BlockRig<N, BS, 0> g(r);
    auto up = std::make_unique<Recorder>();
    Recorder other;
    using Res = typename decltype(g)::Res;
    const bool by_default = r.chance(1, 3);
    const bool none = !by_default && r.chance(1, 6);
    if (by_default)
    {
        memory_resource* old = utils::memory::set_default_resource(up.get());
        vm::op("default upstream, %zu blocks of %zu", g.blocks, BS);
        g.res = new (g.storage) Res(g.buf, g.len);
        utils::memory::set_default_resource(&other);
        g.after(true);
        utils::memory::set_default_resource(old);
    }
    else
    {
        g.construct(none ? nullptr : up.get());
    }
    if (g.first && r.chance(1, 2))
    {
        // upstream's regions may begin where the buffer ends and vice versa
        const auto end = reinterpret_cast<std::uintptr_t>(g.buf) + g.len;
        up->behind = reinterpret_cast<std::byte*>((end + BS - 1) & ~(BS - 1));
        up->before = g.buf;
        up->room = 512;
        vm::count("upstream next to the buffer");
    }
    // upstream may be what others use, too
    const Installed installed(r.chance(1, 3) ? up.get()
                                             : utils::memory::get_default_resource());
    std::vector<UpLive> ups;
    const std::size_t steps = very_long ? 230000 : 20 + r.below(120);
    for (std::size_t i = 0; i < steps; ++i)
    {
        const std::size_t before = up->calls.size();
        const auto k = very_long && ups.size() > 10 && r.chance(1, 2)
                           ? 90
                           : r.below(100);
        if (k < 60)
        {
            std::size_t size = r.chance(1, 3) ? 1 + r.below(4 * BS) : g.pick_size();
            if (very_long && r.chance(1, 2))
            {
                size = 1 + r.below((g.blocks + 2) * BS);
            }
            const std::size_t align = g.pick_align();
            const bool fits = size && g.fits(size, align);
            const bool decided =
                !g.blocks || align <= g.guaranteed_alignment() || !fits;
            const std::uint64_t m0 = map_of(*g.res, g.blocks);
            up->fail_next = r.chance(1, 5);
            auto* p = static_cast<std::byte*>(rig::ask(*g.res, size, align));
            up->fail_next = false;
            const bool local = p && g.first && p >= g.first &&
                               p < g.first + g.blocks * BS;
            vm::op("allocate(%zu, %zu) -> %p %s", size, align,
                   static_cast<void*>(p),
                   local ? "local" : up->calls.size() > before ? "upstream" : "");
            VM_CHECK(other.calls.empty(), "wrong-upstream",
                     "a default resource installed later was used");
            if (!size)
            {
                VM_CHECK(!p && up->calls.size() == before, "empty-request",
                         "an empty request reached upstream or gave %p",
                         static_cast<void*>(p));
            }
            else if (local)
            {
                vm::count("local");
                VM_CHECK(up->calls.size() == before, "needless-upstream",
                         "served locally, but upstream was asked as well");
                g.live.push_back({p, size, align, g.next_id++});
            }
            else
            {
                VM_CHECK(!decided || !fits, "needless-upstream",
                         "a free run holds %zu bytes aligned to %zu, but the "
                         "request was passed on",
                         size, align);
                if (none)
                {
                    VM_CHECK(!p, "no-upstream", "%p without upstream",
                             static_cast<void*>(p));
                    vm::count("refused without upstream");
                }
                else
                {
                    check_forwarded(*up, before, size, align, p);
                    vm::count(p ? "upstream" : "upstream failures");
                    if (p)
                    {
                        ups.push_back({p, size});
                        std::memset(p, 0x5a, size);
                    }
                }
                VM_CHECK(map_of(*g.res, g.blocks) == m0, "state-changed",
                         "forwarding changed the block map");
            }
        }
        else if (k < 80 && !g.live.empty())
        {
            const std::size_t v = g.pick_live();
            auto* p = g.live[v].p;
            g.live.erase(g.live.begin() + static_cast<std::ptrdiff_t>(v));
            g.res->deallocate(p);
            vm::op("deallocate(%p) local", static_cast<void*>(p));
            VM_CHECK(up->calls.size() == before, "needless-upstream",
                     "local pointer deallocated upstream");
        }
        else if (k < 96 && !ups.empty())
        {
            const std::size_t v = r.below(ups.size());
            void* p = ups[v].p;
            ups.erase(ups.begin() + static_cast<std::ptrdiff_t>(v));
            const std::uint64_t m0 = map_of(*g.res, g.blocks);
            g.res->deallocate(p);
            vm::op("deallocate(%p) upstream", p);
            VM_CHECK(up->calls.size() == before + 1 && !up->calls.back().alloc &&
                         up->calls.back().p == p,
                     "not-given-back", "%p did not reach upstream once", p);
            VM_CHECK(map_of(*g.res, g.blocks) == m0, "state-changed",
                     "forwarding a deallocation changed the block map");
            vm::count("upstream deallocations");
        }
        else if (k < 98)
        {
            g.res->deallocate(nullptr);
            vm::op("deallocate(nullptr)");
            VM_CHECK(up->calls.size() == before, "needless-upstream",
                     "null passed to upstream");
        }
        else
        {
            g.res->release();
            g.live.clear();
            vm::op("release()");
            VM_CHECK(up->calls.size() == before, "needless-upstream",
                     "release() called upstream");
        }
        vm::state(map_of(*g.res, g.blocks) ^ vm::mix(ups.size() * 7 + N));
    }
    VM_CHECK(up->outstanding() == ups.size(), "not-given-back",
             "%zu upstream regions live, upstream holds %zu", ups.size(),
             up->outstanding());
    while (!ups.empty())
    {
        g.res->deallocate(ups.back().p);
        ups.pop_back();
    }
    VM_CHECK(up->outstanding() == 0, "not-given-back", "%zu left",
             up->outstanding());
    g.res->release();
    const std::size_t n = up->calls.size();
    g.res->~Res();
    g.res = nullptr;
    VM_CHECK(up->calls.size() == n, "needless-upstream",
             "destruction called upstream");
}

void monotonic(vm::Rng& r, std::uint64_t very_long)
{
    using utils::memory::monotonic_buffer_resource;
    Recorder up, other;
    const bool by_default = r.chance(1, 3);
    const bool none = !by_default && r.chance(1, 6);
    const bool empty = r.chance(1, 8);
    std::byte* buf = empty && r.chance(1, 2) ? nullptr
                                             : rig::arena() + r.below(4096);
    const std::size_t len = empty && buf ? 0 : r.below(1 + r.any_width(12));
    const bool null = !buf || !len;
    alignas(monotonic_buffer_resource) unsigned char st[sizeof(
        monotonic_buffer_resource)];
    monotonic_buffer_resource* m;
    if (by_default)
    {
        memory_resource* old = utils::memory::set_default_resource(&up);
        m = new (st) monotonic_buffer_resource(buf, len);
        utils::memory::set_default_resource(old);
    }
    else
    {
        m = new (st) monotonic_buffer_resource(buf, len, none ? nullptr : &up);
    }
    vm::op("monotonic(%p, %zu)%s", static_cast<void*>(buf), len,
           by_default ? " default upstream" : none ? " no upstream" : "");
    const Installed installed(r.chance(1, 3) ? &up
                              : r.chance(1, 8)
                                  ? m
                                  : utils::memory::get_default_resource());
    std::uintptr_t next = reinterpret_cast<std::uintptr_t>(buf);
    const std::uintptr_t end = null ? next : next + len;
    std::vector<void*> got;
    const std::size_t steps = very_long ? 230000 : 10 + r.below(60);
    for (std::size_t i = 0; i < steps; ++i)
    {
        const std::size_t before = up.calls.size();
        const auto k = r.below(100);
        if (k < 75)
        {
            std::size_t size;
            switch (r.below(6))
            {
                case 0: size = 0; break;
                case 1: size = end - next; break;
                case 2: size = end - next + 1; break;
                case 3:
                    size = very_long ? r.below(300) : r.any_width(64);
                    break;
                default: size = r.below(64); break;
            }
            const std::size_t align =
                std::size_t{1}
                << (!very_long && r.chance(1, 5) ? r.below(64) : r.below(8));
            const std::uintptr_t skip = (0 - next) & (align - 1);
            const bool fits = !null && size && skip <= end - next &&
                              size <= end - next - skip;
            up.fail_next = r.chance(1, 5);
            void* p = rig::ask(*m, size, align);
            up.fail_next = false;
            const auto u = reinterpret_cast<std::uintptr_t>(p);
            const bool local = p && !null &&
                               u >= reinterpret_cast<std::uintptr_t>(buf) &&
                               u < end;
            vm::op("allocate(%zu, %zu) -> %p %s", size, align, p,
                   local ? "local" : up.calls.size() > before ? "upstream" : "");
            if (!size)
            {
                VM_CHECK(!p && up.calls.size() == before, "empty-request",
                         "an empty request reached upstream or gave %p", p);
            }
            else if (local)
            {
                vm::count("local");
                VM_CHECK(up.calls.size() == before, "needless-upstream",
                         "served locally, but upstream was asked as well");
                next = u + size;
            }
            else
            {
                VM_CHECK(!fits, "needless-upstream",
                         "%zu bytes aligned to %zu fit, but were passed on",
                         size, align);
                if (none)
                {
                    VM_CHECK(!p, "no-upstream", "%p without upstream", p);
                }
                else
                {
                    check_forwarded(up, before, size, align, p);
                    vm::count(p ? "upstream" : "upstream failures");
                    if (p)
                    {
                        got.push_back(p);
                        if (very_long && got.size() > 500)
                        {
                            // not through this resource, which keeps all
                            up.deallocate(got.front());
                            got.erase(got.begin());
                            up.calls.pop_back();
                        }
                    }
                }
            }
        }
        else if (k < 92)
        {
            void* p = got.empty() || r.chance(1, 3)
                          ? (r.chance(1, 2) ? nullptr : buf)
                          : got[r.below(got.size())];
            m->deallocate(p);
            vm::op("deallocate(%p)", p);
            VM_CHECK(up.calls.size() == before, "needless-upstream",
                     "deallocation reached upstream");
        }
        else
        {
            m->release();
            next = reinterpret_cast<std::uintptr_t>(buf);
            vm::op("release()");
            VM_CHECK(up.calls.size() == before, "needless-upstream",
                     "release() called upstream");
        }
        vm::state(vm::mix((end - next) * 64 + up.calls.size()));
    }
    m->~monotonic_buffer_resource();
    VM_CHECK(other.calls.empty(), "wrong-upstream", "other resource used");
}

// A chain: block resource over monotonic resource over a recorder.
void chain(vm::Rng& r, std::uint64_t)
{
    Recorder up;
    std::byte* a = rig::arena() + 65536;
    std::byte* b = rig::arena() + 131072;
    utils::memory::monotonic_buffer_resource mono(b, 512, &up);
    std::size_t from_up = 0;
    {
        utils::memory::simple_resource<16, 16> s(a, 256, &mono);
        std::vector<std::byte*> blocks;
        for (int i = 0; i < 60; ++i)
        {
            if (r.chance(2, 3) || blocks.empty())
            {
                const std::size_t n = 1 + r.below(100);
                const std::size_t al = std::size_t{1} << r.below(6);
                const std::size_t before = up.calls.size();
                auto* p = static_cast<std::byte*>(s.allocate(n, al));
                VM_CHECK(p, "no-upstream", "refused by an unlimited chain");
                const bool in_a = p >= a && p < a + 256;
                const bool in_b = p >= b && p < b + 512;
                const bool in_up = up.calls.size() > before;
                vm::op("chain allocate(%zu, %zu) -> %s", n, al,
                       in_a ? "blocks" : in_b ? "monotonic" : "recorder");
                VM_CHECK(in_a + in_b + in_up == 1, "not-once",
                         "served by %d members of the chain",
                         in_a + in_b + in_up);
                if (in_up)
                {
                    check_forwarded(up, before, n, al, p);
                    ++from_up;
                }
                VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % al == 0,
                         "wrong-alignment", "%p", static_cast<void*>(p));
                blocks.push_back(p);
                vm::state(vm::mix(n * 64 + al) + in_a * 2 + in_b);
            }
            else
            {
                const std::size_t v = r.below(blocks.size());
                s.deallocate(blocks[v]);
                blocks.erase(blocks.begin() + static_cast<std::ptrdiff_t>(v));
            }
        }
        for (auto* p: blocks)
        {
            s.deallocate(p);
        }
    }
    VM_CHECK(up.outstanding() == from_up, "needless-upstream",
             "the monotonic resource gave storage back: %zu of %zu",
             up.outstanding(), from_up);
}

template <std::size_t N, std::size_t BS>
void arrays(vm::Rng& r)
{
    // constructors taking an array, with and without upstream
    Recorder up, def;
    memory_resource* old = utils::memory::set_default_resource(&def);
    alignas(64) std::byte a[N * BS];
    alignas(64) std::byte b[64];
    {
        utils::memory::simple_resource<N, BS> x(a, &up), y(a);
        utils::memory::monotonic_buffer_resource m(b, &up), n(b);
        utils::memory::set_default_resource(old);
        const std::size_t big = N * BS + 1 + r.below(100);
        void* p[4] = {x.allocate(big, 8), y.allocate(big, 8),
                      m.allocate(65 + big, 8), n.allocate(65 + big, 8)};
        VM_CHECK(up.calls.size() == 2 && def.calls.size() == 2, "wrong-upstream",
                 "upstream asked %zu times, default %zu times", up.calls.size(),
                 def.calls.size());
        VM_CHECK(up.owns(p[0]) && def.owns(p[1]) && up.owns(p[2]) &&
                     def.owns(p[3]),
                 "wrong-upstream", "answers mixed up");
        x.deallocate(p[0]);
        y.deallocate(p[1]);
        VM_CHECK(up.outstanding() == 1 && def.outstanding() == 1,
                 "not-given-back", "outstanding %zu, %zu", up.outstanding(),
                 def.outstanding());
    }
    vm::op("array constructors");
    vm::state(vm::mix(N * BS));
}
}  // namespace

int main(int argc, char** argv)
{
    using fn = void (*)(vm::Rng&, std::uint64_t);
    static const fn kinds[] = {block<2, 8>,    block<5, 16>, block<32, 8>,
                               block<256, 4>,  block<16, 64>, block<3, 1>,
                               block<4, 1024>, monotonic,    monotonic,
                               monotonic,      chain};
    return vm::run_main(argc, argv,
                        [](vm::Rng& r, std::uint64_t i)
                        {
                            if (i % 32 == 5)
                            {
                                arrays<8, 16>(r);
                            }
                            else if (i % 32 == 6)
                            {
                                arrays<32, 64>(r);
                            }
                            else if (i % 1000 == 500)
                            {
                                if (r.chance(1, 2))
                                {
                                    block<5, 16>(r, 1);
                                }
                                else
                                {
                                    monotonic(r, 1);
                                }
                                vm::count("histories of 230000 operations");
                            }
                            else
                            {
                                kinds[r.below(11)](r, 0);
                            }
                        });
}
