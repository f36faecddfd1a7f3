// M14: resources stacked on each other.
//
// Builds random stacks: block, monotonic and user-defined resources, each on
// top of any of those built before it, with buffers of their own or obtained
// from another member.  Knows nothing about how requests are served: where a
// region came from is told from its address.  Watches that it can only have
// come from the members below the one that was asked, that no storage is in
// use twice, that contents stay, and where storage goes when it is given back.
#include "vmon.h"

#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

namespace
{
using utils::memory::memory_resource;

// ---- the system below everything ---------------------------------------------
struct System
{
    std::map<std::uintptr_t, std::size_t> blocks;
    vm::Rng* r = nullptr;
    bool refusing = false;  // may refuse during this history
    bool refused = false;   // did, during this call
} sys;

int system_memalign(void** out, std::size_t align, std::size_t size)
{
    if (sys.refusing && sys.r->chance(1, 8))
    {
        sys.refused = true;
        return 12;
    }
    if (::posix_memalign(out, align, size))
    {
        sys.refused = true;
        return 12;
    }
    sys.blocks[reinterpret_cast<std::uintptr_t>(*out)] = size;
    return 0;
}
void system_free(void* p)
{
    VM_CHECK(!p || sys.blocks.erase(reinterpret_cast<std::uintptr_t>(p)), "not-from-the-system",
             "%p is given back to the system, which did not give it", p);
    ::free(p);
}

// ---- members of a stack ------------------------------------------------------
enum Kind
{
    kSystem,
    kNull,
    kBlocks,
    kMonotonic,
    kRelay
};
const char* const kNames[] = {"system", "null", "blocks", "monotonic", "relay"};

// A user's own resource: passes everything on, refuses now and then.
class Relay : public memory_resource
{
   public:
    Relay(memory_resource* up, vm::Rng& r, bool moody)
        : memory_resource(&Relay::allocate<Relay>, &Relay::deallocate<Relay>), up_(up), r_(r), moody_(moody)
    {
    }
    Relay(const Relay&) = delete;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }
    void* allocate_impl(std::size_t n, std::size_t a) noexcept
    {
        if (moody_ && r_.chance(1, 10))
        {
            sys.refused = true;
            return nullptr;
        }
        ++given;
        void* p = up_ ? up_->allocate(n, a) : nullptr;
        given -= !p;
        return p;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++back;
        up_->deallocate(p);
    }
    std::uint64_t given = 0, back = 0;

   private:
    memory_resource* up_;
    vm::Rng& r_;
    bool moody_;
};

struct Member
{
    Kind kind;
    int up = -1;  // index of the upstream member
    memory_resource* res = nullptr;
    std::byte* buf = nullptr;
    std::size_t size = 0;  // of the buffer it was given
    int buf_from = -1;
    std::function<void()> release, destroy;
    std::function<std::size_t()> in_use;
    bool in(const void* p) const
    {
        return buf && p >= buf && p < buf + size;
    }
};

struct Region
{
    std::byte* p;
    std::size_t n;
    int asked, served;
    std::uint64_t seed;
    bool patterned;
    bool alive;  // not yet given back
    std::function<void()> give_back;
};

alignas(4096) std::byte arena[1 << 16];

template <std::size_t Size, std::size_t Align>
struct alignas(Align) Node
{
    Node* self;
    std::uint64_t seed;
    unsigned char rest[Size];
    explicit Node(std::uint64_t s) noexcept : self(this), seed(s)
    {
        for (std::size_t i = 0; i < Size; ++i)
        {
            rest[i] = static_cast<unsigned char>(vm::mix(s + i));
        }
    }
    Node(const Node&) = delete;
    ~Node()
    {
        VM_CHECK(self == this && seed, "damaged", "an object was damaged while it lived");
        for (std::size_t i = 0; i < Size; ++i)
        {
            VM_CHECK(rest[i] == static_cast<unsigned char>(vm::mix(seed + i)), "damaged",
                     "byte %zu of an object changed while it lived", i);
        }
    }
};

struct Stack
{
    vm::Rng& r;
    std::vector<Member> m;
    std::vector<Region> regions;     // alive, or lost in a monotonic member
    std::vector<Region> containers;  // buffers of members
    std::size_t arena_used = 0;
    std::uint64_t shape = 0;

    explicit Stack(vm::Rng& rng) : r(rng)
    {
        sys.r = &r;
        sys.refusing = r.chance(1, 3);
        m.push_back({kSystem, -1, utils::memory::system_memory_resource(), nullptr, 0, -1, {}, {}, {}});
        m.push_back({kNull, -1, utils::memory::null_memory_resource(), nullptr, 0, -1, {}, {}, {}});
    }

    // -- who may answer
    std::vector<int> path(int i) const
    {
        std::vector<int> v;
        for (; i >= 0; i = m[static_cast<std::size_t>(i)].up)
        {
            v.push_back(i);
        }
        return v;
    }
    const Member& at(int i) const { return m[static_cast<std::size_t>(i)]; }
    int source(const void* p) const
    {
        int best = -1;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            if (m[i].in(p) && (best < 0 || m[i].size <= at(best).size))
            {
                best = static_cast<int>(i);
            }
        }
        if (best >= 0)
        {
            return best;
        }
        auto b = sys.blocks.upper_bound(reinterpret_cast<std::uintptr_t>(p));
        if (b != sys.blocks.begin() && (--b)->first + b->second > reinterpret_cast<std::uintptr_t>(p))
        {
            return 0;
        }
        return -1;
    }
    void check_new(const void* v, std::size_t n, std::size_t a, int asked, int& served)
    {
        const auto p = static_cast<const std::byte*>(v);
        VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % a == 0, "misaligned", "%p is not aligned to %zu", v, a);
        served = source(p);
        VM_CHECK(served >= 0 && source(p + n - 1) == served, "out-of-bounds",
                 "%zu bytes at %p do not belong to one member of the stack", n, v);
        const auto chain = path(asked);
        VM_CHECK(std::find(chain.begin(), chain.end(), served) != chain.end(), "foreign",
                 "member %d (%s) gave storage of member %d (%s), which it does not stand on", asked,
                 kNames[at(asked).kind], served, kNames[at(served).kind]);
        if (!served)
        {
            auto b = sys.blocks.find(reinterpret_cast<std::uintptr_t>(p));
            VM_CHECK(b != sys.blocks.end() && b->second >= n, "out-of-bounds",
                     "%zu bytes at %p are not the start of a block of the system that is large enough", n, v);
        }
        else
        {
            VM_CHECK(p + n <= at(served).buf + at(served).size, "out-of-bounds", "%zu bytes at %p exceed the buffer", n, v);
        }
        for (auto& o: regions)
        {
            VM_CHECK(p + n <= o.p || o.p + o.n <= p, "overlap",
                     "%zu bytes at %p overlap %zu at %p which were not given back to member %d", n, v, o.n,
                     static_cast<void*>(o.p), o.served);
        }
        for (auto& o: containers)
        {
            const bool inside = p >= o.p && p + n <= o.p + o.n;
            VM_CHECK(p + n <= o.p || o.p + o.n <= p || inside, "overlap",
                     "%zu bytes at %p straddle the buffer of a member", n, v);
        }
    }
    bool endless(int asked) const
    {
        return path(asked).back() == 0;
    }
    void intact(const Region& g) const
    {
        if (g.patterned)
        {
            for (std::size_t i = 0; i < g.n; ++i)
            {
                VM_CHECK(g.p[i] == static_cast<std::byte>(vm::mix(g.seed + i)), "damaged",
                         "byte %zu of %zu at %p changed (asked from member %d, served by %d)", i, g.n,
                         static_cast<void*>(g.p), g.asked, g.served);
            }
        }
    }

    // -- operations
    std::byte* raw(int asked, std::size_t n, std::size_t a)
    {
        sys.refused = false;
        auto* p = static_cast<std::byte*>(at(asked).res->allocate(n, a));
        vm::op("member %d: allocate(%zu, %zu) -> %p", asked, n, a, static_cast<void*>(p));
        VM_CHECK(p || sys.refused || !endless(asked), "lost-request",
                 "%zu bytes aligned to %zu are refused by a stack that stands on the system", n, a);
        return p;
    }
    void take(int asked)
    {
        const std::size_t n = r.chance(1, 6) ? 1 + r.below(2000) : 1 + r.below(100);
        const std::size_t a = std::size_t{1} << (r.chance(1, 8) ? r.below(11) : r.below(6));
        Region g{nullptr, n, asked, -1, r(), true, true, {}};
        memory_resource* res = at(asked).res;
        if (r.chance(1, 3))
        {
            switch (r.below(4))
            {
                case 0: object<1, 8>(g); break;
                case 1: object<20, 16>(g); break;
                case 2: object<100, 64>(g); break;
                default: object<700, 8>(g); break;
            }
        }
        else
        {
            g.p = raw(asked, n, a);
            if (g.p)
            {
                check_new(g.p, n, a, asked, g.served);
                for (std::size_t i = 0; i < n; ++i)
                {
                    g.p[i] = static_cast<std::byte>(vm::mix(g.seed + i));
                }
                auto* p = g.p;
                g.give_back = [p, res] { res->deallocate(p); };
            }
        }
        if (g.p)
        {
            vm::state(vm::mix(shape * 31 + static_cast<std::uint64_t>(asked * 16 + g.served)));
            vm::count(g.served == asked ? "regions served at once" : "regions served by members below");
            regions.push_back(std::move(g));
        }
    }
    template <std::size_t Size, std::size_t Align>
    void object(Region& g)
    {
        using T = Node<Size, Align>;
        utils::memory::allocator<T> al(at(g.asked).res);
        if (r.chance(1, 4))
        {
            memory_resource* old = utils::memory::set_default_resource(at(g.asked).res);
            utils::memory::allocator<char> by_default;
            utils::memory::set_default_resource(old);
            al.~allocator();
            ::new (static_cast<void*>(&al)) utils::memory::allocator<T>(by_default);
        }
        sys.refused = false;
        T* t = al.template new_object<T>(g.seed | 1);
        vm::op("member %d: new_object of %zu, %zu -> %p", g.asked, sizeof(T), alignof(T), static_cast<void*>(t));
        VM_CHECK(t || sys.refused || !endless(g.asked), "lost-request",
                 "an object of %zu bytes is refused by a stack that stands on the system", sizeof(T));
        g.p = reinterpret_cast<std::byte*>(t);
        g.n = sizeof(T);
        g.patterned = false;
        if (t)
        {
            check_new(t, sizeof(T), alignof(T), g.asked, g.served);
            g.give_back = [al, t]() mutable { al.delete_object(t); };
        }
    }
    // what becomes of a region that was given back
    void given_back(Region& g, std::vector<Region>& from, std::size_t i)
    {
        bool arrives = true;
        for (int k: path(g.asked))
        {
            if (at(k).kind == kMonotonic)
            {
                arrives = false;
                break;
            }
            if (k == g.served)
            {
                break;
            }
        }
        if (!g.served)
        {
            const bool held = sys.blocks.count(reinterpret_cast<std::uintptr_t>(g.p));
            VM_CHECK(held == !arrives, "not-returned", "storage of the system that was given back to member %d (%s) %s", g.asked,
                     kNames[at(g.asked).kind], held ? "did not reach it" : "was freed by a monotonic resource");
        }
        Region moved = std::move(from[i]);
        from.erase(from.begin() + static_cast<std::ptrdiff_t>(i));
        if (!arrives)
        {
            moved.alive = false;
            vm::count("regions that stay until release");
            regions.push_back(std::move(moved));
        }
    }
    void give(std::size_t i)
    {
        Region& g = regions[i];
        intact(g);
        vm::op("member %d: %p is given back", g.asked, static_cast<void*>(g.p));
        auto f = std::move(g.give_back);
        f();
        given_back(regions[i], regions, i);
    }
    bool can_release(int k) const
    {
        const Member& l = at(k);
        for (auto& c: containers)
        {
            if (l.in(c.p))
            {
                return false;
            }
        }
        for (auto& g: regions)
        {
            // an object has to be destroyed before its storage disappears
            if (g.served == k && g.alive && !g.patterned)
            {
                return false;
            }
        }
        return static_cast<bool>(l.release);
    }
    void drop_served_by(int k)
    {
        for (std::size_t i = regions.size(); i--;)
        {
            if (regions[i].served == k)
            {
                intact(regions[i]);
                regions.erase(regions.begin() + static_cast<std::ptrdiff_t>(i));
            }
        }
    }
    void release(int k)
    {
        vm::op("member %d: release()", k);
        drop_served_by(k);
        at(k).release();
        vm::count("releases");
    }
    void audit()
    {
        if (m.size() > 1)
        {
            const std::size_t a = r.below(m.size()), b = r.chance(1, 3) ? a : r.below(m.size());
            VM_CHECK((*m[a].res == *m[b].res) == (a == b) && (*m[a].res != *m[b].res) == (a != b), "equality",
                     "members %zu and %zu compare %s", a, b, a == b ? "unequal" : "equal");
        }
        for (auto& g: regions)
        {
            intact(g);
        }
        for (std::size_t k = 0; k < m.size(); ++k)
        {
            if (m[k].in_use)
            {
                std::size_t n = 0;
                for (auto* v: {&regions, &containers})
                {
                    for (auto& g: *v)
                    {
                        n += g.served == static_cast<int>(k);
                    }
                }
                VM_CHECK(m[k].in_use() == n, "books", "member %zu says that %zu of its regions are in use, there are %zu", k,
                         m[k].in_use(), n);
            }
        }
    }

    // -- building and taking down
    template <typename T>
    void adopt(Member& n, T* t)
    {
        n.res = t;
        n.release = [t] { t->release(); };
        n.destroy = [t] { delete t; };
        if constexpr (!std::is_same_v<T, utils::memory::monotonic_buffer_resource>)
        {
            n.in_use = [t] { return t->busy_count(); };
        }
    }
    // the buffer as pointer and size, or (where its size is one of a few) as an array
    template <typename T, std::size_t N, typename... Up>
    static T* on_array(std::byte* p, Up... up)
    {
        vm::count("built over arrays");
        return new T(*reinterpret_cast<std::byte(*)[N]>(p), up...);
    }
    template <typename T, typename... Up>
    static T* on_buffer(const Member& n, bool as_array, Up... up)
    {
        if (as_array && n.buf)
        {
            switch (n.size)
            {
                case 24: return on_array<T, 24>(n.buf, up...);
                case 64: return on_array<T, 64>(n.buf, up...);
                case 200: return on_array<T, 200>(n.buf, up...);
                case 512: return on_array<T, 512>(n.buf, up...);
                case 1300: return on_array<T, 1300>(n.buf, up...);
                case 2048: return on_array<T, 2048>(n.buf, up...);
                default: break;
            }
        }
        return new T(n.buf, n.size, up...);
    }
    template <typename T>
    void build(Member& n, memory_resource* up, bool by_default, bool as_array)
    {
        if (by_default)
        {
            memory_resource* old = utils::memory::set_default_resource(up);
            adopt(n, on_buffer<T>(n, as_array));
            utils::memory::set_default_resource(old);
        }
        else
        {
            adopt(n, on_buffer<T>(n, as_array, up));
        }
    }
    void add()
    {
        Member n{};
        n.kind = r.chance(1, 8) ? kRelay : r.chance(1, 2) ? kMonotonic : kBlocks;
        n.up = r.chance(1, 8) ? -1 : r.chance(2, 3) ? static_cast<int>(m.size()) - 1 : static_cast<int>(r.below(m.size()));
        if (n.up == 1 && r.chance(2, 3))
        {
            n.up = 0;
        }
        memory_resource* up = n.up < 0 ? nullptr : at(n.up).res;
        const bool by_default = up && r.chance(1, 4);
        const unsigned geometry = static_cast<unsigned>(r.below(6));
        static const std::size_t full[] = {4 * 32, 16 * 16, 64 * 8, 300 * 4, 32 * 64, 8 * 256};
        if (n.kind == kRelay)
        {
            auto* t = new Relay(up, r, r.chance(1, 2));
            n.res = t;
            n.destroy = [t]
            {
                VM_CHECK(t->given >= t->back, "returned-twice", "a member got %" PRIu64 " regions back and gave %" PRIu64,
                         t->back, t->given);
                delete t;
            };
        }
        else
        {
            n.size = full[geometry] + r.below(70);
            if (r.chance(1, 10))
            {
                n.size = r.below(2) * (1 + r.below(40));
            }
            const bool as_array = r.chance(1, 3);
            if (as_array)
            {
                static const std::size_t sizes[] = {24, 64, 200, 512, 1300, 2048};
                n.size = sizes[r.below(6)];
            }
            std::size_t skip = r.below(65);
            if (n.size && r.chance(1, 2) && m.size() > 2)
            {
                n.buf_from = r.chance(1, 4) ? 0 : static_cast<int>(2 + r.below(m.size() - 2));
                const std::size_t a = std::size_t{1} << r.below(8);
                std::byte* p = raw(n.buf_from, n.size, a);
                if (p)
                {
                    Region c{p, n.size, n.buf_from, -1, 0, false, true, {}};
                    check_new(p, n.size, a, n.buf_from, c.served);
                    memory_resource* res = at(n.buf_from).res;
                    c.give_back = [p, res] { res->deallocate(p); };
                    containers.push_back(std::move(c));
                    vm::count("buffers from other members");
                }
                else
                {
                    n.buf_from = -1;
                    n.size = 0;
                }
                n.buf = p;
            }
            else if (n.size && arena_used + skip + n.size + 64 < sizeof arena)
            {
                n.buf = arena + arena_used + skip;
                arena_used += skip + n.size + 16;
            }
            else
            {
                n.size = 0;
            }
            if (n.kind == kMonotonic)
            {
                build<utils::memory::monotonic_buffer_resource>(n, up, by_default, as_array);
            }
            else
            {
                switch (geometry)
                {
                    case 0: build<utils::memory::simple_resource<4, 32>>(n, up, by_default, as_array); break;
                    case 1: build<utils::memory::simple_resource<16, 16>>(n, up, by_default, as_array); break;
                    case 2: build<utils::memory::simple_resource<64, 8>>(n, up, by_default, as_array); break;
                    case 3: build<utils::memory::simple_resource<300, 4>>(n, up, by_default, as_array); break;
                    case 4: build<utils::memory::simple_resource<32, 64>>(n, up, by_default, as_array); break;
                    default: build<utils::memory::simple_resource<8, 256>>(n, up, by_default, as_array); break;
                }
            }
        }
        vm::op("member %zu: %s of %zu bytes at %p on %d, buffer from %d", m.size(), kNames[n.kind], n.size,
               static_cast<void*>(n.buf), n.up, n.buf_from);
        shape = vm::mix(shape * 131 + static_cast<std::uint64_t>(n.kind * 64 + (n.up + 1)) * 16 +
                        static_cast<std::uint64_t>(n.buf_from + 1));
        m.push_back(std::move(n));
    }
    void remove_last()
    {
        const int k = static_cast<int>(m.size()) - 1;
        for (;;)
        {
            std::vector<std::size_t> mine;
            for (std::size_t i = 0; i < regions.size(); ++i)
            {
                if (regions[i].asked == k && regions[i].alive)
                {
                    mine.push_back(i);
                }
            }
            if (mine.empty())
            {
                break;
            }
            give(mine[r.below(mine.size())]);
        }
        audit();
        bool rest = false;
        for (auto& g: regions)
        {
            rest = rest || g.served == k;
        }
        if (rest && at(k).kind == kBlocks)
        {
            release(k);
        }
        drop_served_by(k);
        vm::op("member %d is destroyed", k);
        at(k).destroy();
        Member gone = std::move(m.back());
        m.pop_back();
        for (auto& g: regions)
        {
            // storage that this member had lost is still in use below
            if (g.asked == k)
            {
                g.asked = -1;
            }
        }
        if (gone.buf_from >= 0)
        {
            for (std::size_t i = containers.size(); i--;)
            {
                if (containers[i].p == gone.buf && containers[i].n == gone.size)
                {
                    vm::op("its buffer goes back to member %d", gone.buf_from);
                    containers[i].give_back();
                    given_back(containers[i], containers, i);
                    break;
                }
            }
        }
    }
    void finish()
    {
        while (m.size() > 2)
        {
            remove_last();
        }
        // straight from the system
        for (std::size_t i = regions.size(); i--;)
        {
            if (regions[i].alive)
            {
                give(i);
            }
        }
        std::size_t lost = 0;
        for (auto& g: regions)
        {
            VM_CHECK(g.served == 0 && sys.blocks.count(reinterpret_cast<std::uintptr_t>(g.p)), "not-returned",
                     "%p lost in a monotonic resource is not held from the system", static_cast<void*>(g.p));
            ++lost;
        }
        VM_CHECK(lost == sys.blocks.size(), "not-returned",
                 "%zu blocks are held from the system, %zu were lost in monotonic resources", sys.blocks.size(), lost);
        for (auto& g: regions)
        {
            utils::memory::system_memory_resource()->deallocate(g.p);
        }
        VM_CHECK(sys.blocks.empty(), "not-returned", "%zu blocks stay with the system resource", sys.blocks.size());
    }
    void run()
    {
        const std::uint64_t target = 2 + r.below(5);
        const std::uint64_t ops = 30 + r.below(120);
        for (std::uint64_t i = 0; i < target; ++i)
        {
            add();
        }
        for (std::uint64_t o = 0; o < ops; ++o)
        {
            const std::uint64_t what = r.below(100);
            if (what < 2 && m.size() < 9)
            {
                add();
            }
            else if (what < 4 && m.size() > 3)
            {
                remove_last();
            }
            else if (what < 8)
            {
                const int k = static_cast<int>(2 + r.below(m.size() - 2));
                if (can_release(k))
                {
                    release(k);
                }
            }
            else if (what < 50 && !regions.empty())
            {
                const std::size_t i = r.below(regions.size());
                if (regions[i].alive)
                {
                    give(i);
                }
            }
            else if (regions.size() < 80)
            {
                take(r.chance(1, 12) ? 0 : static_cast<int>(2 + r.below(m.size() - 2)));
            }
            if (o % 8 == 0)
            {
                audit();
            }
        }
        audit();
        finish();
    }
};
}  // namespace

int main(int argc, char** argv)
{
    sysops::memory::ops::memalign_hook = system_memalign;
    sysops::memory::ops::free_hook = system_free;
    return vm::run_main(argc, argv,
                        [](vm::Rng& r, std::uint64_t)
                        {
                            Stack s(r);
                            s.run();
                        });
}
