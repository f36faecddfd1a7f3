// M09 (MONITOR=9): what an allocator asks of its resource.
// M12 (MONITOR=12): lifecycle of the objects made through it.
#include "recording.h"

#include <algorithm>
#include <type_traits>
#include <typeinfo>

#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#ifndef MONITOR
#define MONITOR 9
#endif

namespace
{
namespace um = utils::memory;

// a resource that "grants" everything: what matters is what it is asked for
class Generous : public um::memory_resource
{
   public:
    Generous()
        : memory_resource(&Generous::allocate<Generous>,
                          &Generous::deallocate<Generous>)
    {
    }
    bool is_equal(const memory_resource& o) const noexcept override
    {
        return &o == this;
    }
    void* allocate_impl(std::size_t n, std::size_t a) noexcept
    {
        calls.push_back({true, n, a, nullptr});
        return room;
    }
    void deallocate_impl(void* p) noexcept
    {
        calls.push_back({false, 0, 0, p});
    }
    std::vector<rig::Call> calls;
    alignas(4096) unsigned char room[64];
};

template <std::size_t N, std::size_t A>
struct alignas(A) Obj
{
    unsigned char c[N];
};
struct Huge
{
    unsigned char c[(std::size_t{1} << 40) + 1];
};
struct Big
{
    unsigned char c[100003];
};

// ---------------------------------------------------------------- M09 -----
template <typename T>
struct Alloc
{
    static void exact(const char* what, const std::vector<rig::Call>& calls,
                      std::size_t count, std::size_t size, std::size_t align,
                      void* p)
    {
        // representable?
        const unsigned __int128 bytes =
            static_cast<unsigned __int128>(count) * size;
        std::size_t asked = 0;
        const rig::Call* c = nullptr;
        for (auto& x: calls)
        {
            VM_CHECK(x.alloc, "unexpected-deallocation", "%s", what);
            ++asked;
            c = &x;
        }
        if (bytes > SIZE_MAX)
        {
            VM_CHECK(!p, "too-small",
                     "%s: %zu objects of %zu bytes are not representable, got "
                     "%p (asked for %zu bytes)",
                     what, count, size, p, c ? c->size : 0);
            vm::count("unrepresentable sizes");
            return;
        }
        if (!bytes)
        {
            VM_CHECK(asked <= 1, "request", "%s: asked %zu times", what,
                     asked);
            return;
        }
        VM_CHECK(asked == 1, "request", "%s: asked the resource %zu times",
                 what, asked);
        VM_CHECK(c->size >= static_cast<std::size_t>(bytes), "too-small",
                 "%s: asked for %zu bytes for %zu objects of %zu", what,
                 c->size, count, size);
        VM_CHECK(c->align >= align && c->align % align == 0, "misaligned",
                 "%s: asked for alignment %zu, needs %zu", what, c->align,
                 align);
        VM_CHECK(p == c->p || !c->p, "result", "%s: returned %p for %p", what,
                 p, c->p);
        VM_CHECK(c->p || !p, "result", "%s: returned %p for null", what, p);
    }

    static void returned(const char* what, const std::vector<rig::Call>& calls,
                         void* p)
    {
        VM_CHECK(calls.size() == 1 && !calls[0].alloc && calls[0].p == p,
                 "deallocation", "%s(%p): %zu calls, %p given back", what, p,
                 calls.size(), calls.empty() ? nullptr : calls[0].p);
    }

    static void generous(vm::Rng& r)
    {
        Generous g;
        um::allocator<T> a(&g);
        std::size_t n = r.any_width(64);
        switch (r.below(6))
        {
            case 0: n = SIZE_MAX / sizeof(T); break;
            case 1: n = SIZE_MAX / sizeof(T) + 1; break;
            case 2: n = SIZE_MAX / sizeof(T) + 1 + r.below(100); break;
            case 3:
                // the product wraps around to something small
                n = static_cast<std::size_t>(
                    ((static_cast<unsigned __int128>(1 + r.below(1000))
                      << 64) +
                     sizeof(T) - 1) /
                    sizeof(T));
                break;
            default: break;
        }
        void* p = r.chance(1, 2) ? a.allocate(n)
                                 : a.template allocate_object<T>(n);
        vm::op("allocate(%zu) of %zu bytes -> %p", n, sizeof(T), p);
        for (auto& c: g.calls)
        {
            c.p = g.room;
        }
        exact("allocate", g.calls, n, sizeof(T), alignof(T), p);
        vm::state(vm::mix(n) ^ sizeof(T));
        // bytes of any number and alignment
        g.calls.clear();
        const std::size_t bytes = r.any_width(64),
                          align = std::size_t{1} << r.below(64);
        p = a.allocate_bytes(bytes, align);
        vm::op("allocate_bytes(%zu, %zu) -> %p", bytes, align, p);
        VM_CHECK(!bytes || (g.calls.size() == 1 && g.calls[0].alloc &&
                            g.calls[0].size == bytes &&
                            g.calls[0].align == align && p == g.room),
                 "request",
                 "%zu bytes aligned to %zu: asked %zu times, for %zu aligned "
                 "%zu",
                 bytes, align, g.calls.size(),
                 g.calls.empty() ? 0 : g.calls[0].size,
                 g.calls.empty() ? 0 : g.calls[0].align);
        vm::state(vm::mix(bytes) ^ align);
    }

    template <typename X, typename Y>
    static void one(const X& x, const Y& y)
    {
        const auto *p = dynamic_cast<rig::Recorder*>(x.resource()),
                   *q = dynamic_cast<rig::Recorder*>(y.resource());
        const bool same = x.resource() == y.resource() ||
                          (p && q && p->group && p->group == q->group);
        VM_CHECK((x == y) == same && (y == x) == same, "equality",
                 "== is not %d", same);
        VM_CHECK((x != y) == !same && (y != x) == !same, "equality",
                 "!= is not %d", !same);
        vm::count("comparisons");
    }
    template <typename X, typename R>
    static void against(const X& x, const R& right)
    {
        std::apply([&](const auto&... y) { (one(x, y), ...); }, right);
    }
    template <typename L, typename R>
    static void equality(const L& left, const R& right)
    {
        std::apply([&](const auto&... l) { (against(l, right), ...); }, left);
    }

    template <typename U>
    static void history(vm::Rng& r)
    {
        rig::Recorder one, two, other;
        one.group = 1;
        two.group = 1;
        rig::Recorder def;
        auto* old = um::set_default_resource(&def);
        um::allocator<T> a(&one);
        um::allocator<U> b(&two);
        um::allocator<T> c(&other);
        um::allocator<T> d;
        um::allocator<U> rebound(a);
        um::allocator<T> copy(a);
        um::allocator<U> rebound_default(d);
        (void)um::set_default_resource(old);
        um::allocator<char> nothing(um::null_memory_resource());

        VM_CHECK(a.resource() == &one && b.resource() == &two &&
                     copy.resource() == &one && rebound.resource() == &one &&
                     d.resource() == &def && rebound_default.resource() == &def,
                 "resource", "an allocator has another resource");
        // equality of resources: one == two, all others differ
        const um::allocator<T>& ca = a;
        VM_CHECK(ca == copy && copy == ca && !(ca != copy), "equality",
                 "a copy differs");
        VM_CHECK(ca == rebound && rebound == ca && !(rebound != ca), "equality",
                 "a rebound copy differs");
        VM_CHECK(ca == b && b == ca && !(ca != b) && !(b != ca), "equality",
                 "equal resources, different allocators");
        VM_CHECK(ca != c && !(ca == c) && c != b && b != c && !(c == b),
                 "equality", "different resources, equal allocators");
        VM_CHECK(d != a && d == rebound_default && rebound_default != b,
                 "equality", "default");
        VM_CHECK(nothing != a && !(nothing == b), "equality", "null resource");
        // the same for allocators of one type, of all types on all resources
        {
            um::allocator<U> ub(&one);
            um::allocator<T> tb(&two), to(&other), td(&def);
            um::allocator<void*> ct(&two);
            equality(std::make_tuple(a, tb, to, td, copy, c),
                     std::make_tuple(a, tb, to, td, copy, c));
            equality(std::make_tuple(a, tb, to, td, ub, ct),
                     std::make_tuple(um::allocator<U>(&two), ub, rebound,
                                     um::allocator<U>(&other), nothing, ct));
        }
        struct P
        {
            void* p;
            int kind;
            rig::Recorder* from;
        };
        std::vector<P> live;
        rig::Recorder* all[] = {&one, &two, &other, &def};
        const auto reset = [&]
        {
            for (auto* x: all)
            {
                x->calls.clear();
            }
        };
        const auto only = [&](const char* what, rig::Recorder& x)
        {
            for (auto* y: all)
            {
                VM_CHECK(y == &x || y->calls.empty(), "wrong-resource",
                         "%s: another resource was asked", what);
            }
        };
        const std::size_t steps = 5 + r.below(30);
        for (std::size_t k = 0; k < steps; ++k)
        {
            reset();
            const auto which = r.below(6);
            rig::Recorder& x = which < 3 ? one
                               : which == 3
                                   ? two
                                   : (which == 4 ? other : def);
            x.fail_next = r.chance(1, 8);
            const auto what = r.below(10);
            if (what < 5)
            {
                std::size_t n = r.below(40);
                if (r.chance(1, 10))
                {
                    n = SIZE_MAX / sizeof(T) - 3 + r.below(1000);
                }
                switch (which)
                {
                    case 0:
                    {
                        T* p = a.allocate(n);
                        exact("allocate", one.calls, n, sizeof(T), alignof(T),
                              p);
                        if (p) live.push_back({p, 0, &one});
                        break;
                    }
                    case 1:
                    {
                        U* p = rebound.allocate(n);
                        exact("rebound allocate", one.calls, n, sizeof(U),
                              alignof(U), p);
                        if (p) live.push_back({p, 1, &one});
                        break;
                    }
                    case 2:
                    {
                        U* p = copy.template allocate_object<U>(n);
                        exact("allocate_object", one.calls, n, sizeof(U),
                              alignof(U), p);
                        if (p) live.push_back({p, 1, &one});
                        break;
                    }
                    case 3:
                    {
                        U* p = b.template allocate_object<U>();
                        exact("allocate_object()", two.calls, 1, sizeof(U),
                              alignof(U), p);
                        if (p) live.push_back({p, 1, &two});
                        break;
                    }
                    case 4:
                    {
                        T* p = c.allocate(n);
                        exact("allocate", other.calls, n, sizeof(T),
                              alignof(T), p);
                        if (p) live.push_back({p, 0, &other});
                        break;
                    }
                    default:
                    {
                        T* p = d.allocate(n);
                        exact("allocate", def.calls, n, sizeof(T), alignof(T),
                              p);
                        if (p) live.push_back({p, 0, &def});
                        break;
                    }
                }
                vm::op("allocate %zu with allocator %d", n,
                       static_cast<int>(which));
                only("allocate", x);
                vm::state(vm::mix(n) ^ (which << 8) ^ sizeof(T) * 977 ^
                          sizeof(U) * 31 ^ x.calls.size());
            }
            else if (what == 6 && r.chance(1, 2))
            {
                // the resource itself, asked by type or by size alone
                const unsigned how = static_cast<unsigned>(r.below(3));
                const std::size_t n = 1 + r.below(500);
                um::memory_resource* const base = &x;
                void* p = how == 0   ? base->allocate<T>()
                          : how == 1 ? base->allocate<U>()
                                     : base->allocate(n);
                const std::size_t size = how == 0 ? sizeof(T) : how == 1 ? sizeof(U) : n;
                const std::size_t align = how == 0   ? alignof(T)
                                          : how == 1 ? alignof(U)
                                                     : alignof(std::max_align_t);
                vm::op("resource, request %u of %zu -> %p", how, size, p);
                VM_CHECK(x.calls.size() == 1 && x.calls[0].alloc &&
                             x.calls[0].size == size &&
                             x.calls[0].align == align && x.calls[0].p == p,
                         "request",
                         "request %u on the resource: asked %zu times, for %zu aligned %zu",
                         how, x.calls.size(), x.calls.empty() ? 0 : x.calls[0].size,
                         x.calls.empty() ? 0 : x.calls[0].align);
                only("resource", x);
                if (p) live.push_back({p, 2, &x});
            }
            else if (what < 7)
            {
                const std::size_t n =
                    r.chance(1, 6) ? r.any_width(64) : r.below(500);
                std::size_t al = std::size_t{1} << r.below(10);
                const bool plain = r.chance(1, 3);
                if (plain)
                {
                    al = alignof(std::max_align_t);
                }
                um::allocator<T>& y = which < 3    ? a
                                      : which == 4 ? c
                                                   : d;
                rig::Recorder& z = which < 3 ? one : which == 4 ? other : def;
                z.fail_next = x.fail_next;
                if (&z != &x)
                {
                    x.fail_next = false;
                }
                void* p = plain ? y.allocate_bytes(n) : y.allocate_bytes(n, al);
                vm::op("allocate_bytes(%zu, %zu) -> %p", n, al, p);
                VM_CHECK(z.calls.size() == 1 && z.calls[0].alloc &&
                             z.calls[0].size == n && z.calls[0].align == al &&
                             z.calls[0].p == p,
                         "request",
                         "byte request: asked %zu times, for %zu aligned %zu",
                         z.calls.size(), z.calls.empty() ? 0 : z.calls[0].size,
                         z.calls.empty() ? 0 : z.calls[0].align);
                only("allocate_bytes", z);
                if (p) live.push_back({p, 2, &z});
            }
            else if (!live.empty())
            {
                x.fail_next = false;
                const std::size_t i = r.below(live.size());
                const P v = live[i];
                live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
                um::allocator<T> at(v.from);
                um::allocator<U> au(at);
                switch (v.kind)
                {
                    case 0:
                        r.chance(1, 2)
                            ? at.deallocate(static_cast<T*>(v.p))
                            : au.deallocate_object(static_cast<T*>(v.p));
                        break;
                    case 1:
                        r.chance(1, 2)
                            ? au.deallocate(static_cast<U*>(v.p))
                            : at.deallocate_object(static_cast<U*>(v.p));
                        break;
                    default: au.deallocate_bytes(v.p); break;
                }
                vm::op("deallocate %p", v.p);
                returned("deallocate", v.from->calls, v.p);
                only("deallocate", *v.from);
                vm::count("deallocations");
            }
            for (auto* y: all)
            {
                y->fail_next = false;
            }
        }
        for (auto& v: live)
        {
            um::allocator<char>(v.from).deallocate_bytes(v.p);
        }
        for (auto* y: all)
        {
            VM_CHECK(!y->outstanding(), "leak", "%zu regions",
                     y->outstanding());
        }
    }
};

// Allocators on every kind of resource the library has: copies and rebound
// copies stay on the resource, whatever the default is by then, and are equal
// exactly when the resources are.
template <typename T, typename U>
void kinds(vm::Rng& r)
{
    rig::Recorder up, def;
    Generous g;
    std::byte room[256];
    um::monotonic_buffer_resource mono(room),
        mono2(room, &up);
    // distinct resources differ, also those on one buffer or on none
    um::monotonic_buffer_resource none(nullptr, 0, &up), none2(nullptr, 0, &up);
    alignas(64) std::byte blocks[256];
    using Blocks = um::simple_resource<8, 32>;
    Blocks block(blocks, sizeof blocks, &up), block2(blocks, sizeof blocks, &up),
        empty(nullptr, 0, &up), empty2(nullptr, 0, &def);
    um::memory_resource* const all[] = {&none,
                                        &none2,
                                        &block,
                                        &block2,
                                        &empty,
                                        &empty2,
                                        um::null_memory_resource(),
                                        um::system_memory_resource(),
                                        um::get_default_resource(),
                                        &def,
                                        &up,
                                        &g,
                                        &mono,
                                        &mono2};
    constexpr std::size_t n = std::size(all);
    um::memory_resource* const x = all[r.below(n)];
    um::memory_resource* const y = all[r.below(n)];
    auto* const old = um::set_default_resource(all[r.below(n)]);
    um::allocator<T> a(x);
    um::allocator<U> b(y);
    (void)um::set_default_resource(all[r.below(n)]);
    um::allocator<T> copy(a);
    um::allocator<U> rebound(a);
    um::allocator<T> back(rebound);
    um::allocator<U> other(b);
    um::allocator<void*> third(other);
    um::memory_resource* const d = all[r.below(n)];
    (void)um::set_default_resource(d);
    um::allocator<T> fresh;
    um::allocator<U> fresh_rebound(fresh);
    (void)um::set_default_resource(all[r.below(n)]);
    vm::op("resources %p, %p, default %p", static_cast<void*>(x),
           static_cast<void*>(y), static_cast<void*>(d));
    VM_CHECK(a.resource() == x && copy.resource() == x &&
                 rebound.resource() == x && back.resource() == x &&
                 b.resource() == y && other.resource() == y &&
                 third.resource() == y && fresh.resource() == d &&
                 fresh_rebound.resource() == d,
             "resource", "an allocator, a copy of it or a rebound one has another resource");
    const bool same = x == y;
    VM_CHECK(x->is_equal(*y) == same && (*x == *y) == same &&
                 (*y != *x) == !same,
             "equality", "resources %p and %p compare %d",
             static_cast<void*>(x), static_cast<void*>(y), x->is_equal(*y));
    VM_CHECK((a == b) == same && (copy == other) == same &&
                 (back == third) == same && (a != b) == !same &&
                 (rebound == b) == same && (rebound != other) == !same,
             "equality", "allocators compare %d, resources %d", a == b, same);
    VM_CHECK(a == rebound && back == a && !(copy != a) && b == third &&
                 fresh == fresh_rebound,
             "equality", "a copy differs");
    if (x == um::null_memory_resource())
    {
        VM_CHECK(!a.allocate(1 + r.below(9)) && !rebound.allocate(1) &&
                     !copy.allocate_bytes(1) &&
                     !back.template allocate_object<U>() &&
                     !a.template new_object<U>(),
                 "result", "something from the null resource");
    }
    (void)um::set_default_resource(old);
    vm::count("allocators on every kind of resource");
    vm::state(static_cast<std::uint64_t>(
        (std::find(all, all + n, x) - all) * 256 +
        (std::find(all, all + n, y) - all) * 16 +
        (std::find(all, all + n, d) - all)) ^ sizeof(T) << 20);
}

void requests(vm::Rng& r, std::uint64_t)
{
    switch (r.below(12))
    {
        case 9: Alloc<Obj<8192, 8192>>::generous(r); break;
        case 10: Alloc<Obj<1, 65536>>::generous(r); break;
        case 11: Alloc<Obj<3, std::size_t{1} << 24>>::generous(r); break;
        case 0: Alloc<char>::generous(r); break;
        case 1: Alloc<std::uint16_t>::generous(r); break;
        case 2: Alloc<double>::generous(r); break;
        case 3: Alloc<Obj<3, 1>>::generous(r); break;
        case 4: Alloc<Obj<24, 8>>::generous(r); break;
        case 5: Alloc<Obj<64, 64>>::generous(r); break;
        case 6: Alloc<Big>::generous(r); break;
        case 7: Alloc<Huge>::generous(r); break;
        default: Alloc<Obj<5000, 1024>>::generous(r); break;
    }
    if (r.chance(1, 4))
    {
        kinds<char, long>(r);
        kinds<Obj<24, 8>, std::uint16_t>(r);
    }
    switch (r.below(9))
    {
        case 8: Alloc<Obj<5, 16384>>::history<Obj<1, 32768>>(r); break;
        case 0: Alloc<char>::history<int>(r); break;
        case 1: Alloc<int>::history<char>(r); break;
        case 2: Alloc<double>::history<Obj<3, 1>>(r); break;
        case 3: Alloc<Obj<3, 1>>::history<Obj<64, 64>>(r); break;
        case 4: Alloc<Obj<24, 8>>::history<void*>(r); break;
        case 5: Alloc<Obj<64, 64>>::history<std::string>(r); break;
        case 6: Alloc<Obj<512, 256>>::history<long>(r); break;
        default: Alloc<std::uint16_t>::history<Obj<7, 1>>(r); break;
    }
}

// ---------------------------------------------------------------- M12 -----
// An argument that knows what was done to it.
template <int Tag>
struct Arg
{
    int value = 0;
    int moves = 0, copies = 0;
    bool gone = false;
    explicit Arg(int v) : value(v) {}
    Arg(const Arg& o) noexcept : value(o.value)
    {
        ++const_cast<Arg&>(o).copies;
    }
    Arg(Arg&& o) noexcept : value(o.value)
    {
        o.gone = true;
        ++o.moves;
    }
    Arg& operator=(const Arg&) = delete;
};
enum class Cat
{
    lvalue,
    const_lvalue,
    rvalue,
    const_rvalue
};
template <typename A>
constexpr Cat cat()
{
    constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
    return std::is_lvalue_reference_v<A> ? (c ? Cat::const_lvalue : Cat::lvalue)
                                         : (c ? Cat::const_rvalue : Cat::rvalue);
}

struct Seen
{
    Cat c;
    const std::type_info* type;
    const void* at;
    long long number;
};
struct Log
{
    const void* object;
    std::vector<Seen> args;
};
std::vector<Log> built;
std::vector<const void*> destroyed;

template <typename A>
long long number(A& a)
{
    if constexpr (std::is_arithmetic_v<std::remove_reference_t<A>>)
    {
        return static_cast<long long>(a * 4);
    }
    else if constexpr (std::is_same_v<std::remove_cv_t<A>, const char*> ||
                       std::is_array_v<A>)
    {
        return a[0];
    }
    else if constexpr (std::is_pointer_v<std::remove_cv_t<A>>)
    {
        return 0;
    }
    else if constexpr (std::is_same_v<std::remove_cv_t<A>,
                                      std::unique_ptr<int>>)
    {
        return a ? *a : -1;
    }
    else
    {
        return a.value;
    }
}

template <std::size_t N, std::size_t A>
struct alignas(A) Probe
{
    unsigned char pad[N];
    template <typename... As,
              typename = std::enable_if_t<
                  !(sizeof...(As) == 1 &&
                    std::is_same_v<std::tuple<std::remove_cv_t<
                                       std::remove_reference_t<As>>...>,
                                   std::tuple<Probe>>)>>
    explicit Probe(As&&... as) noexcept
    {
        VM_CHECK(reinterpret_cast<std::uintptr_t>(this) % A == 0, "misaligned",
                 "object at %p", static_cast<void*>(this));
        std::memset(pad, 0x77, N);
        built.push_back(
            {this,
             {Seen{cat<As&&>(), &typeid(std::remove_reference_t<As>),
                   &as, number<std::remove_reference_t<As>>(as)}...}});
    }
    Probe(const Probe&) = delete;
    ~Probe()
    {
        for (auto c: pad)
        {
            VM_CHECK(c == 0x77, "destroyed-late",
                     "the object's storage was changed before its destructor");
        }
        destroyed.push_back(this);
    }
};

// Keeps what it is given, by value or by reference.
struct Keeper
{
    Arg<0> a;
    Arg<1>& b;
    std::unique_ptr<int> c;
    Keeper(Arg<0> x, Arg<1>& y, std::unique_ptr<int> z) noexcept
        : a(std::move(x)), b(y), c(std::move(z))
    {
    }
};
// braces, parentheses and conversions build different objects
struct Vec
{
    std::vector<int> v;
    int which = 0;
    Vec(std::initializer_list<int> l) noexcept : v(l), which(1) {}
    Vec(int n, int x) noexcept : v(static_cast<std::size_t>(n), x), which(2) {}
};
struct Overloads
{
    const char* chosen;
    explicit Overloads(int&) noexcept : chosen("int&") {}
    explicit Overloads(const int&) noexcept : chosen("const int&") {}
    explicit Overloads(int&&) noexcept : chosen("int&&") {}
    explicit Overloads(double) noexcept : chosen("double") {}
    explicit Overloads(unsigned char) noexcept : chosen("unsigned char") {}
    explicit Overloads(const char*) noexcept : chosen("const char*") {}
    explicit Overloads(std::nullptr_t) noexcept : chosen("nullptr_t") {}
    template <std::size_t N>
    explicit Overloads(const char (&)[N]) noexcept = delete;
    explicit Overloads(char (&)[3]) noexcept : chosen("char(&)[3]") {}
};

struct Storage
{
    rig::Recorder rec;
    um::allocator<char> a{&rec};
};

template <typename P>
void discard(Storage& s, P* p, const char* what)
{
    if (!p)
    {
        return;
    }
    destroyed.clear();
    s.rec.calls.clear();
    s.a.delete_object(p);
    VM_CHECK(destroyed.size() == 1 && destroyed[0] == p, "destruction",
             "%s: %zu destructions", what, destroyed.size());
    VM_CHECK(s.rec.calls.size() == 1 && !s.rec.calls[0].alloc &&
                 s.rec.calls[0].p == p,
             "destruction", "%s: %zu calls to the resource", what,
             s.rec.calls.size());
    vm::count("destructions");
}

// args: forwarded as given; checks what the constructor received
template <typename P, typename... As>
void build(vm::Rng& r, Storage& s, const char* what, As&&... as)
{
    const bool refuse = r.chance(1, 5);
    const int way = static_cast<int>(r.below(4));
    built.clear();
    destroyed.clear();
    s.rec.calls.clear();
    s.rec.fail_next = refuse && way;
    const Seen given[] = {
        Seen{cat<As&&>(), &typeid(std::remove_reference_t<As>), &as,
             number<std::remove_reference_t<As>>(as)}...,
        Seen{}};
    alignas(P) static unsigned char own[sizeof(P)];
    P* p;
    if (way)
    {
        p = s.a.new_object<P>(std::forward<As>(as)...);
    }
    else
    {
        p = reinterpret_cast<P*>(own);
        s.a.construct(p, std::forward<As>(as)...);
    }
    s.rec.fail_next = false;
    vm::op("%s %s -> %p", way ? "new_object" : "construct", what,
           static_cast<void*>(p));
    vm::state(vm::hash(what, strlen(what)) ^ (refuse && way) ^
              static_cast<std::uint64_t>(way ? 2 : 0) ^ sizeof(P) * 64);
    if (way)
    {
        VM_CHECK(s.rec.calls.size() == 1 && s.rec.calls[0].alloc &&
                     s.rec.calls[0].size >= sizeof(P) &&
                     s.rec.calls[0].align >= alignof(P) &&
                     s.rec.calls[0].align % alignof(P) == 0 &&
                     s.rec.calls[0].p == p,
                 "storage", "%s: %zu requests", what, s.rec.calls.size());
        VM_CHECK(refuse == !p, "storage", "%s: result %p", what,
                 static_cast<void*>(p));
    }
    if (!p)
    {
        VM_CHECK(built.empty() && destroyed.empty(), "constructed-nothing",
                 "%s: constructed although storage was refused", what);
        vm::count("refused");
        return;
    }
    VM_CHECK(built.size() == 1 && built[0].object == p, "construction",
             "%s: %zu constructions", what, built.size());
    VM_CHECK(destroyed.empty(), "construction", "%s: destroyed early", what);
    VM_CHECK(built[0].args.size() == sizeof...(As), "arguments",
             "%s: %zu arguments", what, built[0].args.size());
    for (std::size_t i = 0; i < sizeof...(As); ++i)
    {
        auto& g = given[i];
        auto& b = built[0].args[i];
        VM_CHECK(*g.type == *b.type, "arguments",
                 "%s: argument %zu is a %s, given a %s", what, i,
                 b.type->name(), g.type->name());
        VM_CHECK(g.c == b.c, "arguments",
                 "%s: argument %zu arrives as category %d, given as %d", what,
                 i, static_cast<int>(b.c), static_cast<int>(g.c));
        VM_CHECK(g.number == b.number, "arguments", "%s: argument %zu value",
                 what, i);
        VM_CHECK(g.at == b.at ||
                     (g.c != Cat::lvalue && g.c != Cat::const_lvalue),
                 "arguments", "%s: argument %zu refers to another object", what,
                 i);
    }
    vm::count("constructions");
    if (way)
    {
        discard(s, p, what);
    }
    else
    {
        p->~P();
    }
}

template <typename P>
void arguments(vm::Rng& r, Storage& s)
{
    int i = static_cast<int>(r.below(1000));
    const int ci = i + 1;
    long l = -5;
    unsigned char uc = 200;
    bool yes = true;
    double d = 2.5;
    Arg<0> x(3);
    const Arg<0> cx(4);
    Arg<1> y(5);
    const char* str = "abc";
    char arr[5] = "wxyz";
    int* ip = &i;
    auto up = std::make_unique<int>(9);
    switch (r.below(14))
    {
        case 0: build<P>(r, s, "()"); break;
        case 1: build<P>(r, s, "(int&)", i); break;
        case 2: build<P>(r, s, "(const int&)", ci); break;
        case 3: build<P>(r, s, "(int&&)", 7); break;
        case 4: build<P>(r, s, "(double&&)", 2.75); break;
        case 5: build<P>(r, s, "(uchar&, bool&&)", uc, true); break;
        case 6: build<P>(r, s, "(Arg&)", x); break;
        case 7: build<P>(r, s, "(const Arg&)", cx); break;
        case 8: build<P>(r, s, "(Arg&&)", std::move(x)); break;
        case 9:
            build<P>(r, s, "(Arg&, Arg&&, const Arg&)", y, std::move(x), cx);
            break;
        case 10: build<P>(r, s, "(const char*&, char(&)[5])", str, arr); break;
        case 11: build<P>(r, s, "(int*&, long&&, const Arg&&)", ip, std::move(l),
                          std::move(cx));
            break;
        case 12: build<P>(r, s, "(unique_ptr&&, double&)", std::move(up), d);
            break;
        default:
            build<P>(r, s, "(int&,const int&,int&&,Arg&,Arg&&,bool&)", i, ci,
                     3, y, std::move(x), yes);
            break;
    }
    // forwarding alone neither moves nor copies more than once, and never
    // touches lvalues
    VM_CHECK(!y.gone && !y.moves && !y.copies && y.value == 5, "lvalue-touched",
             "lvalue argument moved %d, copied %d", y.moves, y.copies);
    VM_CHECK(!cx.gone && !cx.copies && !cx.moves, "lvalue-touched",
             "const argument copied %d", cx.copies);
    VM_CHECK(x.moves <= 1 && !x.copies, "moved-twice",
             "moved %d times, copied %d", x.moves, x.copies);
    VM_CHECK(str[0] == 'a' && ip == &i && d == 2.5, "lvalue-touched", "value");
}

void special(vm::Rng& r, Storage& s)
{
    switch (r.below(4))
    {
        case 0:
        {
            Arg<0> a(11), b(12);
            Arg<1> ref(13);
            const bool move = r.chance(1, 2);
            auto up = std::make_unique<int>(r.below(100));
            int* raw = up.get();
            Keeper* k = move ? s.a.new_object<Keeper>(std::move(a), ref,
                                                      std::move(up))
                             : s.a.new_object<Keeper>(a, ref, std::move(up));
            vm::op("Keeper(%s)", move ? "rvalue" : "lvalue");
            VM_CHECK(k, "storage", "null");
            VM_CHECK(&k->b == &ref, "arguments", "a reference was copied");
            VM_CHECK(k->a.value == 11 && k->c.get() == raw && !up, "arguments",
                     "members");
            VM_CHECK(a.gone == move && a.copies == !move && a.moves == move,
                     "lvalue-touched",
                     "%s argument: moved %d times, copied %d times",
                     move ? "rvalue" : "lvalue", a.moves, a.copies);
            s.a.delete_object(k);
            break;
        }
        case 1:
        {
            int n = static_cast<int>(1 + r.below(8));
            Vec* v = s.a.new_object<Vec>(n, 3);
            vm::op("Vec(%d, 3)", n);
            VM_CHECK(v && v->which == 2 &&
                         v->v.size() == static_cast<std::size_t>(n),
                     "construction",
                     "(n, x) built through initializer list or not at all");
            s.a.delete_object(v);
            break;
        }
        case 2:
        {
            int i = 1;
            const int ci = 2;
            char a3[3] = "x";
            const char* cp = "y";
            struct
            {
                Overloads* o;
                const char* want;
            } all[] = {
                {s.a.new_object<Overloads>(i), "int&"},
                {s.a.new_object<Overloads>(ci), "const int&"},
                {s.a.new_object<Overloads>(5), "int&&"},
                {s.a.new_object<Overloads>(5.0), "double"},
                {s.a.new_object<Overloads>(static_cast<unsigned char>(5)),
                 "unsigned char"},
                {s.a.new_object<Overloads>(cp), "const char*"},
                {s.a.new_object<Overloads>(nullptr), "nullptr_t"},
                {s.a.new_object<Overloads>(a3), "char(&)[3]"},
            };
            vm::op("overloads");
            for (auto& x: all)
            {
                VM_CHECK(x.o && !strcmp(x.o->chosen, x.want), "arguments",
                         "constructor for %s chosen instead of %s",
                         x.o ? x.o->chosen : "none", x.want);
                s.a.delete_object(x.o);
            }
            break;
        }
        default:
        {
            destroyed.clear();
            s.rec.calls.clear();
            s.a.delete_object(static_cast<Probe<8, 8>*>(nullptr));
            s.a.delete_object(static_cast<int*>(nullptr));
            vm::op("delete_object(null)");
            VM_CHECK(destroyed.empty() && s.rec.calls.empty(), "null-delete",
                     "deleting null had an effect");
            // trivially destructible objects are returned, too
            int* p = s.a.new_object<int>(5);
            VM_CHECK(p && *p == 5, "construction", "int");
            s.rec.calls.clear();
            s.a.delete_object(p);
            VM_CHECK(s.rec.calls.size() == 1 && s.rec.calls[0].p == p,
                     "destruction", "int not returned");
            break;
        }
    }
    s.rec.calls.clear();
}

// ----- classes of every shape; each counts what happens to its objects -----
struct Count
{
    int made = 0, gone = 0;
    const void* last_made = nullptr;
    const void* last_gone = nullptr;
};
Count tally;
template <typename Self>
void made(const Self* p)
{
    ++tally.made;
    tally.last_made = p;
    VM_CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(Self) == 0,
             "misaligned", "object at %p", static_cast<const void*>(p));
}
void gone(const void* p)
{
    ++tally.gone;
    tally.last_gone = p;
}
struct Empty
{
    Empty() noexcept { made(this); }
    ~Empty() { gone(this); }
};
struct EmptyFinal final
{
    EmptyFinal() noexcept { made(this); }
    ~EmptyFinal() { gone(this); }
};
struct EmptyDerived : Empty
{
};
struct OneByte
{
    bool b;
    explicit OneByte(bool x = true) noexcept : b(x) { made(this); }
    ~OneByte() { gone(this); }
};
struct NoMoves
{
    long l;
    explicit NoMoves(long x = 7) noexcept : l(x) { made(this); }
    NoMoves(NoMoves&&) = delete;
    NoMoves& operator=(NoMoves&&) = delete;
    ~NoMoves() { gone(this); }
};
struct MoveOnly
{
    std::unique_ptr<int> p;
    explicit MoveOnly(std::unique_ptr<int> x = nullptr) noexcept
        : p(std::move(x))
    {
        made(this);
    }
    ~MoveOnly() { gone(this); }
};
struct Abstract
{
    int a = 1;
    virtual int what() const = 0;
    virtual ~Abstract() { a = 0; }
};
struct Concrete : Abstract
{
    std::string s{"a string that does not fit into the small buffer"};
    Concrete() noexcept { made(this); }
    int what() const override { return 5; }
    ~Concrete() override { gone(this); }
};
struct MoreConcrete final : Concrete
{
    std::vector<int> v;
    MoreConcrete() noexcept : v(50, 1) {}
    int what() const override { return 6; }
};
struct VirtualBase : virtual Empty
{
    double d = 1;
};
struct OwnAddressOf
{
    int i;
    explicit OwnAddressOf(int x = 3) noexcept : i(x)
    {
        ++tally.made;
        tally.last_made = this;
    }
    OwnAddressOf* operator&() { return nullptr; }
    const OwnAddressOf* operator&() const { return nullptr; }
    ~OwnAddressOf() { gone(this); }
};
// Classes with allocation functions of their own: the storage is the
// resource's all the same.
int own_new;
struct OnlyOwnNew
{
    long l[3];
    explicit OnlyOwnNew(long x) noexcept : l{x, x, x} { made(this); }
    ~OnlyOwnNew() { gone(this); }
    static void* operator new(std::size_t n)
    {
        ++own_new;
        return ::operator new(n);
    }
    static void operator delete(void* p)
    {
        ++own_new;
        ::operator delete(p);
    }
};
struct OwnPlacement
{
    long l[3];
    explicit OwnPlacement(long x) noexcept : l{x, x, x} { made(this); }
    ~OwnPlacement() { gone(this); }
    static void* operator new(std::size_t, void* p)
    {
        ++own_new;
        return p;
    }
    static void* operator new(std::size_t, OwnPlacement* p)
    {
        ++own_new;
        return p;
    }
    static void operator delete(void*) { ++own_new; }
    static void operator delete(void*, void*) { ++own_new; }
};
struct NoNew
{
    int i = 9;
    NoNew() noexcept { made(this); }
    ~NoNew() { gone(this); }
    static void* operator new(std::size_t) = delete;
    static void operator delete(void*) = delete;
};
struct alignas(128) Aligned
{
    char c[3];
    Aligned() noexcept { made(this); }
    ~Aligned() { gone(this); }
};
struct Large
{
    char c[70000];
    Large() noexcept
    {
        made(this);
        c[0] = c[69999] = 1;
    }
    ~Large() { gone(this); }
};
union Either
{
    int i;
    std::string s;
    Either() noexcept : i(4) { made(this); }
    ~Either() { gone(this); }
};
// makes and deletes objects of its own through the same allocator
struct Tree
{
    um::allocator<char>* a;
    Tree *left = nullptr, *right = nullptr;
    Tree(um::allocator<char>* x, int depth) noexcept : a(x)
    {
        made(this);
        if (depth)
        {
            left = a->new_object<Tree>(a, depth - 1);
            right = a->new_object<Tree>(a, depth - 1);
        }
    }
    ~Tree()
    {
        gone(this);
        a->delete_object(left);
        a->delete_object(right);
    }
};
struct TrivialEnd
{
    int i;
    TrivialEnd() noexcept : i(42) { made(this); }
};
struct Plain
{
    int i;
    double d;
    char c[5];
};
enum class Color : short
{
    red = -3
};

// destructible: whether ends can be observed
template <typename U, typename By = U, typename... As>
void shape(Storage& s, const char* what, bool destructible, int each,
           As&&... as)
{
    tally = {};
    s.rec.calls.clear();
    U* p = s.a.new_object<U>(std::forward<As>(as)...);
    vm::op("new_object<%s> -> %p", what, static_cast<void*>(p));
    vm::state(vm::hash(what, strlen(what)));
    VM_CHECK(p, "storage", "%s: null", what);
    VM_CHECK(!s.rec.calls.empty() && s.rec.calls[0].alloc &&
                 s.rec.calls[0].size >= sizeof(U) &&
                 s.rec.calls[0].align % alignof(U) == 0 &&
                 s.rec.calls[0].p == static_cast<void*>(p),
             "storage", "%s", what);
    VM_CHECK(tally.made == each && !tally.gone, "construction",
             "%s: %d constructions, %d destructions, not %d and 0", what,
             tally.made, tally.gone, each);
    s.rec.calls.clear();
    s.a.delete_object(static_cast<By*>(p));
    VM_CHECK(tally.made == each && tally.gone == (destructible ? each : 0),
             "destruction", "%s: %d destructions of %d", what, tally.gone,
             each);
    VM_CHECK(s.rec.calls.size() == static_cast<std::size_t>(each ? each : 1) &&
                 !s.rec.calls.back().alloc &&
                 s.rec.calls.back().p == static_cast<void*>(p),
             "destruction", "%s: %zu calls to the resource", what,
             s.rec.calls.size());
    vm::count("shapes of class");
}

template <typename U, typename V, typename... As>
void value(Storage& s, const char* what, const V& want, As&&... as)
{
    s.rec.calls.clear();
    U* p = s.a.new_object<U>(std::forward<As>(as)...);
    vm::op("new_object<%s>", what);
    VM_CHECK(p && *p == want, "construction", "%s: not the value given", what);
    s.rec.calls.clear();
    s.a.delete_object(p);
    VM_CHECK(s.rec.calls.size() == 1 && s.rec.calls[0].p == p, "destruction",
             "%s: %zu calls to the resource", what, s.rec.calls.size());
    vm::state(vm::hash(what, strlen(what)));
}

void shapes(vm::Rng& r, Storage& s)
{
    switch (r.below(23))
    {
        case 0: shape<Empty>(s, "Empty", true, 1); break;
        case 1: shape<EmptyFinal>(s, "EmptyFinal", true, 1); break;
        case 2: shape<EmptyDerived>(s, "EmptyDerived", true, 1); break;
        case 3: shape<OneByte>(s, "OneByte", true, 1, false); break;
        case 4: shape<NoMoves>(s, "NoMoves", true, 1); break;
        case 5:
            shape<MoveOnly>(s, "MoveOnly", true, 1, std::make_unique<int>(3));
            break;
        case 6: shape<Concrete>(s, "Concrete", true, 1); break;
        case 7:
            shape<Concrete, Abstract>(s, "Concrete by its base", true, 1);
            break;
        case 8:
            shape<MoreConcrete, Abstract>(s, "MoreConcrete by its base", true,
                                          1);
            break;
        case 9: shape<VirtualBase>(s, "VirtualBase", true, 1); break;
        case 10: shape<OwnAddressOf>(s, "OwnAddressOf", true, 1, 8); break;
        case 11: shape<Aligned>(s, "Aligned", true, 1); break;
        case 12: shape<Large>(s, "Large", true, 1); break;
        case 13: shape<Either>(s, "Either", true, 1); break;
        case 14:
        {
            const int depth = static_cast<int>(r.below(4));
            const int nodes = (1 << (depth + 1)) - 1;
            shape<Tree>(s, "Tree", true, nodes, &s.a, int{depth});
            break;
        }
        case 15: shape<TrivialEnd>(s, "TrivialEnd", false, 1); break;
        case 16:
        {
            // no arguments: value-initialized
            value<int>(s, "int()", 0);
            value<double>(s, "double()", 0.0);
            value<void*>(s, "void*()", nullptr);
            value<bool>(s, "bool()", false);
            Plain* p = s.a.new_object<Plain>();
            bool zero = p->i == 0 && p->d == 0;
            for (char c: p->c)
            {
                zero = zero && !c;
            }
            VM_CHECK(zero, "construction", "Plain() is not value-initialized");
            Plain* q = s.a.new_object<Plain>(Plain{1, 2, "abc"});
            VM_CHECK(q->i == 1 && q->d == 2 && !strcmp(q->c, "abc"),
                     "construction", "a copy of a Plain");
            s.a.delete_object(p);
            s.a.delete_object(q);
            break;
        }
        case 17:
        {
            const std::uint64_t x = r.any_width(64);
            value<std::uint64_t>(s, "uint64_t", x, std::uint64_t{x});
            value<signed char>(s, "signed char", static_cast<signed char>(x),
                               static_cast<signed char>(x));
            value<bool>(s, "bool", bool(x & 1), bool(x & 1));
            value<double>(s, "double", 2.5, 2.5);
            value<Color>(s, "Color", Color::red, Color::red);
            value<int*>(s, "int*", nullptr, nullptr);
            break;
        }
        case 18:
            own_new = 0;
            shape<OnlyOwnNew>(s, "OnlyOwnNew", true, 1, 7l);
            shape<OwnPlacement>(s, "OwnPlacement", true, 1, 7l);
            shape<NoNew>(s, "NoNew", true, 1);
            VM_CHECK(!own_new, "storage",
                     "%d calls to a class's own allocation functions", own_new);
            break;
        default:
        {
            // an array of objects, constructed and destroyed one by one
            const std::size_t n = 1 + r.below(20);
            tally = {};
            NoMoves* p = s.a.allocate_object<NoMoves>(n);
            for (std::size_t i = 0; i < n; ++i)
            {
                s.a.construct(p + i, static_cast<long>(i));
                VM_CHECK(tally.last_made == p + i, "construction",
                         "element %zu", i);
            }
            for (std::size_t i = 0; i < n; ++i)
            {
                VM_CHECK(p[i].l == static_cast<long>(i), "construction",
                         "element %zu", i);
                p[i].~NoMoves();
            }
            s.rec.calls.clear();
            s.a.deallocate_object(p);
            VM_CHECK(tally.made == static_cast<int>(n) &&
                         tally.gone == tally.made && s.rec.calls.size() == 1,
                     "construction", "%d of %zu", tally.made, n);
            vm::state(n);
            break;
        }
    }
    s.rec.calls.clear();
}

void objects(vm::Rng& r, std::uint64_t)
{
    Storage s;
    for (std::size_t k = 0; k < 4; ++k)
    {
        shapes(r, s);
    }
    const std::size_t n = 3 + r.below(12);
    for (std::size_t k = 0; k < n; ++k)
    {
        switch (r.below(5))
        {
            case 0: arguments<Probe<1, 1>>(r, s); break;
            case 1: arguments<Probe<40, 8>>(r, s); break;
            case 2: arguments<Probe<64, 64>>(r, s); break;
            case 3: arguments<Probe<300, 256>>(r, s); break;
            default: special(r, s); break;
        }
    }
    // several at once, deleted in random order
    std::vector<Probe<24, 8>*> live;
    for (std::size_t k = 0; k < n; ++k)
    {
        live.push_back(s.a.new_object<Probe<24, 8>>(static_cast<int>(k)));
    }
    while (!live.empty())
    {
        const std::size_t i = r.below(live.size());
        discard(s, live[i], "one of several");
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
    }
    VM_CHECK(!s.rec.outstanding(), "leak", "%zu objects' storage",
             s.rec.outstanding());
}
}  // namespace

int main(int argc, char** argv)
{
    return vm::run_main(argc, argv, MONITOR == 9 ? requests : objects);
}
