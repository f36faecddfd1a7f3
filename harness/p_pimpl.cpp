// P01: the in-place implementation holder.
#include "vmon.h"

#include <optional>
#include <string>

#include <utils/fast_pimpl.h>

namespace
{
std::uint64_t heap_calls;
bool counting = true;
}  // namespace
#if !defined(__SANITIZE_ADDRESS__) && !defined(VM_SANITIZED)
void* operator new(std::size_t n)
{
    heap_calls += counting;
    if (void* p = std::malloc(n ? n : 1))
    {
        return p;
    }
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

namespace
{
enum Kind
{
    by_default,
    by_args,
    by_copy,
    by_move,
    copy_assigned,
    move_assigned,
    destroyed
};
const char* const kKind[] = {"default construction", "construction",
                             "copy construction",    "move construction",
                             "copy assignment",      "move assignment",
                             "destruction"};
struct Event
{
    Kind kind;
    const void* self;
    const void* other;
};
enum Cat
{
    lvalue,
    const_lvalue,
    rvalue,
    const_rvalue
};
template <typename A>
constexpr Cat cat()
{
    constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
    return std::is_lvalue_reference_v<A> ? (c ? const_lvalue : lvalue)
                                         : (c ? const_rvalue : rvalue);
}
struct World
{
    Event events[64];
    unsigned n = 0;
    struct ArgSeen
    {
        Cat c;
        const void* at;
    } args[8];
    unsigned nargs = 0;
    const void* live[64];
    unsigned nlive = 0;
    int throw_in = -1;  // kind of operation that throws next
    bool alive(const void* p) const
    {
        for (unsigned i = 0; i < nlive; ++i)
        {
            if (live[i] == p) return true;
        }
        return false;
    }
    void born(const void* p)
    {
        VM_CHECK(!alive(p), "constructed-twice",
                 "an object was constructed over a living one");
        live[nlive++] = p;
    }
    void died(const void* p)
    {
        for (unsigned i = 0; i < nlive; ++i)
        {
            if (live[i] == p)
            {
                live[i] = live[--nlive];
                return;
            }
        }
        vm::fail("destroyed-twice", "an object that does not live was destroyed");
    }
    void log(Kind k, const void* self, const void* other = nullptr)
    {
        if (n < 64) events[n++] = {k, self, other};
    }
} w;
struct Failure
{
};

// The held type. Mask: which operations are declared noexcept.
template <unsigned Mask, std::size_t N, std::size_t A>
class alignas(A) Impl
{
   public:
    static constexpr bool can_throw(Kind k) { return !(Mask >> k & 1); }
    Impl() noexcept(Mask >> by_default & 1) { start(by_default, nullptr, 0); }
    template <typename X, typename... Xs,
              typename = std::enable_if_t<!std::is_same_v<
                  std::remove_cv_t<std::remove_reference_t<X>>, Impl>>>
    explicit Impl(X&& x, Xs&&... xs) noexcept(Mask >> by_args & 1)
    {
        w.nargs = 0;
        w.args[w.nargs++] = {cat<X&&>(), &x};
        ((w.args[w.nargs++] = {cat<Xs&&>(), &xs}), ...);
        start(by_args, nullptr, static_cast<int>(sizeof...(Xs)) + 100);
    }
    Impl(const Impl& o) noexcept(Mask >> by_copy & 1)
    {
        o.check("copied from");
        start(by_copy, &o, o.value);
    }
    Impl(Impl&& o) noexcept(Mask >> by_move & 1)
    {
        o.check("moved from");
        start(by_move, &o, o.value);
        o.value = -1;
    }
    Impl& operator=(const Impl& o) noexcept(Mask >> copy_assigned & 1)
    {
        check("assigned to");
        o.check("assigned from");
        w.log(copy_assigned, this, &o);
        fail_if<copy_assigned>();
        value = o.value;
        return *this;
    }
    Impl& operator=(Impl&& o) noexcept(Mask >> move_assigned & 1)
    {
        check("assigned to");
        o.check("assigned from");
        w.log(move_assigned, this, &o);
        fail_if<move_assigned>();
        const int v = o.value;
        o.value = -1;
        value = v;
        return *this;
    }
    ~Impl()
    {
        check("destroyed");
        w.log(destroyed, this);
        w.died(this);
        self = nullptr;
    }
    int touch() { check("used"); return value; }
    int touch() const { check("used"); return ~value; }

    int value = 0;
    unsigned char payload[N];

   private:
    template <Kind K>
    void fail_if()
    {
        if constexpr (!(Mask >> K & 1))
        {
            if (w.throw_in == static_cast<int>(K))
            {
                throw Failure{};
            }
        }
    }
    void fail_ctor(Kind k)
    {
        if (w.throw_in == static_cast<int>(k) && can_throw(k))
        {
            throw Failure{};
        }
    }
    void start(Kind k, const void* other, int v)
    {
        VM_CHECK(reinterpret_cast<std::uintptr_t>(this) % A == 0, "misaligned",
                 "object at %p needs alignment %zu", static_cast<void*>(this),
                 A);
        w.log(k, this, other);
        fail_ctor(k);
        w.born(this);
        self = this;
        value = v;
        std::memset(payload, 0x3c, N);
    }
    void check(const char* what) const
    {
        VM_CHECK(w.alive(this) && self == this, "dead-object",
                 "an object that does not live was %s", what);
        VM_CHECK(payload[0] == 0x3c && payload[N - 1] == 0x3c, "overwritten",
                 "an object's contents changed before it was %s", what);
    }
    const Impl* self = nullptr;
};

template <typename T>
using Holder = utils::fast_pimpl<T, sizeof(T), alignof(T)>;

template <typename T>
void traits()
{
    using H = Holder<T>;
#define SAME(trait, what)                                              \
    VM_CHECK(std::trait<H>::value == std::trait<T>::value, "noexcept", \
             "%s: the holder is %snoexcept, the held type is %s", what, \
             std::trait<H>::value ? "" : "not ",                       \
             std::trait<T>::value ? "" : "not")
    SAME(is_nothrow_default_constructible, "default construction");
    SAME(is_nothrow_copy_constructible, "copy construction");
    SAME(is_nothrow_move_constructible, "move construction");
    SAME(is_nothrow_copy_assignable, "copy assignment");
    SAME(is_nothrow_move_assignable, "move assignment");
#undef SAME
#define SAME(a, b, what) \
    VM_CHECK((a) == (b), "noexcept", "%s: the holder is %snoexcept", what, (a) ? "" : "not ")
    SAME((std::is_nothrow_constructible_v<H, const T&>), std::is_nothrow_copy_constructible_v<T>, "construction from an object");
    SAME((std::is_nothrow_constructible_v<H, T&&>), std::is_nothrow_move_constructible_v<T>, "construction from a temporary object");
    SAME((std::is_nothrow_assignable_v<H&, const T&>), std::is_nothrow_copy_assignable_v<T>, "assignment from an object");
    SAME((std::is_nothrow_assignable_v<H&, T&&>), std::is_nothrow_move_assignable_v<T>, "assignment from a temporary object");
    SAME((std::is_nothrow_constructible_v<H, utils::forwarding_constructor>), std::is_nothrow_default_constructible_v<T>, "forwarding construction");
#undef SAME
    static_assert(std::is_nothrow_destructible_v<H>);
    VM_CHECK(sizeof(H) >= sizeof(T) && alignof(H) >= alignof(T), "size",
             "the holder has %zu bytes aligned %zu", sizeof(H), alignof(H));
}

template <unsigned Mask, std::size_t N, std::size_t A>
struct Machine
{
    using T = Impl<Mask, N, A>;
    using H = Holder<T>;
    static constexpr unsigned kSlots = 5;
    struct Slot
    {
        alignas(H) unsigned char raw[sizeof(H) + 2 * alignof(H)];
        unsigned char* at;
        H* h = nullptr;
        int value = 0;
    } slot[kSlots];
    alignas(T) unsigned char objects[2][sizeof(T)];
    T* object[2] = {nullptr, nullptr};

    // where the object must be
    T* held(Slot& s) { return &s.h->get(); }

    void judge(const char* what, Kind k, const void* self, const void* other,
               bool threw)
    {
        VM_CHECK(w.n == 1 && w.events[0].kind == k, "operation",
                 "%s made %u operations on the held object, first %s; one %s "
                 "expected",
                 what, w.n, w.n ? kKind[w.events[0].kind] : "none", kKind[k]);
        VM_CHECK(!self || w.events[0].self == self, "operation",
                 "%s worked on another object", what);
        VM_CHECK(w.events[0].other == other, "operation",
                 "%s was given another object", what);
        VM_CHECK(!heap_calls, "heap", "%s allocated memory", what);
        (void)threw;
        vm::op("%s%s", what, threw ? " threw" : "");
        vm::count(threw ? "exceptions" : "operations");
    }
    void inside(Slot& s)
    {
        auto* t = reinterpret_cast<unsigned char*>(&s.h->get());
        auto* h = reinterpret_cast<unsigned char*>(s.h);
        VM_CHECK(t >= h && t + sizeof(T) <= h + sizeof(H), "place",
                 "the object is not inside its holder");
        const H& ch = *s.h;
        VM_CHECK(&ch.get() == &s.h->get() && ch.operator->() == &ch.get() &&
                     s.h->operator->() == &s.h->get(),
                 "place", "accessors disagree");
        VM_CHECK((*s.h)->touch() == s.value && ch->touch() == ~s.value,
                 "value", "the held value is %d, not %d", s.h->get().value,
                 s.value);
    }

    void run(vm::Rng& r)
    {
        traits<T>();
        w = World{};
        for (auto& s: slot)
        {
            std::memset(s.raw, 0x99, sizeof s.raw);
            s.at = s.raw + alignof(H);
            s.h = nullptr;
        }
        for (auto& o: object)
        {
            w.throw_in = -1;
            o = new (objects[&o - object]) T();
            o->value = static_cast<int>(1000 + r.below(1000));
        }
        const unsigned steps = static_cast<unsigned>(10 + r.below(50));
        for (unsigned k = 0; k < steps; ++k)
        {
            Slot& s = slot[r.below(kSlots)];
            Slot& o = slot[r.below(kSlots)];
            w.n = 0;
            w.nargs = 0;
            w.throw_in =
                r.chance(1, 5) ? static_cast<int>(r.below(6)) : -1;
            counting = true;
            heap_calls = 0;
            T*& obj = object[r.below(2)];
            const unsigned before = w.nlive;
            if (!s.h)
            {
                construct(r, s, o, obj);
                VM_CHECK(w.nlive == before + (s.h != nullptr), "live-objects",
                         "%u objects live, %u before", w.nlive, before);
            }
            else if (r.chance(1, 4))
            {
                H* h = s.h;
                T* t = held(s);
                s.h = nullptr;
                h->~H();
                judge("destruction", destroyed, t, nullptr, false);
                VM_CHECK(w.nlive == before - 1, "live-objects", "%u", w.nlive);
            }
            else
            {
                assign(r, s, o, obj);
                VM_CHECK(w.nlive == before, "live-objects", "%u", w.nlive);
            }
            w.throw_in = -1;
            for (auto& x: slot)
            {
                if (x.h)
                {
                    inside(x);
                }
                for (std::size_t b = 0; b < alignof(H); ++b)
                {
                    VM_CHECK(x.raw[b] == 0x99 &&
                                 x.raw[sizeof x.raw - 1 - b] == 0x99,
                             "stray-write", "bytes outside of the holder");
                }
            }
            for (auto* x: object)
            {
                (void)x->touch();
            }
            vm::state(vm::mix(Mask) ^ (w.n ? w.events[0].kind : 9) ^
                      w.nlive * 16 ^ N << 16 ^ w.nargs * 1024);
        }
        for (auto& s: slot)
        {
            if (s.h)
            {
                s.h->~H();
                s.h = nullptr;
            }
        }
        for (auto*& o: object)
        {
            o->~T();
        }
        VM_CHECK(!w.nlive, "leak", "%u objects still live", w.nlive);
    }

    void construct(vm::Rng& r, Slot& s, Slot& o, T* obj)
    {
        const auto how = r.below(8);
        const char* what = "";
        Kind kind = by_default;
        const void* other = nullptr;
        int value = 0;
        bool threw = false;
        int i = 5;
        const std::string text = "const";
        World::ArgSeen given[8];
        unsigned ngiven = 0;
        int other_after = o.value;
        const int obj_before = obj->value;
        int obj_after = obj->value;
        try
        {
            switch (how)
            {
                case 0:
                    what = "default construction";
                    s.h = new (s.at) H();
                    break;
                case 1:
                    what = "forwarding construction without arguments";
                    s.h = new (s.at) H(utils::forwarding_constructor{});
                    break;
                case 2:
                {
                    what = "forwarding construction";
                    kind = by_args;
                    value = 101;
                    given[ngiven++] = {lvalue, &i};
                    given[ngiven++] = {const_lvalue, &text};
                    s.h = new (s.at) H(utils::forwarding_constructor{}, i, text);
                    break;
                }
                case 3:
                {
                    what = "forwarding construction";
                    kind = by_args;
                    value = 102;
                    double d = 1;
                    given[ngiven++] = {rvalue, &i};
                    given[ngiven++] = {const_rvalue, &text};
                    given[ngiven++] = {lvalue, &d};
                    s.h = new (s.at) H(utils::forwarding_constructor{},
                                       std::move(i), std::move(text), d);
                    break;
                }
                case 4:
                case 5:
                    if (!o.h)
                    {
                        return;
                    }
                    other = held(o);
                    value = o.value;
                    if (how == 4)
                    {
                        what = "copy construction";
                        kind = by_copy;
                        if (r.chance(1, 2))
                            s.h = new (s.at) H(static_cast<const H&>(*o.h));
                        else if (r.chance(1, 2))
                            s.h = new (s.at) H(*o.h);
                        else
                            s.h = new (s.at) H(static_cast<const H&&>(*o.h));
                    }
                    else
                    {
                        what = "move construction";
                        kind = by_move;
                        s.h = new (s.at) H(std::move(*o.h));
                        other_after = -1;
                    }
                    break;
                case 6:
                    other = obj;
                    value = obj->value;
                    what = "construction from an object";
                    kind = by_copy;
                    if (r.chance(1, 2))
                        s.h = new (s.at) H(static_cast<const T&>(*obj));
                    else
                        s.h = new (s.at) H(*obj);
                    break;
                default:
                    other = obj;
                    value = obj->value;
                    what = "construction from a temporary object";
                    kind = by_move;
                    s.h = new (s.at) H(std::move(*obj));
                    obj_after = -1;
                    break;
            }
        }
        catch (const Failure&)
        {
            threw = true;
        }
        const bool must_throw =
            w.throw_in == static_cast<int>(kind) && T::can_throw(kind);
        VM_CHECK(threw == must_throw, "exception",
                 "%s: an exception was %s", what, threw ? "invented" : "lost");
        judge(what, kind, s.h ? held(s) : nullptr, other, threw);
        VM_CHECK(w.nargs == ngiven, "arguments", "%s: %u arguments", what,
                 w.nargs);
        for (unsigned a = 0; a < ngiven; ++a)
        {
            VM_CHECK(w.args[a].c == given[a].c && w.args[a].at == given[a].at,
                     "arguments", "%s: argument %u arrived as %d, not %d", what,
                     a, w.args[a].c, given[a].c);
        }
        if (!threw)
        {
            s.value = value;
            if (&o != &s && o.h)
            {
                o.value = other_after;
            }
        }
        VM_CHECK(obj->value == (threw ? obj_before : obj_after), "other-object",
                 "%s changed the object given: %d", what, obj->value);
        if (obj->value == -1)
        {
            obj->value = static_cast<int>(1000 + r.below(1000));
        }
    }

    void assign(vm::Rng& r, Slot& s, Slot& o, T* obj)
    {
        const auto how = r.below(4);
        const char* what = "";
        Kind kind = copy_assigned;
        const void* other = obj;
        bool threw = false;
        T* me = held(s);
        const H* result = nullptr;
        const int mine = s.value;
        if (how < 2 && !o.h)
        {
            return;
        }
        const int before = o.h ? o.value : 0;
        const int obj_before = obj->value;
        try
        {
            switch (how)
            {
                case 0:
                    what = "copy assignment";
                    other = held(o);
                    result = r.chance(1, 2)
                                 ? &(*s.h = *o.h)
                                 : &(*s.h = static_cast<const H&>(*o.h));
                    s.value = o.value;
                    break;
                case 1:
                {
                    what = "move assignment";
                    kind = move_assigned;
                    other = held(o);
                    result = &(*s.h = std::move(*o.h));
                    const int v = o.value;
                    if (&o != &s)
                    {
                        o.value = -1;
                    }
                    s.value = v;
                    break;
                }
                case 2:
                    what = "assignment from an object";
                    result = r.chance(1, 2)
                                 ? &(*s.h = *obj)
                                 : &(*s.h = static_cast<const T&>(*obj));
                    s.value = obj_before;
                    break;
                default:
                    what = "assignment from a temporary object";
                    kind = move_assigned;
                    result = &(*s.h = std::move(*obj));
                    s.value = obj_before;
                    break;
            }
        }
        catch (const Failure&)
        {
            threw = true;
            s.value = mine;
        }
        const bool must_throw =
            w.throw_in == static_cast<int>(kind) && T::can_throw(kind);
        VM_CHECK(threw == must_throw, "exception", "%s: an exception was %s",
                 what, threw ? "invented" : "lost");
        judge(what, kind, me, other, threw);
        VM_CHECK(threw || result == s.h, "result",
                 "%s does not return the holder", what);
        VM_CHECK(obj->value == (how == 3 && !threw ? -1 : obj_before),
                 "other-object", "%s changed the object given: %d", what,
                 obj->value);
        (void)before;
        if (obj->value == -1)
        {
            obj->value = static_cast<int>(1000 + r.below(1000));
        }
    }
};

template <unsigned Mask>
void sizes(vm::Rng& r)
{
    switch (r.below(4))
    {
        case 0: { Machine<Mask, 1, 8> m; m.run(r); break; }
        case 1: { Machine<Mask, 40, 8> m; m.run(r); break; }
        case 2: { Machine<Mask, 100, 64> m; m.run(r); break; }
        default: { Machine<Mask, 500, 256> m; m.run(r); break; }
    }
}

struct MoveOnly
{
    std::unique_ptr<int> p;
    explicit MoveOnly(int v) : p(new int(v)) {}
};
struct Greedy
{
    // braces would choose this one
    int which;
    Greedy(std::initializer_list<int>) : which(1) {}
    Greedy(int, int) : which(2) {}
    Greedy() : which(3) {}
    explicit Greedy(int) : which(4) {}
};

// what a class does for itself is not how it is held: its own operator& is
// not asked for its place, its own allocation functions not for memory
int own_calls;
struct OwnAddressOf
{
    int v = 5;
    explicit OwnAddressOf(int x) : v(x) {}
    OwnAddressOf() = default;
    OwnAddressOf* operator&() { ++own_calls; return nullptr; }
    const OwnAddressOf* operator&() const { ++own_calls; return nullptr; }
};
struct NoAddressOf
{
    int v = 5;
    explicit NoAddressOf(int x) : v(x) {}
    NoAddressOf() = default;
    void operator&() const = delete;
};
struct OwnNew
{
    int v = 5;
    explicit OwnNew(int x) : v(x) {}
    OwnNew() = default;
    static void* operator new(std::size_t n) { ++own_calls; return ::operator new(n); }
    static void operator delete(void* p) { ++own_calls; ::operator delete(p); }
};
struct OwnPlacement
{
    int v = 5;
    explicit OwnPlacement(int x) : v(x) {}
    OwnPlacement() = default;
    static void* operator new(std::size_t, void* p) { ++own_calls; return p; }
    static void* operator new(std::size_t, OwnPlacement* p) { ++own_calls; return p; }
    static void operator delete(void*) { ++own_calls; }
    static void operator delete(void*, void*) { ++own_calls; }
};
struct NoNew
{
    int v = 5;
    explicit NoNew(int x) : v(x) {}
    NoNew() = default;
    static void* operator new(std::size_t) = delete;
    static void operator delete(void*) = delete;
};
// knows its own place, and its destructor does nothing
struct Rooted
{
    int v = 5;
    const Rooted* self = this;
    Rooted() = default;
    explicit Rooted(int x) : v(x) {}
    Rooted(const Rooted& o) noexcept : v(o.v) {}
    Rooted(Rooted&& o) noexcept : v(o.v) {}
    Rooted& operator=(const Rooted& o) noexcept { v = o.v; return *this; }
    Rooted& operator=(Rooted&& o) noexcept { v = o.v; return *this; }
};
static_assert(std::is_trivially_destructible_v<Rooted>);
struct Plain
{
    int v;
    double d;
    const char* text;
    unsigned char more[21];
};
struct Polymorphic
{
    int v = 5;
    Polymorphic() = default;
    explicit Polymorphic(int x) : v(x) {}
    Polymorphic(const Polymorphic&) = default;
    Polymorphic& operator=(const Polymorphic&) = default;
    virtual int get() const { return v; }
    virtual ~Polymorphic() { v = -2; }
};
struct Derived : Polymorphic
{
    int get() const override { return -v; }
};

template <typename T>
void custom(const char* what)
{
    own_calls = 0;
    {
        using H = Holder<T>;
        H a, b(utils::forwarding_constructor{}, 7);
        VM_CHECK(a.get().v == 5 && b.get().v == 7, "value", "%s", what);
        VM_CHECK(b->v == 7 && static_cast<const H&>(b)->v == 7, "value", "%s: by ->", what);
        VM_CHECK(b.operator->() == std::addressof(b.get()) &&
                     static_cast<const H&>(b).operator->() == std::addressof(b.get()) &&
                     static_cast<const void*>(std::addressof(b.get())) >= &b &&
                     static_cast<const void*>(std::addressof(b.get())) < &b + 1,
                 "place", "%s", what);
        H c(b), d(std::move(b)), e(T(8));
        const T t(9);
        H f(t);
        VM_CHECK(c->v == 7 && d->v == 7 && e->v == 8 && f->v == 9, "value", "%s", what);
        a = c;
        c = std::move(e);
        d = t;
        f = T(10);
        VM_CHECK(a->v == 7 && c->v == 8 && d->v == 9 && f->v == 10, "value", "%s", what);
        if constexpr (std::is_same_v<T, Rooted>)
        {
            for (const H* h: {&a, &b, &c, &d, &e, &f})
            {
                VM_CHECK(h->get().self == &h->get(), "operation",
                         "%s: copied bytewise", what);
            }
        }
    }
    VM_CHECK(!own_calls, "operation", "%s: %d calls to the class's own operators",
             what, own_calls);
    vm::op("%s", what);
    vm::count("classes with their own operators");
}

// The use the holder is made for: the type held is not known where the class is
// declared, stored, copied and moved, only where its members are defined.
class Widget
{
   public:
    Widget(const std::string& aName, int aN);
    Widget(const Widget&);
    Widget(Widget&&) noexcept;
    Widget& operator=(const Widget&);
    Widget& operator=(Widget&&) noexcept;
    ~Widget();
    std::string name() const;
    int add(int);

   private:
    struct Impl;
    static constexpr std::size_t kSize = sizeof(std::string) + sizeof(long);
    utils::fast_pimpl<Impl, kSize, alignof(std::string)> impl_;
};
static_assert(sizeof(Widget) == sizeof(std::string) + sizeof(long) &&
              alignof(Widget) == alignof(std::string));

struct Shelf
{
    std::vector<Widget> widgets;
    std::optional<Widget> last;
    void put(const std::string& aName, int aN)
    {
        widgets.emplace_back(aName, aN);
        last = widgets.back();
        widgets.insert(widgets.begin(), widgets.back());
        widgets.front() = std::move(widgets.back());
        widgets.pop_back();
    }
};
void hidden(vm::Rng& r);

void others(vm::Rng& r)
{
    hidden(r);
    counting = false;
    custom<OwnAddressOf>("a class with its own operator&");
    custom<NoAddressOf>("a class without operator&");
    custom<OwnNew>("a class with its own operator new");
    custom<OwnPlacement>("a class with its own placement new");
    custom<NoNew>("a class without operator new");
    custom<Polymorphic>("a class with virtual functions");
    custom<Rooted>("a class that knows its place");
    {
        // everything that is not set is zero, as by T()
        alignas(Holder<Plain>) unsigned char mem[sizeof(Holder<Plain>)];
        std::memset(mem, 0x5a, sizeof mem);
        auto* p = r.chance(1, 2) ? new (mem) Holder<Plain>()
                                 : new (mem) Holder<Plain>(utils::forwarding_constructor{});
        bool zero = !(*p)->v && (*p)->d == 0 && !(*p)->text;
        for (unsigned char c: (*p)->more) zero = zero && !c;
        VM_CHECK(zero, "value", "T() of an aggregate is not all zero");
        const Plain x{3, 2.5, "text", {1, 2, 3}};
        *p = x;
        VM_CHECK((*p)->v == 3 && (*p)->more[2] == 3 && !std::strcmp((*p)->text, "text"),
                 "value", "an aggregate");
        // a derived object given: its base is held
        Derived der;
        der.v = 4;
        Holder<Polymorphic> base(der);
        VM_CHECK(base->get() == 4, "value", "the base of a derived object: %d", base->get());
        der.v = 6;
        base = der;
        VM_CHECK(base->get() == 6, "value", "the base of a derived object: %d", base->get());
    }
    counting = false;
    // real types
    Holder<std::string> a(utils::forwarding_constructor{}, 30 + r.below(100), 'x');
    Holder<std::string> b(a), c(std::move(b));
    VM_CHECK(a.get() == c.get() && c->size() >= 30 && c.get()[0] == 'x',
             "value", "string");
    a = std::string("short");
    c = a;
    VM_CHECK(c.get() == "short" && a.get() == "short", "value", "string");
    Holder<MoveOnly> m(utils::forwarding_constructor{}, 7);
    Holder<MoveOnly> n(std::move(m));
    VM_CHECK(!m->p && *n->p == 7, "value", "move-only");
    m = std::move(n);
    VM_CHECK(!n->p && *m->p == 7, "value", "move-only");
    m = MoveOnly(8);
    Holder<MoveOnly> q(MoveOnly(9));
    VM_CHECK(*m->p == 8 && *q->p == 9, "value", "move-only");
    Holder<Greedy> g2(utils::forwarding_constructor{}, 1, 2);
    Holder<Greedy> g1(utils::forwarding_constructor{}, 1);
    Holder<Greedy> g0;
    VM_CHECK(g2->which == 2 && g1->which == 4 && g0->which == 3, "arguments",
             "another constructor was chosen: %d %d %d", g2->which, g1->which,
             g0->which);
    Holder<std::vector<int>> v(utils::forwarding_constructor{}, 5u, 3);
    VM_CHECK(v->size() == 5, "arguments", "vector(5, 3) has %zu elements",
             v->size());
    // value-initialization of plain types
    alignas(Holder<long>) unsigned char raw[sizeof(Holder<long>)];
    std::memset(raw, 0xff, sizeof raw);
    auto* z = new (raw) Holder<long>();
    VM_CHECK(z->get() == 0, "value", "T() of a long is %ld", z->get());
    const Holder<long> cz(utils::forwarding_constructor{}, 5);
    VM_CHECK(cz.get() == 5, "value", "long");
    vm::op("ordinary types");
}

struct Widget::Impl
{
    std::string name;
    long n;
    Impl(const std::string& aName, int aN) : name(aName), n(aN) {}
};
Widget::Widget(const std::string& aName, int aN)
    : impl_(utils::forwarding_constructor{}, aName, aN)
{
}
Widget::Widget(const Widget&) = default;
Widget::Widget(Widget&&) noexcept = default;
Widget& Widget::operator=(const Widget&) = default;
Widget& Widget::operator=(Widget&&) noexcept = default;
Widget::~Widget() = default;
std::string Widget::name() const { return impl_->name; }
int Widget::add(int n) { return static_cast<int>(impl_->n += n); }

void hidden(vm::Rng& r)
{
    Shelf shelf;
    std::vector<std::pair<std::string, int>> model;
    const unsigned n = 1 + static_cast<unsigned>(r.below(6));
    for (unsigned i = 0; i < n; ++i)
    {
        const std::string name(1 + r.below(60), static_cast<char>('a' + i));
        const int v = static_cast<int>(r.below(1000));
        shelf.put(name, v);
        model.insert(model.begin(), {name, v});
        VM_CHECK(shelf.last->name() == name && shelf.last->add(1) == v + 1,
                 "value", "a class with a hidden implementation lost its state");
    }
    const Shelf copy(shelf);
    for (unsigned i = 0; i < n; ++i)
    {
        VM_CHECK(shelf.widgets[i].name() == model[i].first &&
                     shelf.widgets[i].add(2) == model[i].second + 2 &&
                     copy.widgets[i].name() == model[i].first,
                 "value", "a class with a hidden implementation lost its state");
    }
    vm::count("classes with hidden implementations", n);
}

void run(vm::Rng& r, std::uint64_t)
{
    switch (r.below(12))
    {
        case 0: sizes<0>(r); break;
        case 1: sizes<63>(r); break;
        case 2: sizes<1u << by_default>(r); break;
        case 3: sizes<1u << by_args>(r); break;
        case 4: sizes<1u << by_copy>(r); break;
        case 5: sizes<1u << by_move>(r); break;
        case 6: sizes<1u << copy_assigned>(r); break;
        case 7: sizes<1u << move_assigned>(r); break;
        case 8: sizes<63u & ~(1u << by_copy)>(r); break;
        case 9: sizes<63u & ~(1u << by_move)>(r); break;
        case 10: sizes<1u << by_move | 1u << move_assigned>(r); break;
        default: sizes<1u << by_copy | 1u << copy_assigned>(r); break;
    }
    others(r);
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
