"""X01: uses that cannot be carried out. Each is a program that judges what the use
does, in a variant that makes sense and must compile and in variants that do not:
those may be refused by the compiler, and are judged like the others if they are not."""
import random
from string import Template

MEMORY = ["memory/memory.h", "memory/simple_resource.h", "memory/monotonic_buffer_resource.h"]


class Use:
    def __init__(self, name, headers, declare, body, right, wrong):
        self.name, self.headers, self.declare, self.body, self.right, self.wrong = name, headers, declare, body, right, wrong


def source(use, params):
    out = ["#include <vmon.h>", "#include <typegen.h>"]
    out += ["#include <utils/%s>" % h for h in use.headers]
    out.append(Template(use.declare).substitute(params))
    label = use.name + ": " + ", ".join("%s = %s" % x for x in sorted(params.items()))
    out.append("int main(int argc, char** argv)\n{\n    return vm::run_main(argc, argv, [](vm::Rng& rng, std::uint64_t)\n    {")
    out.append("    (void)rng;\n    static const char label[] = R\"~(%s)~\";" % label)
    out.append("    vm::op(\"%s\", label);\n    vm::state(vm::hash(label, sizeof label));\n    vm::count(\"uses judged\");")
    out.append(Template(use.body).substitute(params))
    out.append("    });\n}")
    return "\n".join(out) + "\n"


def holder(r):
    def p(size, align, hsize, halign):
        return dict(SIZE=size, ALIGN=align, HSIZE=hsize, HALIGN=halign)
    a = 1 << r.randrange(6)
    n = a * r.randrange(1, 9)
    b = 1 << r.randrange(1, 7)
    return Use("fast_pimpl", ["fast_pimpl.h"], "struct alignas($ALIGN) T { unsigned char b[$SIZE]; };\n"
               "struct Box { unsigned char before[64]; utils::fast_pimpl<T, $HSIZE, $HALIGN> h; unsigned char after[64]; };", """
    for (std::size_t offset = 0; offset < 128; offset += alignof(Box))
    {
        alignas(128) static unsigned char room[sizeof(Box) + 256];
        memset(room, 0, sizeof room);
        Box* box = ::new (static_cast<void*>(room + offset)) Box();
        memset(&box->before, 0, sizeof box->before);
        memset(&box->after, 0, sizeof box->after);
        const auto at = reinterpret_cast<std::uintptr_t>(&box->h.get()), in = reinterpret_cast<std::uintptr_t>(&box->h);
        VM_CHECK(at % alignof(T) == 0, "misaligned", "an object of alignment %zu is held at an address modulo %zu of %zu", alignof(T),
                 alignof(T), static_cast<std::size_t>(at % alignof(T)));
        VM_CHECK(at >= in && at + sizeof(T) <= in + sizeof box->h, "outside", "an object of %zu bytes is held by a holder of %zu",
                 sizeof(T), sizeof box->h);
        memset(box->h->b, 0xff, sizeof(T));
        for (std::size_t i = 0; i < 64; ++i)
        {
            VM_CHECK(!box->before[i] && !box->after[i], "neighbour", "storing in the held object changed its neighbour");
        }
        box->~Box();
    }""", p(n, a, n, a), [
        p(n + a, a, n, a), p(b * 4, b, b * 4, 1), p(b * 2, b, b * 2, b // 2), p(200, 1, r.randrange(1, 190), 1), p(64, 32, 32, 32)])


def timer_callback(r):
    own = "utils::timer"

    def p(size, align, timer=own):
        return dict(SIZE=size, ALIGN=align, TIMER=timer)

    def other(align, size):
        return "utils::details::timer<%d, %d, std::chrono::steady_clock>" % (align, size)
    big = r.randrange(17, 200)
    return Use("timer callback", ["timer.h"], """
    using Timer = $TIMER;
    struct Seen { const void* at; unsigned calls; bool intact; } seen;
    struct alignas($ALIGN) Callback
    {
        unsigned char b[$SIZE];
        template <typename T> void operator()(const T&) const
        {
            seen.at = this;
            ++seen.calls;
            seen.intact = true;
            for (unsigned char c: b) { seen.intact = seen.intact && c == 0x5a; }
        }
    };""", """
    Callback c;
    memset(&c, 0x5a, sizeof c);
    seen = {};
    for (std::size_t offset = 0; offset < 64; offset += alignof(Timer))
    {
        alignas(64) static unsigned char room[sizeof(Timer) + 512];
        memset(room, 0x11, sizeof room);
        seen = {};
        auto* t = ::new (static_cast<void*>(room + offset)) Timer(c);
        for (std::size_t i = 0; i < sizeof room; ++i)
        {
            VM_CHECK((i >= offset && i < offset + sizeof *t) || room[i] == 0x11, "neighbour", "a callback of %zu bytes changed what is next to its timer",
                     sizeof c);
        }
        memset(room + offset + sizeof *t, 0x22, sizeof room - offset - sizeof *t);
        t->~Timer();
        VM_CHECK(seen.calls == 1, "calls", "the callback was called %u times", seen.calls);
        VM_CHECK(seen.intact, "callback-damaged", "a callback of %zu bytes was called with other contents than it was given", sizeof c);
        VM_CHECK(reinterpret_cast<std::uintptr_t>(seen.at) % alignof(Callback) == 0, "misaligned", "a callback of alignment %zu was called at %p",
                 alignof(Callback), seen.at);
    }""", p(r.choice([1, 2, 4, 8]), 1), [p(big, 1), p(9, 1), p(16, 16), p(8 * r.randrange(2, 9), 8), p(32, 32),
        p(32, 32, other(16, 64)), p(64, 64, other(8, 64)), p(65, 1, other(8, 64)), p(16, 16, other(8, 16)), p(big + 1, 1, other(1, big))])


def timer_copy(r):
    def p(how):
        return dict(HOW=how)
    return Use("copy of a timer", ["timer.h"], "unsigned calls;", """
    calls = 0;
    {
        utils::timer t([](const utils::timer&) noexcept { ++calls; });
        utils::timer other([](const utils::timer&) noexcept { calls += 100; });
        $HOW;
    }
    VM_CHECK(calls % 100 == 1, "calls", "one callback was called %u times", calls % 100);""",
               p("utils::timer u(std::move(t))"), [
                   p("utils::timer u(t)"), p("const utils::timer& c = t; utils::timer u(c)"), p("other = t"),
                   p("other = static_cast<const utils::timer&>(t)"), p("utils::timer u(static_cast<const utils::timer&&>(t))"),
                   p("auto pair = std::make_pair(std::move(t), t)")])


def resource_copy(r):
    kinds = {"S": "utils::memory::simple_resource<16, 64>", "M": "utils::memory::monotonic_buffer_resource"}

    def p(kind, make, then):
        return dict(KIND=kinds[kind], MAKE=make, THEN=then)
    wrong = []
    for k in "SM":
        wrong += [p(k, "(second, sizeof second, nullptr)", x) for x in
                  ("b = a", "b = std::move(a)", "static_cast<utils::memory::memory_resource&>(b) = a; b = a")]
        wrong += [p(k, x, "") for x in ("(a)", "(std::move(a))")]
    return [Use("copy of a resource", MEMORY, "", """
    alignas(64) static std::byte first[1024], second[1024];
    using R = $KIND;
    R a(first, sizeof first, nullptr);
    void* p = a.allocate(64, 8);
    R b $MAKE;
    $THEN;
    auto* q = static_cast<std::byte*>(b.allocate(512, 8));
    auto* s = static_cast<std::byte*>(a.allocate(512, 8));
    VM_CHECK(!q || !s || q + 512 <= s || s + 512 <= q, "overlap", "two resources handed out the same bytes");
    VM_CHECK(s && p, "refused", "a resource with free room refused a request");
    if (q) { b.deallocate(q); }
    a.deallocate(s);
    a.deallocate(p);""", p(k, "(second, sizeof second, nullptr)", ""), [w for w in wrong if w["KIND"] == kinds[k]]) for k in "SM"]


def resource_base(r):
    def p(how):
        return dict(HOW=how)
    ways = ["static_cast<Base&>(s) = m", "static_cast<Base&>(m) = s", "static_cast<Base&>(s) = *utils::memory::null_memory_resource()",
            "static_cast<Base&>(m) = *utils::memory::null_memory_resource()",
            "static_cast<Base&>(s) = *utils::memory::system_memory_resource()",
            "*utils::memory::system_memory_resource() = *utils::memory::null_memory_resource()",
            "*utils::memory::null_memory_resource() = *utils::memory::system_memory_resource()",
            "*utils::memory::get_default_resource() = s"]
    return Use("assignment to a resource", MEMORY, "", """
    alignas(64) static std::byte first[1024], second[1024];
    using Base = utils::memory::memory_resource;
    utils::memory::simple_resource<16, 64> s(first, sizeof first, nullptr);
    utils::memory::monotonic_buffer_resource m(second, sizeof second, nullptr);
    $HOW;
    Base *const bs = &s, *const bm = &m;
    const auto* p = static_cast<std::byte*>(bs->allocate(100, 16));
    const auto* q = static_cast<std::byte*>(bm->allocate(100, 16));
    VM_CHECK(p >= first && p + 100 <= first + sizeof first, "replaced", "the block resource does not serve from its buffer any more");
    VM_CHECK(q >= second && q + 100 <= second + sizeof second, "replaced", "the monotonic resource does not serve from its buffer any more");
    bs->deallocate(const_cast<std::byte*>(p));
    bm->deallocate(const_cast<std::byte*>(q));
    void* sys = utils::memory::system_memory_resource()->allocate(100, 16);
    VM_CHECK(sys, "replaced", "the system resource does not serve any more");
    utils::memory::system_memory_resource()->deallocate(sys);
    VM_CHECK(!utils::memory::null_memory_resource()->allocate(1, 1), "replaced", "the null resource serves");""",
               p("Base* both[] = {&s, &m}; std::swap(both[0], both[1])"), [p(x) for x in ways])


def bit_cast(r):
    def p(f, t):
        return dict(FROM=f, TO=t)
    n = r.randrange(2, 60)
    return Use("bit_cast", ["common.h"], """
    template <int N> struct Bytes { unsigned char b[N]; };
    int live;
    struct Counted { unsigned char b[8] = {}; Counted() { ++live; } Counted(const Counted&) { ++live; } ~Counted() { --live; } };
    struct Destroyed { unsigned char b[8]; ~Destroyed() { --live; } };
    struct Copied { unsigned char b[8]; Copied() = default; Copied(const Copied& o) { memcpy(b, o.b, 8); ++b[0]; } };
    """, """
    live = 0;
    {
        $FROM from{};
        unsigned char before[sizeof from];
        for (std::size_t i = 0; i < sizeof from; ++i) { before[i] = static_cast<unsigned char>(i * 7 + 3); }
        memcpy(static_cast<void*>(&from), before, sizeof from);
        const int alive = live;
        const auto to = utils::bit_cast<$TO>(from);
        VM_CHECK(sizeof to == sizeof from && memcmp(static_cast<const void*>(&to), before, sizeof from) == 0, "changed", "%zu bytes were reinterpreted as %zu",
                 sizeof from, sizeof to);
        using From = $FROM;
        using To = std::remove_const_t<decltype(to)>;
        VM_CHECK(live - alive == (std::is_same_v<To, Counted> ? 1 : 0), "objects", "an object was reinterpreted that has to be constructed");
        VM_CHECK((std::is_trivially_copyable_v<From> && std::is_trivially_copyable_v<To>), "objects", "bytes of %s were taken for an object",
                 std::is_trivially_copyable_v<From> ? "a value" : "an object with constructors");
    }""", p("Bytes<%d>" % n, "std::array<unsigned char, %d>" % n), [
        p("unsigned", "unsigned long long"), p("unsigned long long", "unsigned"), p("Bytes<%d>" % n, "Bytes<%d>" % (n + 1)),
        p("Bytes<%d>" % n, "Bytes<%d>" % (n - 1)), p("Counted", "Bytes<8>"), p("Bytes<8>", "Counted"), p("Copied", "std::uint64_t"),
        p("std::uint64_t", "Copied"), p("Destroyed", "std::uint64_t"), p("char", "int")])


def copy_elements(r):
    def p(f, t):
        return dict(FROM=f, TO=t)
    return Use("memcpy", ["memory/memory.h"], """
    struct Pair { $TO to[4]; };
    constexpr Pair copied()
    {
        Pair p{};
        const $FROM from[4] = {static_cast<$FROM>(0x01020304), static_cast<$FROM>(0x11121314), static_cast<$FROM>(0x21222324), static_cast<$FROM>(0x31323334)};
        utils::memory::memcpy(p.to, from, 4);
        return p;
    }""", """
    constexpr Pair early = copied();
    Pair late{};
    volatile unsigned words[4] = {0x01020304, 0x11121314, 0x21222324, 0x31323334};
    $FROM from[4];
    for (int i = 0; i < 4; ++i) { from[i] = static_cast<$FROM>(words[i]); }
    utils::memory::memcpy(late.to, from, 4);
    VM_CHECK(memcmp(&early, &late, sizeof early) == 0, "differs", "the copy is another one in constant expressions");""",
               p("unsigned char", "unsigned char"), [
                   p("int", "int"), p("short", "unsigned char"), p("unsigned char", "int"), p("unsigned", "signed char"),
                   p("std::uint64_t", "std::uint64_t"), p("char16_t", "char16_t")])


def throwing(r):
    def p(spec, args, default=None, given="noexcept"):
        return dict(SPEC=spec, ARGS=args, DEFAULT=spec if default is None else default, GIVEN=given)
    return Use("new_object", ["memory/allocator.h"], """
    int armed, constructed;
    struct T
    {
        int v;
        T() $DEFAULT { go(); }
        T(int, const char*) $SPEC { go(); }
        T(const T&) $SPEC { go(); }
        void go() { if (armed) { throw 7; } ++constructed; }
    };
    struct Given { operator int() const $GIVEN { if (armed) { throw 7; } return 1; } };
    inline const Given given{};
    struct Count : utils::memory::memory_resource
    {
        int live = 0;
        Count() : memory_resource(&Count::allocate<Count>, &Count::deallocate<Count>) {}
        void* allocate_impl(std::size_t n, std::size_t) noexcept { ++live; return malloc(n); }
        void deallocate_impl(void* p) noexcept { --live; free(p); }
        bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }
    };""", """
    armed = 0;
    const T model{};
    constexpr bool may_throw = !noexcept(T($ARGS));
    Count resource;
    utils::memory::allocator<T> a(&resource);
    for (int i = 0; i < 2; ++i)
    {
        armed = i && may_throw;
        constructed = 0;
        bool caught = false;
        T* p = nullptr;
        try { p = a.new_object<T>($ARGS); } catch (int) { caught = true; }
        VM_CHECK(caught == (armed != 0), "exception-lost", "the exception of a constructor %s", caught ? "came from nowhere" : "got lost");
        VM_CHECK(armed || (p && constructed == 1), "not-constructed", "%d objects were constructed", constructed);
        armed = 0;
        if (p) { a.delete_object(p); }
        VM_CHECK(resource.live == 0, "leak", "the storage of an object that could not be constructed was kept");
    }""", p("noexcept", ""), [p("", ""), p("", '1, "a"'), p("noexcept(false)", "model"), p("noexcept(sizeof(int) == 8)", ""),
                                  p("", '1, "a"', "noexcept"), p("", "model", "noexcept"), p("noexcept", 'given, "a"', None, ""),
                                  p("noexcept", 'Given(), "a"', None, "noexcept(false)")])


def block_size(r):
    def p(size):
        return dict(SIZE=size)
    return Use("block size", ["memory/simple_resource.h"], "", """
    alignas(4096) static std::byte room[8192];
    for (std::size_t start = 0; start < 64; start += 1 + rng.below(9))
    {
        utils::memory::simple_resource<32, $SIZE> s(room + start, 4000, nullptr);
        void* got[64];
        unsigned n = 0;
        while (n < 64)
        {
            void* p = s.allocate(1 + n % $SIZE, 1);
            if (!p) { break; }
            const auto at = reinterpret_cast<std::uintptr_t>(p);
            VM_CHECK(at % $SIZE == 0, "not-a-block", "a region starts at %zu, which is no multiple of %d", static_cast<std::size_t>(at), $SIZE);
            VM_CHECK(at >= reinterpret_cast<std::uintptr_t>(room + start) && at + $SIZE <= reinterpret_cast<std::uintptr_t>(room + start + 4000),
                     "outside", "a block is not inside of the buffer");
            for (unsigned i = 0; i < n; ++i)
            {
                VM_CHECK(got[i] != p, "twice", "a block was handed out twice");
            }
            got[n++] = p;
        }
        const std::size_t first = (reinterpret_cast<std::uintptr_t>(room + start) + $SIZE - 1) / $SIZE * $SIZE;
        const std::size_t fit = (reinterpret_cast<std::uintptr_t>(room + start) + 4000 - first) / $SIZE;
        VM_CHECK(n == std::min<std::size_t>(fit, 32), "blocks", "%u blocks of %zu were handed out", n, std::min<std::size_t>(fit, 32));
        while (n) { s.deallocate(got[--n]); }
    }""", p(1 << r.randrange(4, 8)), [p(24), p(48), p(r.choice([3, 5, 7, 11])), p(r.choice([96, 100, 160]))])


def widths(r):
    def p(how, bits):
        return dict(HOW=how % bits, BITS=bits * (8 if "bytes" in how or "UInt" in how else 1))
    ways = ["utils::uint_from_nbits_t<%d>", "utils::fast_uint_from_nbits_t<%d>"]
    nbytes = ["utils::uint_from_nbytes_t<%d>", "utils::fast_uint_from_nbytes_t<%d>", "utils::UInt<%d>", "utils::FastUInt<%d>"]
    wrong = [p(w, b) for w in ways for b in (65, r.randrange(66, 256))] + [p(w, r.choice([9, 16, 31])) for w in nbytes] + \
        [p(w, r.choice([32, 33, 40])) for w in nbytes[:2]]
    return Use("width", ["common.h"], "", """
    using T = $HOW;
    VM_CHECK(sizeof(T) * 8 >= $BITS, "narrow", "a type of %zu bits stands for %d", sizeof(T) * 8, $BITS);""",
               p(ways[0], r.randrange(1, 65)), wrong)


def multiples(r):
    def p(n):
        return dict(N=n)
    return Use("next_multiple_of", ["common.h"], "", """
    for (int i = 0; i < 1000; ++i)
    {
        const std::uint64_t v = rng() >> (4 + rng.below(60)), got = utils::next_multiple_of<$N>(v);
        VM_CHECK(got % $N == 0 && got >= v && got - v < $N, "not-the-next", "the next multiple of %d from %" PRIu64 " on is %" PRIu64, $N, v, got);
    }""", p(1 << r.randrange(10)), [p(3), p(r.choice([6, 10, 12, 24])), p(r.choice([100, 1000, 4097]))])


def signed_bits(r):
    def p(t, of):
        return dict(T=t, OF=of)
    types = ["int", "signed char", "short", "long", "long long"]
    wrong = [p(r.choice(types), of) for of in ("nbits_occupied", "clz", "ctz") for _ in range(2)]
    return Use("signed bits", ["common.h", "clz.h", "ctz.h"], "", """
    using U = std::make_unsigned_t<$T>;
    constexpr int w = sizeof(U) * 8;
    for (int i = 0; i < 1000; ++i)
    {
        const auto bits = static_cast<U>(i == 0 ? U(-1) : i == 1 ? U(U(1) << (w - 1)) : U(rng() >> rng.below(w - 1)) | 1u << rng.below(7));
        const std::uint64_t b = bits;
        const int high = 64 - __builtin_clzll(b), low = __builtin_ctzll(b);
        const int got = static_cast<int>(utils::$OF(static_cast<$T>(bits)));
        const std::string_view of = "$OF";
        const int want = of == "clz" ? w - high : of == "ctz" ? low : high;
        VM_CHECK(got == want, "bits", "$OF of %" PRIx64 " in %d bits is %d, not %d", b, w, got, want);
    }""", p("unsigned", r.choice(["nbits_occupied", "clz", "ctz"])), wrong)


def positions(r):
    """A list has no such element: whatever comes out is wrong."""
    n = r.randrange(1, 12)
    ts = ", ".join(r.choice(["int", "char", "long*", "double"]) for _ in range(n))
    vs = ", ".join(str(r.randrange(-9, 9)) for _ in range(n))
    big = n + r.randrange(1, 300)

    def p(what, right=0):
        return dict(WHAT=what, RIGHT=right)
    L, V = "utils::type_list<%s>" % ts, "utils::value_list<%s>" % vs
    wrong = []
    for k in (n, big):
        wrong += ["%s::at<%d>* x = nullptr; (void)x" % (L, k), "utils::exclude_at_t<%s, %d>* x = nullptr; (void)x" % (L, k),
                  "(void)%s::at<%d>" % (V, k), "%s::at_t<%d>* x = nullptr; (void)x" % (V, k)]
    c = r.randrange(n)
    wrong += ["utils::sublist_t<%s, %d, %d>* x = nullptr; (void)x" % (L, c, n - c + r.randrange(1, 4)),
              "utils::sublist_t<%s, %d, 1>* x = nullptr; (void)x" % (L, n),
              "utils::sublist_t<%s, %d, 0>* x = nullptr; (void)x" % (L, big),
              "%s::at<%d, std::is_integral>* x = nullptr; (void)x" % (L, n),
              "%s::at<0, std::is_union>* x = nullptr; (void)x" % L,
              "(void)%s::min<unsigned long>" % V, "(void)%s::max<short>" % V, "(void)utils::value_list<>::min<int>",
              "(void)utils::value_list<>::max<int>", "utils::values_in_range_t<%d, %d>* x = nullptr; (void)x" % (n, n - 1),
              "utils::values_in_range_t<5u, 2u>* x = nullptr; (void)x"]
    return Use("position", ["value_list.h", "common.h"], "", """
    $WHAT;
    VM_CHECK($RIGHT, "out-of-nowhere", "there is no such element: %s", R"~($WHAT)~");""",
               p("%s::at<%d>* x = nullptr; (void)x; (void)%s::at<%d>; (void)%s::max<int>" % (L, n - 1, V, n - 1, V), 1), [p(w) for w in wrong])


def concatenation(r):
    def p(a, b):
        return dict(A=a, B=b)
    return Use("concatenate_arrays", ["common.h"], "", """
    volatile long long big = 0x7654321012345678, small = -3;
    const std::array<$A, 2> a = {static_cast<$A>(big), static_cast<$A>(small)};
    const std::array<$B, 3> b = {static_cast<$B>(small), static_cast<$B>(big), static_cast<$B>(big >> 8)};
    const auto c = utils::concatenate_arrays(a, b);
    VM_CHECK(c.size() == 5 && c[0] == a[0] && c[1] == a[1] && c[2] == b[0] && c[3] == b[1] && c[4] == b[2]
             && sizeof c[0] >= sizeof a[0] && sizeof c[0] >= sizeof b[0], "changed", "elements were changed");""",
               p("long", "long"), [p("int", "long"), p("char", "int"), p("unsigned", "long long"), p("double", "int"), p("int", "short")])


def uses(r):
    return [holder(r), timer_callback(r), timer_copy(r), *resource_copy(r), resource_base(r), bit_cast(r), copy_elements(r), throwing(r),
            block_size(r), widths(r), multiples(r), signed_bits(r), positions(r), concatenation(r)]


def x01(seed, tier):
    rng = random.Random("X01-%d" % seed)
    for rnd in range(1 if tier == "quick" else 6):
        for k, use in enumerate(uses(rng)):
            yield dict(name="x01_%d_%d.cpp" % (rnd, k), text=source(use, use.right), refusable=False)
            for i, wrong in enumerate(use.wrong):
                yield dict(name="x01_%d_%d_%d.cpp" % (rnd, k, i), text=source(use, wrong), refusable=True)
