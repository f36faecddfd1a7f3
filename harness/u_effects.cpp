// U03: no hidden effects.
//
// All memory that the process obtains or frees while a call into the library
// runs is counted (malloc and its family are replaced, or hooked in builds with
// AddressSanitizer), except what the system layer and user types do. Each call
// is also watched for changes of the error number, the rounding mode and
// signals, some cases run in a process whose output is captured, and work on
// much memory or many regions is done on a small stack.
#include "vmon.h"

#include <cerrno>
#include <cfenv>
#include <chrono>
#include <pthread.h>

#include <utils/cartesian_product.h>
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/fast_pimpl.h>
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
#include <utils/timer.h>

namespace
{
// true while a call into the library runs in this thread
thread_local volatile bool inside = false;
thread_local volatile std::uint64_t obtained = 0, freed = 0;
void on_obtain()
{
    if (inside)
    {
        obtained = obtained + 1;
    }
}
void on_free(const void* p)
{
    if (inside && p)
    {
        freed = freed + 1;
    }
}
}  // namespace

#if defined(__SANITIZE_ADDRESS__) || defined(VM_SANITIZED)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t),
                                                         void (*)(const volatile void*));
namespace
{
const int installed = __sanitizer_install_malloc_and_free_hooks(
    [](const volatile void*, std::size_t) { on_obtain(); },
    [](const volatile void* p) { on_free(const_cast<const void*>(p)); });
}
#else
extern "C"
{
    void* __libc_malloc(std::size_t);
    void* __libc_calloc(std::size_t, std::size_t);
    void* __libc_realloc(void*, std::size_t);
    void* __libc_memalign(std::size_t, std::size_t);
    void __libc_free(void*);
    void* malloc(std::size_t n) noexcept
    {
        on_obtain();
        return __libc_malloc(n);
    }
    void* calloc(std::size_t n, std::size_t m) noexcept
    {
        on_obtain();
        return __libc_calloc(n, m);
    }
    void* realloc(void* p, std::size_t n) noexcept
    {
        on_obtain();
        return __libc_realloc(p, n);
    }
    void* memalign(std::size_t a, std::size_t n) noexcept
    {
        on_obtain();
        return __libc_memalign(a, n);
    }
    void* aligned_alloc(std::size_t a, std::size_t n) noexcept
    {
        on_obtain();
        return __libc_memalign(a, n);
    }
    int posix_memalign(void** out, std::size_t a, std::size_t n) noexcept
    {
        on_obtain();
        void* p = __libc_memalign(a, n);
        if (!p)
        {
            return ENOMEM;
        }
        *out = p;
        return 0;
    }
    void free(void* p) noexcept
    {
        on_free(p);
        __libc_free(p);
    }
}
#endif

namespace
{
namespace um = utils::memory;

struct Outside  // what user code does while the library runs
{
    bool was = inside;
    int e = errno;
    Outside() { inside = false; }
    ~Outside()
    {
        errno = e;
        inside = was;
    }
};
std::uint64_t system_requests, system_frees;
int system_memalign(void** out, std::size_t a, std::size_t n)
{
    Outside o;
    ++system_requests;
    return ::posix_memalign(out, a, n);
}
void system_free(void* p)
{
    Outside o;
    system_frees += p != nullptr;
    ::free(p);
}

std::uint64_t calls;
pid_t own_pid = 1, pid = 0;
sigset_t mask;
struct sigaction act;
bool quiet;  // the output of this process is the observation
template <typename... A>
[[noreturn]] void bad(const char* key, const char* f, A... a)
{
    inside = false;
    if (quiet)
    {
        fprintf(stderr, f, a...);
        _exit(3);
    }
    vm::fail(key, f, a...);
}

template <typename F>
auto lib(const char* what, F&& f)
{
    const int e = 11000 + static_cast<int>(calls % 100);
    const int round = fegetround();
    // as they were before the first call in this process
    if (pid != own_pid)
    {
        pid = own_pid;
        pthread_sigmask(SIG_SETMASK, nullptr, &mask);
        sigaction(SIGABRT, nullptr, &act);
    }
    const bool signals = ++calls % 16 == 0;
    obtained = freed = 0;
    const auto check = [&]
    {
        inside = false;
        const int e2 = errno;
        if (obtained || freed)
        {
            bad("hidden-memory", "%s: %" PRIu64 " blocks obtained, %" PRIu64 " freed besides those of the user", what,
                std::uint64_t{obtained}, std::uint64_t{freed});
        }
        if (e2 != e)
        {
            bad("errno", "%s: the error number changed to %d", what, e2);
        }
        if (fegetround() != round)
        {
            bad("rounding", "%s: the rounding mode changed", what);
        }
        if (signals)
        {
            sigset_t mask2;
            struct sigaction act2;
            pthread_sigmask(SIG_SETMASK, nullptr, &mask2);
            sigaction(SIGABRT, nullptr, &act2);
            bool same = act.sa_handler == act2.sa_handler;
            for (int i = 1; i < 32; ++i)
            {
                same = same && sigismember(&mask, i) == sigismember(&mask2, i);
            }
            if (!same)
            {
                bad("signals", "%s: signal mask or handler changed", what);
            }
        }
    };
    errno = e;
    inside = true;
    if constexpr (std::is_void_v<decltype(f())>)
    {
        f();
        check();
    }
    else
    {
        auto r = f();
        check();
        return r;
    }
}

// --- the operations ---------------------------------------------------------
struct Upstream final : um::memory_resource
{
    friend class um::memory_resource;
    std::vector<void*> live;
    unsigned refuse;
    explicit Upstream(unsigned r)
        : memory_resource(&Upstream::allocate<Upstream>, &Upstream::deallocate<Upstream>), refuse(r)
    {
    }
    bool is_equal(const um::memory_resource& o) const noexcept override { return &o == this; }
    void* allocate_impl(std::size_t n, std::size_t a) noexcept
    {
        Outside o;
        if (n > 100000 || live.size() % 7 < refuse)
        {
            return nullptr;
        }
        void* p = nullptr;
        if (::posix_memalign(&p, std::max(a, sizeof p), n))
        {
            return nullptr;
        }
        live.push_back(p);
        return p;
    }
    void deallocate_impl(void* p) noexcept
    {
        Outside o;
        live.erase(std::find(live.begin(), live.end(), p));
        ::free(p);
    }
    ~Upstream() override
    {
        for (void* p: live)
        {
            ::free(p);
        }
    }
};

template <std::size_t S, std::size_t A>
struct alignas(A) Thing
{
    unsigned char bytes[S];
    Thing() noexcept { bytes[0] = 1; }
    explicit Thing(int v) noexcept { bytes[0] = static_cast<unsigned char>(v); }
    ~Thing() { bytes[0] = 0; }
    Thing(const Thing&) = default;
    Thing& operator=(const Thing&) = default;
};

template <typename Res>
void on_resource(vm::Rng& r, Res& res, um::memory_resource* up, const std::byte* buf, std::size_t size, bool bump)
{
    struct Live
    {
        void* p;
        int kind;
    };
    std::vector<Live> live;
    um::allocator<Thing<40, 8>> a(&res);
    const auto local = [&](void* p) { return p >= buf && p < buf + size; };
    for (auto n = 10 + r.below(80); n; --n)
    {
        const auto k = r.below(12);
        if (k < 4 || live.empty())
        {
            const std::size_t want = r.below(r.chance(1, 6) ? 200000 : 200), al = std::size_t{1} << r.below(13);
            const auto s0 = system_requests;
            void* p = lib("allocate", [&] { return static_cast<um::memory_resource&>(res).allocate(want, al); });
            vm::op("allocate(%zu, %zu): %d", want, al, p ? local(p) ? 1 : 2 : 0);
            if (system_requests - s0 > 1 || (p && local(p) && system_requests != s0))
            {
                bad("system-requests", "%" PRIu64 " requests to the system for one region", system_requests - s0);
            }
            if (p)
            {
                live.push_back({p, 0});
            }
        }
        else if (k < 5)
        {
            auto* p = lib("new_object", [&] { return a.template new_object<Thing<40, 8>>(3); });
            if (p)
            {
                live.push_back({p, 1});
            }
        }
        else if (k < 6)
        {
            auto* p = lib("new_object", [&] { return a.template new_object<Thing<100, 64>>(); });
            if (p)
            {
                live.push_back({p, 2});
            }
        }
        else if (k < 7)
        {
            auto* p = lib("allocator",
                          [&]
                          {
                              um::allocator<Thing<100, 64>> b(a);
                              switch (r.below(3))
                              {
                                  case 0: return b.allocate(1 + r.below(5));
                                  case 1: return b.template allocate_object<Thing<100, 64>>();
                                  default:
                                      return static_cast<Thing<100, 64>*>(b.allocate_bytes(200));
                              }
                          });
            if (p)
            {
                live.push_back({p, 3});
            }
        }
        else if (k < 11)
        {
            const std::size_t i = r.below(live.size());
            const Live x = live[i];
            live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
            vm::op("give back kind %d", x.kind);
            if (bump && !local(x.p))
            {
                up->deallocate(x.p);
                continue;
            }
            lib("give back",
                [&]
                {
                    switch (x.kind)
                    {
                        case 0: static_cast<um::memory_resource&>(res).deallocate(x.p); break;
                        case 1: a.delete_object(static_cast<Thing<40, 8>*>(x.p)); break;
                        case 2: a.delete_object(static_cast<Thing<100, 64>*>(x.p)); break;
                        default:
                            switch (r.below(3))
                            {
                                case 0: a.deallocate_bytes(x.p); break;
                                case 1: a.deallocate(static_cast<Thing<40, 8>*>(x.p)); break;
                                default: a.deallocate_object(static_cast<Thing<100, 64>*>(x.p)); break;
                            }
                            break;
                    }
                });
        }
        else
        {
            for (std::size_t i = live.size(); i-- > 0;)
            {
                if (!local(live[i].p))
                {
                    up->deallocate(live[i].p);
                }
            }
            live.clear();
            vm::op("release");
            lib("release", [&] { res.release(); });
        }
        lib("inspect",
            [&]
            {
                bool x = res.size() > 3;
                x ^= res == *um::null_memory_resource();
                x ^= res.data() == nullptr;
                x ^= res.is_equal(res) + (res != res);
                const um::allocator<Thing<40, 8>> b(a);
                const um::allocator<char> c(a);
                x ^= (a == b) + (a != b) + (a == c) + (c != a) + (b.resource() == c.resource());
                if constexpr (std::is_same_v<Res, um::monotonic_buffer_resource>)
                {
                    return x;
                }
                else
                {
                    x ^= res.infos()[0].next_index() > 1;
                    if (res.size())
                    {
                        x ^= res.in_use(0) + (res.block_size(0) > 1) + (res.block_size_in_bytes(0) > 9);
                        x ^= static_cast<const Res&>(res).at(0).prev_index() > 0;
                    }
                    return x ^ (res.busy_count() + res.free_count() > 2);
                }
            });
        vm::state(vm::mix(k) ^ live.size() * 64);
    }
    for (auto& x: live)
    {
        if (!local(x.p))
        {
            up->deallocate(x.p);
        }
    }
    lib("release", [&] { res.release(); });
}

alignas(4096) std::byte room[8192];

template <typename Res>
void with_resource(vm::Rng& r, bool bump)
{
    Upstream mine(static_cast<unsigned>(r.below(8)));
    const auto which = r.below(4);
    um::memory_resource* up = lib("accessors",
                                  [&]() -> um::memory_resource*
                                  {
                                      switch (which)
                                      {
                                          case 0: return um::system_memory_resource();
                                          case 1: return um::null_memory_resource();
                                          case 2: return um::get_default_resource();
                                          default: return &mine;
                                      }
                                  });
    alignas(Res) static unsigned char place[sizeof(Res)];
    std::byte* const at = room + r.below(100);
    const std::size_t size = 100 + r.below(6000);
    const bool named = which != 2;
    Res* res = lib("constructor",
                   [&] { return named ? ::new (place) Res(at, size, up) : ::new (place) Res(at, size); });
    vm::op("resource of %zu bytes on upstream %d", size, static_cast<int>(which));
    on_resource(r, *res, up, room, sizeof room, bump);
    lib("destructor", [&] { res->~Res(); });
}

void on_system(vm::Rng& r)
{
    std::vector<void*> live;
    for (auto n = 5 + r.below(30); n; --n)
    {
        const auto s0 = system_requests, f0 = system_frees;
        if (live.empty() || r.chance(1, 2))
        {
            const std::size_t want = 1 + r.below(500), al = std::size_t{1} << r.below(13);
            const auto k = r.below(3);
            void* p = lib("system resource",
                          [&]
                          {
                              return k == 0   ? um::system_memory_resource()->allocate(want, al)
                                     : k == 1 ? um::aligned_malloc(want, al)
                                              : um::allocator<char>().allocate_bytes(want, al);
                          });
            if (system_requests != s0 + 1 || system_frees != f0)
            {
                bad("system-requests", "%" PRIu64 " requests to the system for one block", system_requests - s0);
            }
            live.push_back(p);
        }
        else
        {
            void* p = live.back();
            live.pop_back();
            const bool k = r.chance(1, 2);
            lib("system resource",
                [&] { k ? um::system_memory_resource()->deallocate(p) : um::aligned_free(p); });
            if (system_frees != f0 + 1 || system_requests != s0)
            {
                bad("system-requests", "%" PRIu64 " blocks freed for one", system_frees - f0);
            }
        }
        vm::state(live.size() + 4096);
    }
    for (void* p: live)
    {
        um::aligned_free(p);
    }
}

template <std::size_t S, std::size_t A>
void on_holder(vm::Rng& r)
{
    using T = Thing<S, A>;
    using H = utils::fast_pimpl<T, sizeof(T), alignof(T)>;
    alignas(H) static unsigned char p1[sizeof(H)], p2[sizeof(H)], p3[sizeof(H)];
    H* a = lib("holder", [&] { return ::new (p1) H(); });
    H* b = lib("holder", [&] { return ::new (p2) H(utils::forwarding_constructor{}, 7); });
    for (auto n = 3 + r.below(10); n; --n)
    {
        const auto k = r.below(6);
        lib("holder",
            [&]
            {
                switch (k)
                {
                    case 0: *a = *b; break;
                    case 1: *b = std::move(*a); break;
                    case 2: *a = T(5); break;
                    case 3:
                    {
                        H* c = ::new (p3) H(*a);
                        *b = std::move(*c);
                        c->~H();
                        break;
                    }
                    case 4: (*a)->bytes[0] = b->get().bytes[0]; break;
                    default:
                    {
                        H* c = ::new (p3) H(std::move(*b));
                        c->~H();
                        break;
                    }
                }
            });
    }
    vm::state(S * 8192 + A);
    lib("holder", [&] { a->~H(), b->~H(); });
}

template <typename T>
struct rebind;
template <template <std::size_t, std::size_t, typename> class T, std::size_t A, std::size_t S, typename C>
struct rebind<T<A, S, C>>
{
    template <std::size_t A2, std::size_t S2, typename C2>
    using type = T<A2, S2, C2>;
};
std::uint64_t ended;
template <std::size_t S, std::size_t A>
struct alignas(A) OnEnd
{
    unsigned char bytes[S] = {};
    template <typename T>
    void operator()(const T&) const noexcept
    {
        ended += 1 + bytes[S - 1];
    }
};
void end_function(const utils::timer&) noexcept
{
    ++ended;
}
template <typename T, typename C>
void on_timer(vm::Rng& r, C c)
{
    alignas(T) static unsigned char p1[sizeof(T)], p2[sizeof(T)];
    T* a = lib("timer", [&] { return ::new (p1) T(c); });
    T* b = lib("timer", [&] { return ::new (p2) T(std::move(*a)); });
    for (auto n = 3 + r.below(10); n; --n)
    {
        const auto k = r.below(6);
        lib("timer",
            [&]
            {
                switch (k)
                {
                    case 0: *a = std::move(*b); break;
                    case 1: *b = std::move(*a); break;
                    case 2: a->reset(); break;
                    case 3: ended += a->leaked_sec().count() > 100; break;
                    case 4:
                    {
                        T t(c);
                        *a = std::move(t);
                        break;
                    }
                    default:
                        ended += b->leaked().count() < 0 || b->leaked_nano_sec().count() < 0 ||
                                 a->leaked_micro_sec().count() < 0 || a->leaked_milli_sec().count() < 0;
                        break;
                }
            });
    }
    vm::state(sizeof(T) * 16384);
    lib("timer", [&] { a->~T(), b->~T(); });
}

struct Elem
{
    std::uint64_t v = 0;
    Elem() = default;
    Elem(std::uint64_t x) noexcept : v(x) {}
    Elem(const Elem& o) noexcept : v(o.v) {}
    Elem& operator=(const Elem&) = default;
    bool operator==(const Elem& o) const { return v == o.v; }
    bool operator!=(const Elem& o) const { return v != o.v; }
};

void on_values(vm::Rng& r)
{
    static std::byte x[70000], y[70000];
    for (auto n = 4 + r.below(12); n; --n)
    {
        const std::uint64_t v = r.any_width() | 1, w = r.any_width();
        const auto k = r.below(9);
        const std::size_t size = r.below(r.chance(1, 4) ? 60000 : 300), off = r.below(5000);
        const char* const names[] = {"counts", "division",  "bits",   "alignment", "bytes",
                                     "arrays", "iteration", "shifts", "conditional abort"};
        const bool same = lib(
            names[k],
            [&]() -> bool
            {
                switch (k)
                {
                    case 0: return utils::ctz(v << 3) + utils::clz(v) + utils::ctz(static_cast<std::uint8_t>(v)) +
                                       utils::clz(static_cast<std::uint32_t>(v)) +
                                       utils::clz(static_cast<std::uint16_t>(v)) +
                                       utils::ctz(static_cast<std::uint32_t>(v)) >
                                   3;
                    case 1:
                    {
                        const auto d = utils::div(static_cast<std::int64_t>(w >> 1), std::int32_t{17});
                        const auto e = utils::div_as<std::uint64_t>(w, v);
                        return d.rem == 3 || e.quot * v + e.rem == w;
                    }
                    case 2:
                        return utils::bits_count(w) + utils::nbits_occupied(v) + utils::kNumBitsTable[w & 255] +
                                   utils::is_power_of_2(w) + utils::greatest_divisor_that_is_power_of_2(v) +
                                   static_cast<std::size_t>(utils::to_underlying(static_cast<std::byte>(w))) >
                               4;
                    case 3:
                        return utils::skip_to_align(x + size, 64) + utils::max_alignment_inside_block(64, 1 + size) +
                                   utils::next_multiple_of(256, w >> 10) +
                                   utils::next_multiple_of<32>(v >> 9) + um::get_alignment(y + off) +
                                   utils::is_aligned(x, 64) >
                               5;
                    case 4:
                        um::memmove(x + off, x, size);
                        um::memmove(x, x + off, size);
                        um::memcpy(y, x, size);
                        um::secure_zero_memory(y + off, size);
                        return um::secure_zero_memory_safe(y, size) == 0 || utils::memvcmp(y, 0, size + off);
                    case 5:
                    {
                        const auto a = utils::make_array(Elem(v), Elem(w), Elem(3));
                        const auto b = utils::make_array<Elem, 40>(a[1]);
                        const auto c = utils::concatenate_arrays(a, b, a);
                        const auto z = utils::make_zero_array<std::uint64_t, 100>();
                        const auto g = utils::make_array_from_range<3, 400, 2>();
                        const std::string_view text(names[k % 9]);
                        const auto t = utils::make_array<4, char>(text);
                        const auto s = utils::sv_to_array<0, 2, 4>(text);
                        if (t[0] != text[0] || s[2] != text[4]) return false;
                        return utils::is_equal(c, c) || c[45] == a[2] || z[99] + static_cast<std::uint64_t>(g[9]) > 3;
                    }
                    case 6:
                    {
                        std::uint64_t sum = 0;
                        utils::for_each_arg([&](const auto& e) { sum += static_cast<std::uint64_t>(e); }, v, 7, 2.5f);
                        utils::for_each_in_tuple([&](auto&& e) { sum += static_cast<std::uint64_t>(e); },
                                                 std::make_tuple(w, 'a', 1.5f));
                        return sum > 7;
                    }
                    case 7:
                        return utils::shift_left(static_cast<std::uint16_t>(v), size % 16) +
                                   utils::shift_right(w, off % 64) +
                                   utils::bit_cast<std::uint64_t>(utils::bit_cast<double>(v & 0x7fefffffffffffff)) >
                               9;
                    default:
                        utils::abort_if(v == 0, "never %d %s", 1, "text");
                        UTILS_ABORT_IF(v == 0, "\nnever %d", 3);
                        UTILS_DEBUG_ABORT_IF(v == 0);
                        return v == 0;
                }
            });
        vm::count(names[k]);
        vm::state(k * 2 + same + 777777);
    }
}

// Much memory and many regions, with little stack.
constexpr std::size_t kMuch = std::size_t{4} << 20;
constexpr std::size_t kBlocks = 40000;
std::byte* much;
template <typename F>
void on_small_stack(F&& f)
{
    pthread_attr_t attr;
    pthread_attr_init(&attr);
#if defined(__SANITIZE_ADDRESS__) || defined(VM_SANITIZED) || !defined(NDEBUG)
    pthread_attr_setstacksize(&attr, 192 << 10);
#else
    pthread_attr_setstacksize(&attr, 96 << 10);
#endif
    pthread_t t;
    auto* body = &f;
    VM_CHECK(pthread_create(
                 &t, &attr,
                 [](void* p) -> void*
                 {
                     (*static_cast<decltype(body)>(p))();
                     return nullptr;
                 },
                 body) == 0,
             "harness", "no thread");
    pthread_join(t, nullptr);
    pthread_attr_destroy(&attr);
}
void big(vm::Rng& r)
{
    using Res = um::simple_resource<kBlocks, 16>;
    static void* live[kBlocks];
    alignas(Res) static unsigned char place[sizeof(Res)];
    if (!much)
    {
        much = static_cast<std::byte*>(::aligned_alloc(4096, kMuch));
        std::memset(much, 1, kMuch);
    }
    on_small_stack(
        [&]
        {
            const auto k = r.below(3);
            vm::op("with little stack: %d", static_cast<int>(k));
            if (k == 0)
            {
                const std::size_t off = r.below(kMuch / 2), n = r.below(kMuch - off);
                lib("bytes",
                    [&]
                    {
                        um::memmove(much + off, much, n);
                        um::memmove(much, much + off, n);
                        um::memcpy(much, much + kMuch / 2, kMuch / 2);
                        um::secure_zero_memory(much + off, n);
                        return utils::memvcmp(much + off, 0, n);
                    });
            }
            else if (k == 1)
            {
                alignas(um::monotonic_buffer_resource) unsigned char at[sizeof(um::monotonic_buffer_resource)];
                auto* m = lib("constructor", [&] { return ::new (at) um::monotonic_buffer_resource(much, kMuch, nullptr); });
                lib("allocate",
                    [&]
                    {
                        for (std::size_t i = 0; i < 20000; ++i)
                        {
                            (void)m->allocate(1 + i % 200, 8);
                        }
                        m->release();
                        return m->allocate(kMuch, 1) != nullptr;
                    });
                m->~monotonic_buffer_resource();
            }
            else
            {
                auto* s = lib("constructor", [&] { return ::new (place) Res(much, kBlocks * 16, nullptr); });
                const auto way = r.below(3);
                // from behind, so that no search is long
                std::size_t n = 0;
                void* rest = nullptr;
                lib("allocate",
                    [&]
                    {
                        void* p = s->allocate(kBlocks * 16, 16);
                        s->deallocate(p);
                        p = s->allocate(16 * 30000, 16);
                        while (n < 10000)
                        {
                            live[n] = s->allocate(16, 16);
                            if (!live[n])
                            {
                                break;
                            }
                            // alternate regions stay free
                            ++n;
                            if (n >= 3000)
                            {
                                break;
                            }
                        }
                        rest = p;
                    });
                lib("give back",
                    [&]
                    {
                        if (way == 0)
                        {
                            s->release();
                            return;
                        }
                        for (std::size_t i = 0; i < n; i += 2)
                        {
                            s->deallocate(live[i]);
                        }
                        if (way == 1)
                        {
                            s->release();
                            return;
                        }
                        s->deallocate(rest);
                        for (std::size_t i = 1; i < n; i += 2)
                        {
                            s->deallocate(live[i]);
                        }
                    });
                if (s->busy_count() != 0 || s->free_count() != 1)
                {
                    bad("small-stack", "%zu regions in use, %zu free at the end", s->busy_count(), s->free_count());
                }
                lib("destructor", [&] { s->~Res(); });
            }
            vm::state(99 + k);
        });
    vm::count("little stack");
}

void work(vm::Rng& r, std::uint64_t i)
{
    switch (i % 8)
    {
        case 0: with_resource<um::simple_resource<200, 16>>(r, false); break;
        case 1:
            r.chance(1, 2) ? with_resource<um::simple_resource<60, 64>>(r, false)
                           : with_resource<um::simple_resource<3000, 1>>(r, false);
            break;
        case 2: with_resource<um::monotonic_buffer_resource>(r, true); break;
        case 3: on_system(r); break;
        case 4:
            r.chance(1, 2) ? on_holder<8, 8>(r) : r.chance(1, 2) ? on_holder<900, 128>(r) : on_holder<1, 1>(r);
            break;
        case 5:
            switch (r.below(4))
            {
                case 0: on_timer<utils::timer>(r, OnEnd<8, 8>{}); break;
                case 1: on_timer<utils::timer>(r, &end_function); break;
                case 2:
                    on_timer<rebind<utils::timer>::type<64, 256, std::chrono::system_clock>>(r, OnEnd<200, 64>{});
                    break;
                default:
                    on_timer<rebind<utils::timer>::type<16, 64, std::chrono::steady_clock>>(r, OnEnd<64, 16>{});
                    break;
            }
            break;
        case 6: on_values(r); break;
        default:
            if (r.chance(1, 4))
            {
                big(r);
            }
            else
            {
                on_values(r);
            }
            break;
    }
}

void run(vm::Rng& r, std::uint64_t i)
{
    const std::uint64_t before = calls;
    if (r.chance(1, 12))
    {
        // in a process whose output is captured
        fflush(stdout);
        const auto d = vm::observe(
            [&]
            {
                dup2(2, 1);
                own_pid = 2;
                quiet = true;
                work(r, i);
                fflush(stdout);
                fflush(stderr);
            });
        VM_CHECK(d.returned, "dies", "status 0x%x: %s", static_cast<unsigned>(d.status), vm::printable(d.err).c_str());
        VM_CHECK(d.err.empty(), "hidden-output", "output: %s", vm::printable(d.err).c_str());
        vm::count("output captured");
        vm::state(i % 8 + 123456);
        return;
    }
    work(r, i);
    vm::count("calls watched", calls - before);
    vm::State::get().events += calls - before;
}
}  // namespace

int main(int argc, char** argv)
{
    sysops::memory::ops::memalign_hook = system_memalign;
    sysops::memory::ops::free_hook = system_free;
    // made on first use, which may take memory
    um::get_default_resource();
    um::null_memory_resource();
    // the counters work
    inside = true;
    void* volatile p = malloc(10);
    free(p);
    int* volatile q = new int;
    delete q;
    inside = false;
    VM_CHECK(obtained == 2 && freed == 2, "harness", "%" PRIu64 " blocks counted", std::uint64_t{obtained});
    return vm::run_main(argc, argv, run);
}
