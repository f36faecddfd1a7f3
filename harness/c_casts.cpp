// C08: bit reinterpretation, shifts and enumerator values.
#include "vmon.h"

#include <cassert>
#include <utils/common.h>

namespace
{
using u64 = std::uint64_t;
using u128 = unsigned __int128;

template <typename T>
const char* name()
{
    return __PRETTY_FUNCTION__;
}

// ---- reinterpretation -------------------------------------------------------
struct P8
{
    std::uint32_t a;
    std::uint16_t b, c;
};
struct Odd
{
    unsigned char c[8];
};
union Un
{
    double d;
    unsigned char c[8];
};
enum class E8 : u64
{
};
struct alignas(16) A16
{
    u64 a, b;
};
// one whose address is not what & yields
struct Shy
{
    u64 v;
    char* operator&() { return nullptr; }
    const char* operator&() const { return nullptr; }
};
class Secretive
{
    u64 v;
    void operator&();
    void operator&() const;
};

template <typename To, typename From>
void cast(vm::Rng& r)
{
    From f;
    unsigned char bytes[sizeof(From)];
    const auto how = r.below(6);
    for (auto& b: bytes)
    {
        b = static_cast<unsigned char>(how == 0 ? 0xff : how == 1 ? 0x7f : r());
    }
    if (how == 2)
    {
        // signalling NaN patterns when taken for a double or a float
        for (std::size_t k = 0; k < sizeof bytes; ++k)
        {
            bytes[k] = static_cast<unsigned char>(
                k == sizeof bytes - 1 ? 0x7f : k == sizeof bytes - 2 ? 0xf4
                                             : k == sizeof bytes - 3 ? 0xa0 : r());
        }
    }
    std::memcpy(std::addressof(f), bytes, sizeof f);
    const To t = utils::bit_cast<To>(f);
    VM_CHECK(!std::memcmp(std::addressof(t), bytes, sizeof t), "bit-cast",
             "bytes changed: %s from %s", name<To>(), name<From>());
    VM_CHECK(!std::memcmp(std::addressof(f), bytes, sizeof f), "bit-cast", "source changed");
    const From back = utils::bit_cast<From>(t);
    VM_CHECK(!std::memcmp(std::addressof(back), bytes, sizeof back), "bit-cast",
             "bytes changed on the way back: %s from %s", name<To>(),
             name<From>());
    const From cf = f;
    const To t2 = utils::bit_cast<To>(cf);
    VM_CHECK(!std::memcmp(std::addressof(t2), bytes, sizeof t2), "bit-cast", "const source");
    // a source with no more alignment than its own type asks for
    alignas(64) unsigned char raw[sizeof(From) + alignof(From)];
    auto* at = ::new (static_cast<void*>(raw + alignof(From))) From(f);
    std::memcpy(static_cast<void*>(std::addressof(*at)), bytes, sizeof f);
    const To t3 = utils::bit_cast<To>(*at);
    VM_CHECK(!std::memcmp(std::addressof(t3), bytes, sizeof t3), "bit-cast",
             "bytes changed: %s from %s in the middle of a buffer", name<To>(), name<From>());
    static_assert(std::is_same_v<decltype(utils::bit_cast<To>(f)), To>);
    vm::op("bit_cast %zu bytes", sizeof(To));
    vm::count("reinterpretations");
    vm::state(vm::hash(bytes, sizeof bytes) ^
              vm::hash(name<std::pair<To, From>>(), 60));
}
template <typename To, typename... Froms>
void cast_from(vm::Rng& r)
{
    (cast<To, Froms>(r), ...);
}
template <typename... Ts>
void cast_all(vm::Rng& r)
{
    (cast_from<Ts, Ts...>(r), ...);
}

// ---- shifts -------------------------------------------------------------
template <typename T>
void shift(u64 raw, unsigned n)
{
    using U = std::make_unsigned_t<T>;
    constexpr unsigned width = sizeof(T) * 8;
    n %= width;
    T v = static_cast<T>(raw);
    const T cv = v;
    volatile T vv = v;
    // right: arithmetic for signed types
    const __int128 wide = static_cast<__int128>(v);
    const T right = static_cast<T>(wide >> n);
    VM_CHECK(utils::shift_right(v, n) == right &&
                 utils::shift_right(cv, n) == right &&
                 utils::shift_right(T{v}, n) == right &&
                 utils::shift_right(std::move(cv), n) == right &&
                 utils::shift_right(vv, n) == right,
             "shift-right", "%lld >> %u = %lld, not %lld (%u bits)",
             static_cast<long long>(v), n,
             static_cast<long long>(utils::shift_right(v, n)),
             static_cast<long long>(right), width);
    static_assert(std::is_same_v<decltype(utils::shift_right(v, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_right(cv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_right(T{}, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_left(vv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_left(cv, n)), T>);
    static_assert(std::is_same_v<decltype(utils::shift_left(T{}, n)), T>);
    // left: where it is defined
    T l = v;
    if (std::is_signed_v<T>)
    {
        if (v < 0)
        {
            l = static_cast<T>(~v);
        }
        if (width >= 32)
        {
            l = static_cast<T>(static_cast<U>(l) & (~U{0} >> n));
            l = static_cast<T>(static_cast<U>(l) & (~U{0} >> 1));
        }
        if (l < 0)
        {
            l = 0;
        }
    }
    const T cl = l;
    volatile T vl = l;
    const T left = static_cast<T>(
        static_cast<U>(static_cast<u128>(static_cast<U>(l)) << n));
    VM_CHECK(utils::shift_left(l, n) == left &&
                 utils::shift_left(cl, n) == left &&
                 utils::shift_left(T{l}, n) == left &&
                 utils::shift_left(vl, n) == left,
             "shift-left", "%lld << %u = %lld, not %lld (%u bits)",
             static_cast<long long>(l), n,
             static_cast<long long>(utils::shift_left(l, n)),
             static_cast<long long>(left), width);
    VM_CHECK(v == cv && l == cl, "shift-left", "operand changed");
    vm::op("shift %lld by %u (%u bits)", static_cast<long long>(v), n, width);
    vm::count("shifts", 2);
    vm::state(vm::mix(static_cast<u64>(v)) ^ (n * 256 + width));
}
template <typename... Ts>
void shift_all(u64 raw, unsigned n)
{
    (shift<Ts>(raw, n), ...);
}

template <typename T>
struct Shifted
{
    T right[sizeof(T) * 8][8];
    T left[sizeof(T) * 8][8];
};
template <typename T>
constexpr T sample(std::size_t i)
{
    using L = std::numeric_limits<T>;
    constexpr T s[] = {0, 1, 2, 0x55, L::max(), L::min(), L::max() / 3,
                       static_cast<T>(L::max() - 1)};
    return s[i];
}
template <typename T>
constexpr bool left_defined(T v, unsigned n)
{
    return std::is_unsigned_v<T> ||
           (v >= 0 &&
            (sizeof(T) < 4 || v <= (std::numeric_limits<T>::max() >> n)));
}
template <typename T>
constexpr Shifted<T> shifted()
{
    Shifted<T> s{};
    for (unsigned n = 0; n < sizeof(T) * 8; ++n)
    {
        for (unsigned k = 0; k < 8; ++k)
        {
            s.right[n][k] = utils::shift_right(sample<T>(k), n);
            s.left[n][k] = left_defined(sample<T>(k), n)
                               ? utils::shift_left(sample<T>(k), n)
                               : T{};
        }
    }
    return s;
}
template <typename T>
void constant_shifts()
{
    static constexpr auto s = shifted<T>();
    for (unsigned n = 0; n < sizeof(T) * 8; ++n)
    {
        for (unsigned k = 0; k < 8; ++k)
        {
            const T v = sample<T>(k);
            VM_CHECK(s.right[n][k] == static_cast<T>(static_cast<__int128>(v) >> n),
                     "constant-expression", "%lld >> %u",
                     static_cast<long long>(v), n);
            VM_CHECK(!left_defined(v, n) ||
                         s.left[n][k] ==
                             static_cast<T>(static_cast<u128>(
                                                static_cast<std::make_unsigned_t<T>>(v))
                                            << n),
                     "constant-expression", "%lld << %u",
                     static_cast<long long>(v), n);
            vm::op("constant expression: shift %lld by %u",
                   static_cast<long long>(v), n);
        }
    }
}

// ---- enumerators -------------------------------------------------------------
template <typename U>
void enumerator(vm::Rng& r)
{
    enum class S : U
    {
        low = std::numeric_limits<U>::min(),
        high = std::numeric_limits<U>::max()
    };
    enum P : U
    {
        plow = std::numeric_limits<U>::min(),
        phigh = std::numeric_limits<U>::max()
    };
    const U v = static_cast<U>(r.any_width());
    static_assert(std::is_same_v<decltype(utils::to_underlying(S{})), U>);
    static_assert(std::is_same_v<decltype(utils::to_underlying(P{})), U>);
    VM_CHECK(utils::to_underlying(static_cast<S>(v)) == v &&
                 utils::to_underlying(static_cast<P>(v)) == v,
             "to-underlying", "of %lld: %lld", static_cast<long long>(v),
             static_cast<long long>(utils::to_underlying(static_cast<S>(v))));
    constexpr U lo = utils::to_underlying(S::low), hi = utils::to_underlying(phigh);
    VM_CHECK(lo == std::numeric_limits<U>::min() &&
                 hi == std::numeric_limits<U>::max(),
             "to-underlying", "in constant expressions");
    vm::op("to_underlying(%lld)", static_cast<long long>(v));
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constant_shifts<std::int8_t>();
        constant_shifts<std::uint8_t>();
        constant_shifts<std::int16_t>();
        constant_shifts<std::uint16_t>();
        constant_shifts<int>();
        constant_shifts<unsigned>();
        constant_shifts<long>();
        constant_shifts<u64>();
        constant_shifts<long long>();
        for (u64 v = 0; v < 256; ++v)
        {
            for (unsigned n = 0; n < 8; ++n)
            {
                shift_all<std::int8_t, std::uint8_t, char>(v, n);
            }
        }
        for (u64 v = 0; v < 65536; ++v)
        {
            shift_all<std::int16_t, std::uint16_t>(v, static_cast<unsigned>(v / 7));
        }
    }
    cast_all<u64, std::int64_t, double, P8, Odd, Un, E8, Shy, Secretive, std::array<std::uint16_t, 4>>(r);
    cast_all<std::uint32_t, float, int, std::array<char, 4>, char32_t>(r);
    cast_all<std::uint16_t, short, std::array<bool, 2>, char16_t>(r);
    cast_all<unsigned char, char, std::byte>(r);
    cast_all<A16, std::array<u64, 2>, std::array<double, 2>, __int128>(r);
    for (unsigned k = 0; k < 12; ++k)
    {
        const u64 v = r.chance(1, 4) ? 0 - r.any_width() : r.any_width();
        shift_all<std::int8_t, std::uint8_t, char, std::int16_t, std::uint16_t,
                  int, unsigned, long, unsigned long, long long,
                  unsigned long long, char16_t, char32_t, wchar_t>(
            v, static_cast<unsigned>(r.below(64)));
    }
    enumerator<std::int8_t>(r);
    enumerator<std::uint8_t>(r);
    enumerator<short>(r);
    enumerator<unsigned short>(r);
    enumerator<int>(r);
    enumerator<unsigned>(r);
    enumerator<long>(r);
    enumerator<u64>(r);
    enumerator<char>(r);
    VM_CHECK(utils::to_underlying(std::byte{0xfe}) == 0xfe, "to-underlying",
             "byte");
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
