// C04: integer division against 128 bit arithmetic, for all pairs of types.
#include "vmon.h"

#include <cassert>
#include <tuple>
#ifdef CONSTANT_BRANCH
#define __builtin_is_constant_evaluated() true
#endif
#include <utils/common.h>

namespace
{
using i128 = __int128;
using u64 = std::uint64_t;

template <typename R>
constexpr bool defined(i128 n, i128 d)
{
    return d != 0 &&
           n / d >= static_cast<i128>(std::numeric_limits<R>::min()) &&
           n / d <= static_cast<i128>(std::numeric_limits<R>::max());
}
template <typename T>
const char* name()
{
    return __PRETTY_FUNCTION__;
}

template <typename R, typename D>
void judge(const char* what, const D& d, i128 n, i128 m, const char* types)
{
    const i128 q = n / m, rem = n % m;
    static_assert(std::is_same_v<decltype(d.quot), R> &&
                  std::is_same_v<decltype(d.rem), R>);
    VM_CHECK(static_cast<i128>(d.quot) == q && static_cast<i128>(d.rem) == rem,
             "wrong-result",
             "%s(%lld, %lld) = %lld rest %lld, not %lld rest %lld [%s]", what,
             static_cast<long long>(n), static_cast<long long>(m),
             static_cast<long long>(d.quot), static_cast<long long>(d.rem),
             static_cast<long long>(q), static_cast<long long>(rem), types);
}

template <typename T>
T draw(vm::Rng& r)
{
    using L = std::numeric_limits<T>;
    switch (r.below(8))
    {
        case 0: return L::max();
        case 1: return L::min();
        case 2: return static_cast<T>(L::max() - static_cast<T>(r.below(3)));
        case 3: return static_cast<T>(L::min() + static_cast<T>(r.below(3)));
        case 4: return static_cast<T>(r.below(7));
        case 5: return static_cast<T>(0 - r.below(7));
        case 6: return static_cast<T>(0 - r.any_width());
        default: return static_cast<T>(r.any_width());
    }
}

template <typename T, typename U>
void pair(vm::Rng& r, T a, U b)
{
    using C = std::common_type_t<T, U>;
    const i128 n = static_cast<i128>(static_cast<C>(a));
    const i128 m = static_cast<i128>(static_cast<C>(b));
    // the divisor itself must not be zero
    if (b && defined<C>(n, m))
    {
        const auto d = utils::div(a, b);
        judge<C>("div", d, n, m, name<std::tuple<T, U>>());
        static_assert(
            std::is_same_v<std::remove_cv_t<std::remove_reference_t<
                               decltype(utils::div(a, b))>>,
                           utils::div_t<C>>);
        vm::op("div(%lld, %lld)", static_cast<long long>(n),
               static_cast<long long>(m));
        vm::state(vm::mix(static_cast<u64>(n)) * 31 +
                  vm::mix(static_cast<u64>(m)) + sizeof(T) * 16 + sizeof(U) +
                  std::is_signed_v<T> * 256 + std::is_signed_v<U> * 512);
    }
    (void)r;
}
template <typename R, typename T, typename U>
void pair_as(T a, U b)
{
    const i128 n = static_cast<i128>(static_cast<R>(a));
    const i128 m = static_cast<i128>(static_cast<R>(b));
    if (static_cast<R>(b) && defined<R>(n, m))
    {
        const utils::div_t<R> d = utils::div_as<R>(a, b);
        static_assert(std::is_same_v<decltype(utils::div_as<R>(a, b)),
                                     utils::div_t<R>>);
        judge<R>("div_as", d, n, m, name<std::tuple<R, T, U>>());
        vm::op("div_as<%zu>(%lld, %lld)", sizeof(R), static_cast<long long>(n),
               static_cast<long long>(m));
    }
}
template <typename T, typename... Us>
void with_all(vm::Rng& r)
{
    (pair<T, Us>(r, draw<T>(r), draw<Us>(r)), ...);
    (pair_as<Us>(draw<T>(r), draw<int>(r)), ...);
    (pair_as<Us>(draw<unsigned long long>(r), draw<T>(r)), ...);
    (pair_as<T>(draw<Us>(r), draw<long long>(r)), ...);
}
template <typename... Ts>
void all(vm::Rng& r)
{
    (with_all<Ts, Ts...>(r), ...);
}

// ---- in constant expressions ----------------------------------------------
template <typename T>
constexpr T constant(std::size_t i)
{
    using L = std::numeric_limits<T>;
    constexpr T v[] = {L::min(),
                       static_cast<T>(L::min() + 1),
                       static_cast<T>(-7),
                       static_cast<T>(-3),
                       static_cast<T>(-2),
                       static_cast<T>(-1),
                       T{0},
                       T{1},
                       T{2},
                       T{3},
                       T{7},
                       T{10},
                       static_cast<T>(L::max() / 2),
                       static_cast<T>(L::max() - 1),
                       L::max()};
    return v[i];
}
constexpr std::size_t kValues = 15;
template <typename C>
struct Result
{
    C quot, rem;
    bool valid;
};
template <typename T, typename U>
constexpr auto divide_at_compile_time(std::size_t i)
{
    using C = std::common_type_t<T, U>;
    const T a = constant<T>(i / kValues);
    const U b = constant<U>(i % kValues);
    const i128 n = static_cast<i128>(static_cast<C>(a));
    const i128 m = static_cast<i128>(static_cast<C>(b));
    if (!b || !defined<C>(n, m))
    {
        return Result<C>{0, 0, false};
    }
    const auto d = utils::div(a, b);
    return Result<C>{d.quot, d.rem, true};
}
template <typename T, typename U, std::size_t... I>
void constants(std::index_sequence<I...>)
{
    using C = std::common_type_t<T, U>;
    static constexpr Result<C> t[] = {divide_at_compile_time<T, U>(I)...};
    for (std::size_t i = 0; i < sizeof...(I); ++i)
    {
        const i128 n =
            static_cast<i128>(static_cast<C>(constant<T>(i / kValues)));
        const i128 m =
            static_cast<i128>(static_cast<C>(constant<U>(i % kValues)));
        if (!t[i].valid)
        {
            continue;
        }
        VM_CHECK(static_cast<i128>(t[i].quot) == n / m &&
                     static_cast<i128>(t[i].rem) == n % m,
                 "constant-expression",
                 "div(%lld, %lld) = %lld rest %lld [%s]",
                 static_cast<long long>(n), static_cast<long long>(m),
                 static_cast<long long>(t[i].quot),
                 static_cast<long long>(t[i].rem), name<std::tuple<T, U>>());
        vm::op("constant expression: div(%lld, %lld)",
               static_cast<long long>(n), static_cast<long long>(m));
        // and the same at run time
        const auto d = utils::div(constant<T>(i / kValues),
                                  constant<U>(i % kValues));
        judge<C>("div", d, n, m, name<std::tuple<T, U>>());
    }
}
template <typename T, typename... Us>
void constants_with()
{
    (constants<T, Us>(std::make_index_sequence<kValues * kValues>{}), ...);
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constants_with<std::int8_t, std::int8_t, std::uint8_t, int, u64>();
        constants_with<std::uint8_t, std::int8_t, std::uint16_t, long>();
        constants_with<std::int16_t, std::int16_t, unsigned>();
        constants_with<int, int, unsigned, short, long, u64>();
        constants_with<unsigned, unsigned, int, long>();
        constants_with<long, long, unsigned long, long long>();
        constants_with<long long, long long, unsigned>();
        constants_with<u64, u64, int>();
        constexpr auto k = utils::div_as<std::int8_t>(300, 7);
        VM_CHECK(k.quot == 44 / 7 && k.rem == 44 % 7, "constant-expression",
                 "div_as<int8_t>(300, 7)");
        constexpr auto u = utils::div_as<std::uint8_t>(-1, 16);
        VM_CHECK(u.quot == 15 && u.rem == 15, "constant-expression",
                 "div_as<uint8_t>(-1, 16)");
        for (int a = -128; a < 128; ++a)
        {
            for (int b = -128; b < 128; ++b)
            {
                pair<std::int8_t, std::int8_t>(r, static_cast<std::int8_t>(a),
                                               static_cast<std::int8_t>(b));
                pair<std::uint8_t, std::uint8_t>(
                    r, static_cast<std::uint8_t>(a),
                    static_cast<std::uint8_t>(b));
                pair<std::int8_t, std::uint8_t>(r, static_cast<std::int8_t>(a),
                                                static_cast<std::uint8_t>(b));
                pair<std::int16_t, std::int16_t>(
                    r, static_cast<std::int16_t>(a * 255),
                    static_cast<std::int16_t>(b));
            }
        }
    }
    all<signed char, unsigned char, short, unsigned short, int, unsigned, long,
        unsigned long, long long, unsigned long long, char, char16_t,
        char32_t>(r);
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
