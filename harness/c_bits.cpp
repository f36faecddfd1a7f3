// C02 (MONITOR=2): bit counts and width selection.
// C03 (MONITOR=3): leading and trailing zero counts.
#include "vmon.h"

#include <cassert>
#include <tuple>
#ifdef CONSTANT_BRANCH
#define __builtin_is_constant_evaluated() true
#endif
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>

#ifndef MONITOR
#define MONITOR 2
#endif

// The portable forms are an implementation detail: they are compared with the
// rest where they exist under these names.
namespace utils::details
{
}
namespace portable_fallback
{
struct anything
{
    template <typename T>
    constexpr anything(T v) : value(static_cast<unsigned long long>(v)), size(sizeof v * 8)
    {
    }
    unsigned long long value;
    int size;
};
constexpr int crafted_clz(anything a)
{
    int n = a.size;
    for (; a.value; a.value >>= 1) { --n; }
    return n;
}
constexpr int crafted_ctz(anything a)
{
    int n = 0;
    for (; !(a.value & 1); a.value >>= 1) { ++n; }
    return n;
}
}  // namespace portable_fallback
namespace portable
{
using namespace utils::details;
using namespace portable_fallback;
template <typename T>
constexpr auto clz(T v)
{
    return crafted_clz(v);
}
template <typename T>
constexpr auto ctz(T v)
{
    return crafted_ctz(v);
}
}  // namespace portable

namespace
{
using u64 = std::uint64_t;
using ull = unsigned long long;

unsigned occupied(u64 v)
{
    unsigned n = 0;
    for (unsigned b = 0; b < 64; ++b)
    {
        if (v >> b & 1)
        {
            n = b + 1;
        }
    }
    return n;
}
unsigned lowest(u64 v)
{
    for (unsigned b = 0; b < 64; ++b)
    {
        if (v >> b & 1)
        {
            return b;
        }
    }
    return 64;
}

constexpr u64 pick(std::size_t i)
{
    return i < 64 * 3
               ? (u64{1} << (i / 3)) + i % 3 - 1
               : (i < 64 * 3 + 64 ? ~u64{0} >> (i - 64 * 3)
                                  : 0x9e3779b97f4a7c15ull >> (i % 64));
}
constexpr std::size_t kPicks = 64 * 3 + 64 + 64;

// ---------------------------------------------------------------- C02 -----
template <typename T>
void occupied_by(u64 raw)
{
    const T v = static_cast<T>(raw);
    const unsigned want = occupied(static_cast<u64>(v));
    T lv = v;
    VM_CHECK(utils::nbits_occupied(v) == want &&
                 utils::nbits_occupied(lv) == want &&
                 utils::nbits_occupied(T{v}) == want,
             "nbits-occupied", "nbits_occupied(%llu) = %zu, not %u",
             static_cast<ull>(v), utils::nbits_occupied(v), want);
    VM_CHECK(lv == v, "nbits-occupied", "changed its argument");
    vm::op("nbits_occupied(%llu)", static_cast<ull>(v));
}
void counts(u64 v)
{
    VM_CHECK(utils::bits_count(v) == occupied(v), "bits-count",
             "bits_count(%llu) = %d", static_cast<ull>(v),
             utils::bits_count(v));
    occupied_by<std::uint8_t>(v);
    occupied_by<std::uint16_t>(v);
    occupied_by<std::uint32_t>(v);
    occupied_by<std::uint64_t>(v);
    occupied_by<unsigned long long>(v);
    occupied_by<char16_t>(v);
    occupied_by<char32_t>(v);
    vm::state(vm::mix(v));
}
struct Counted
{
    u64 v;
    unsigned bits, o8, o16, o32, o64;
};
constexpr Counted counted(std::size_t i)
{
    const u64 v = pick(i);
    return {v,
            utils::bits_count(v),
            static_cast<unsigned>(
                utils::nbits_occupied(static_cast<std::uint8_t>(v))),
            static_cast<unsigned>(
                utils::nbits_occupied(static_cast<std::uint16_t>(v))),
            static_cast<unsigned>(
                utils::nbits_occupied(static_cast<std::uint32_t>(v))),
            static_cast<unsigned>(utils::nbits_occupied(v))};
}
template <std::size_t... I>
constexpr std::array<Counted, sizeof...(I)> count_table(
    std::index_sequence<I...>)
{
    return {counted(I)...};
}

template <typename T>
void width(const char* what, unsigned n, unsigned bits, bool narrowest)
{
    const unsigned have = sizeof(T) * CHAR_BIT;
    unsigned want = 8;
    while (want < bits)
    {
        want *= 2;
    }
    VM_CHECK(std::is_unsigned_v<T> && !(std::is_same_v<T, bool>) &&
                 have >= bits,
             "width", "%s<%u>: a type of %u bits for %u", what, n, have, bits);
    VM_CHECK(!narrowest || have == want, "width",
             "%s<%u>: a type of %u bits, %u are enough", what, n, have, want);
    vm::op("%s<%u> -> %u bits", what, n, have);
    vm::state(vm::hash(what, strlen(what)) ^ n);
}
template <unsigned N>
using fast_for = std::conditional_t<
    N <= 8, std::uint_fast8_t,
    std::conditional_t<N <= 16, std::uint_fast16_t,
                       std::conditional_t<N <= 32, std::uint_fast32_t,
                                          std::uint_fast64_t>>>;
template <std::size_t... I>
void widths(std::index_sequence<I...>)
{
    (width<utils::uint_from_nbits_t<I + 1>>("uint_from_nbits", I + 1, I + 1,
                                            true),
     ...);
    (width<typename utils::uint_from_nbits<I + 1>::type>(
         "uint_from_nbits::type", I + 1, I + 1, true),
     ...);
    (width<utils::fast_uint_from_nbits_t<I + 1>>("fast_uint_from_nbits",
                                                 I + 1, I + 1, false),
     ...);
    const bool fast[] = {
        std::is_same_v<utils::fast_uint_from_nbits_t<I + 1>,
                       fast_for<I + 1>>...};
    for (std::size_t i = 0; i < sizeof...(I); ++i)
    {
        VM_CHECK(fast[i], "width",
                 "fast_uint_from_nbits<%zu> is not the fast type", i + 1);
    }
}
template <std::size_t... I>
void byte_widths(std::index_sequence<I...>)
{
    (width<utils::uint_from_nbytes_t<I + 1>>("uint_from_nbytes", I + 1,
                                             8 * (I + 1), true),
     ...);
    (width<utils::UInt<I + 1>>("UInt", I + 1, 8 * (I + 1), true), ...);
    (width<utils::fast_uint_from_nbytes_t<I + 1>>(
         "fast_uint_from_nbytes", I + 1, 8 * (I + 1), false),
     ...);
    (width<utils::FastUInt<I + 1>>("FastUInt", I + 1, 8 * (I + 1), false),
     ...);
    const bool fast[] = {(std::is_same_v<utils::FastUInt<I + 1>,
                                         fast_for<8 * (I + 1)>> &&
                          std::is_same_v<utils::fast_uint_from_nbytes_t<I + 1>,
                                         fast_for<8 * (I + 1)>>)...};
    for (bool f: fast)
    {
        VM_CHECK(f, "width", "FastUInt is not the fast type");
    }
}
template <u64 N, typename Under>
struct HasCount
{
    enum class E : Under
    {
        Count = static_cast<Under>(N)
    };
    enum Plain : Under
    {
        Count = static_cast<Under>(N)
    };
};
template <u64 N, typename Under>
void enumeration()
{
    using E = typename HasCount<N, Under>::E;
    using P = utils::enum_properties<E>;
    using Q = utils::enum_properties<typename HasCount<N, Under>::Plain>;
    VM_CHECK(P::numBits == occupied(N) && Q::numBits == occupied(N),
             "enum-width", "%llu elements: %d bits", static_cast<ull>(N),
             P::numBits);
    width<typename P::SerializeT>("enum_properties", occupied(N), occupied(N),
                                  true);
    VM_CHECK(static_cast<u64>(static_cast<typename P::SerializeT>(N)) == N,
             "enum-width", "%llu does not fit", static_cast<ull>(N));
}

template <typename... Ts>
void sum(const char* what)
{
    std::size_t bits = 0;
    ((bits += std::is_same_v<Ts, bool> ? 1 : sizeof(Ts) * 8), ...);
    constexpr std::size_t got = utils::sum_size<Ts...>();
    VM_CHECK(got == (bits + 7) / 8, "sum-size", "sum_size<%s> = %zu for %zu bits",
             what, got, bits);
    vm::op("sum_size<%s>", what);
    vm::state(vm::hash(what, strlen(what)) + 1);
}
template <typename T>
void bits_of()
{
    VM_CHECK(utils::num_bits<T>() ==
                 (std::is_same_v<T, bool> ? 1 : 8 * sizeof(T)),
             "num-bits", "num_bits of a type of %zu bytes: %zu", sizeof(T),
             utils::num_bits<T>());
}
struct S3
{
    char c[3];
};
template <std::size_t... I>
void bools(std::index_sequence<I...>)
{
    const auto check = [](std::size_t n, std::size_t got)
    {
        VM_CHECK(got == (n + 7) / 8, "sum-size", "%zu bools take %zu bytes", n,
                 got);
        vm::op("%zu bools", n);
    };
    check(sizeof...(I), utils::sum_size<std::conditional_t<I != SIZE_MAX, bool, int>...>());
    const auto check2 = [](std::size_t n, std::size_t got)
    {
        VM_CHECK(got == (n + 7) / 8 + 5, "sum-size",
                 "%zu bools, a char and an int take %zu bytes", n, got);
    };
    check2(sizeof...(I),
           utils::sum_size<char, std::conditional_t<I != SIZE_MAX, bool, int>..., int>());
}
template <std::size_t... N>
void many_bools(std::index_sequence<N...>)
{
    (bools(std::make_index_sequence<N + 1>{}), ...);
}

void fixed_02()
{
    for (auto& c: count_table(std::make_index_sequence<kPicks>{}))
    {
        (void)c;
    }
    static constexpr auto table =
        count_table(std::make_index_sequence<kPicks>{});
    for (auto& c: table)
    {
        VM_CHECK(c.bits == occupied(c.v) &&
                     c.o8 == occupied(static_cast<std::uint8_t>(c.v)) &&
                     c.o16 == occupied(static_cast<std::uint16_t>(c.v)) &&
                     c.o32 == occupied(static_cast<std::uint32_t>(c.v)) &&
                     c.o64 == occupied(c.v),
                 "constant-expression", "bit counts of %llu",
                 static_cast<ull>(c.v));
        vm::op("constant expression: %llu", static_cast<ull>(c.v));
    }
    VM_CHECK(utils::kNumBitsTable.size() == 256, "byte-table", "size");
    for (unsigned b = 0; b < 256; ++b)
    {
        unsigned n = 0;
        for (unsigned k = 0; k < 8; ++k)
        {
            n += b >> k & 1;
        }
        VM_CHECK(utils::kNumBitsTable[b] == n, "byte-table",
                 "entry %u is %d, has %u bits set", b, utils::kNumBitsTable[b],
                 n);
        vm::op("byte table %u", b);
    }
    widths(std::make_index_sequence<64>{});
    byte_widths(std::make_index_sequence<8>{});
    enumeration<1, std::uint8_t>();
    enumeration<2, std::uint8_t>();
    enumeration<3, int>();
    enumeration<127, std::int8_t>();
    enumeration<128, std::uint8_t>();
    enumeration<255, std::uint8_t>();
    enumeration<255, int>();
    enumeration<256, int>();
    enumeration<257, unsigned short>();
    enumeration<32767, short>();
    enumeration<32768, int>();
    enumeration<65535, std::uint16_t>();
    enumeration<65536, long>();
    enumeration<0x7fffffff, int>();
    enumeration<0x80000000, unsigned>();
    enumeration<0xffffffff, unsigned>();
    enumeration<0x100000000, u64>();
    enumeration<(u64{1} << 62), std::int64_t>();
    enumeration<(u64{1} << 63), u64>();
    enumeration<~u64{0}, u64>();
    bits_of<bool>();
    bits_of<char>();
    bits_of<short>();
    bits_of<int>();
    bits_of<long>();
    bits_of<double>();
    bits_of<void*>();
    bits_of<S3>();
    bits_of<bool[3]>();
    bits_of<char[32]>();
    bits_of<char[8192]>();
    bits_of<char[std::size_t{1} << 29]>();
    bits_of<char[(std::size_t{1} << 60) + 1]>();
    sum<char>("char");
    sum<bool>("bool");
    sum<bool, char>("bool,char");
    sum<char, bool>("char,bool");
    sum<int, double, S3>("int,double,S3");
    sum<bool, bool, int, bool, short, bool, bool, bool, bool, bool>(
        "bools between");
    sum<S3, S3, bool[2]>("S3,S3,bool[2]");
    sum<std::uint64_t, bool, std::uint8_t, bool>("u64,bool,u8,bool");
    sum<char[31]>("char[31]");
    sum<char[32], bool>("char[32],bool");
    sum<char[8191], bool, S3>("char[8191],bool,S3");
    sum<char[8192]>("char[8192]");
    sum<bool, char[65536]>("bool,char[65536]");
    sum<char[(std::size_t{1} << 29) - 1], bool, char>("char[2^29-1],bool,char");
    sum<char[std::size_t{1} << 32], bool, char[std::size_t{1} << 32]>(
        "char[2^32],bool,char[2^32]");
    sum<char[std::size_t{1} << 60], bool>("char[2^60],bool");
    many_bools(std::make_index_sequence<26>{});
}

void run_02(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        fixed_02();
        for (u64 v = 0; v < 65536; ++v)
        {
            occupied_by<std::uint8_t>(v);
            occupied_by<std::uint16_t>(v);
            VM_CHECK(utils::bits_count(v) == occupied(v), "bits-count",
                     "bits_count(%llu)", static_cast<ull>(v));
        }
        for (std::size_t k = 0; k < kPicks; ++k)
        {
            counts(pick(k));
        }
    }
    for (unsigned k = 0; k < 40; ++k)
    {
        counts(r.any_width());
    }
}

// ---------------------------------------------------------------- C03 -----
template <typename T>
void zeros(const char* what, u64 raw)
{
    const T v = static_cast<T>(raw);
    const u64 wide = static_cast<std::make_unsigned_t<T>>(v);
    if (!wide)
    {
        return;
    }
    const int l = static_cast<int>(sizeof(T) * 8 - occupied(wide));
    const int t = static_cast<int>(lowest(wide));
    const auto gl = utils::clz(v);
    const auto gt = utils::ctz(v);
    VM_CHECK(static_cast<long long>(gl) == l, "clz", "clz(%s %llu) = %lld, not %d", what,
             static_cast<ull>(wide), static_cast<long long>(gl), l);
    VM_CHECK(static_cast<long long>(gt) == t, "ctz", "ctz(%s %llu) = %lld, not %d", what,
             static_cast<ull>(wide), static_cast<long long>(gt), t);
    VM_CHECK(static_cast<int>(portable::clz(v)) == l,
             "portable-clz", "crafted_clz(%s %llu) = %lld, not %d", what,
             static_cast<ull>(wide),
             static_cast<long long>(portable::clz(v)), l);
    VM_CHECK(static_cast<int>(portable::ctz(v)) == t,
             "portable-ctz", "crafted_ctz(%s %llu) = %lld, not %d", what,
             static_cast<ull>(wide),
             static_cast<long long>(portable::ctz(v)), t);
    vm::op("%s %llu: %d, %d", what, static_cast<ull>(wide), l, t);
}
void zeros_of(u64 v)
{
    zeros<unsigned char>("unsigned char", v);
    zeros<unsigned short>("unsigned short", v);
    zeros<unsigned int>("unsigned int", v);
    zeros<unsigned long>("unsigned long", v);
    zeros<unsigned long long>("unsigned long long", v);
    zeros<char16_t>("char16_t", v);
    zeros<char32_t>("char32_t", v);
    zeros<std::size_t>("size_t", v);
    zeros<std::uint_fast16_t>("uint_fast16_t", v);
    if (const auto x = static_cast<unsigned>(v))
    {
        VM_CHECK(utils::clz_ui(x) == static_cast<int>(32 - occupied(x)) &&
                     utils::ctz_ui(x) == static_cast<int>(lowest(x)),
                 "clz", "clz_ui/ctz_ui(%u)", x);
    }
    if (v)
    {
        VM_CHECK(utils::clz_ul(v) == static_cast<int>(64 - occupied(v)) &&
                     utils::ctz_ul(v) == static_cast<int>(lowest(v)) &&
                     utils::clz_ull(v) == static_cast<int>(64 - occupied(v)) &&
                     utils::ctz_ull(v) == static_cast<int>(lowest(v)),
                 "clz", "clz_ul/ctz_ul/clz_ull/ctz_ull(%llu)",
                 static_cast<ull>(v));
    }
    vm::state(vm::mix(v) + 3);
}
struct Zeros
{
    u64 v;
    int clz, ctz, pclz, pctz;
};
template <typename T>
constexpr Zeros zeros_at_compile_time(std::size_t i)
{
    const T v = static_cast<T>(pick(i));
    if (!v)
    {
        return {0, 0, 0, 0, 0};
    }
    return {static_cast<u64>(v), static_cast<int>(utils::clz(v)),
            static_cast<int>(utils::ctz(v)),
            static_cast<int>(portable::clz(v)),
            static_cast<int>(portable::ctz(v))};
}
template <typename T, std::size_t... I>
constexpr std::array<Zeros, sizeof...(I)> zero_table(std::index_sequence<I...>)
{
    return {zeros_at_compile_time<T>(I)...};
}
template <typename T>
void constant_zeros(const char* what)
{
    static constexpr auto table =
        zero_table<T>(std::make_index_sequence<kPicks>{});
    for (auto& z: table)
    {
        if (!z.v)
        {
            continue;
        }
        const int l = static_cast<int>(sizeof(T) * 8 - occupied(z.v));
        const int t = static_cast<int>(lowest(z.v));
        VM_CHECK(z.clz == l && z.pclz == l && z.ctz == t && z.pctz == t,
                 "constant-expression",
                 "%s %llu: clz %d portable %d, not %d; ctz %d portable %d, not "
                 "%d",
                 what, static_cast<ull>(z.v), z.clz, z.pclz, l, z.ctz, z.pctz,
                 t);
        vm::op("constant expression: %s %llu", what, static_cast<ull>(z.v));
    }
}
void run_03(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constant_zeros<unsigned char>("unsigned char");
        constant_zeros<unsigned short>("unsigned short");
        constant_zeros<unsigned int>("unsigned int");
        constant_zeros<unsigned long>("unsigned long");
        constant_zeros<unsigned long long>("unsigned long long");
        constant_zeros<char16_t>("char16_t");
        constant_zeros<char32_t>("char32_t");
        for (u64 v = 1; v < 65536; ++v)
        {
            zeros<unsigned char>("unsigned char", v);
            zeros<unsigned short>("unsigned short", v);
            zeros<char16_t>("char16_t", v);
        }
        for (unsigned a = 0; a < 64; ++a)
        {
            for (unsigned b = 0; b <= a; ++b)
            {
                zeros_of((u64{1} << a) | (u64{1} << b));
            }
        }
        for (std::size_t k = 0; k < kPicks; ++k)
        {
            zeros_of(pick(k));
        }
    }
    for (unsigned k = 0; k < 30; ++k)
    {
        zeros_of(r.any_width() << r.below(40));
    }
}
}  // namespace

int main(int argc, char** argv)
{
    return vm::run_main(argc, argv, MONITOR == 2 ? run_02 : run_03);
}
