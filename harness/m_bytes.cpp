// M10 (MONITOR=10): secure zeroing.  M11 (MONITOR=11): byte move and copy.
// With CONSTANT_BRANCH the functions are made to believe they are evaluated at
// compile time, which runs those branches on run-time data under sanitizers.
#include "vmon.h"

#include <chrono>
#include <tuple>
#ifdef CONSTANT_BRANCH
#define __builtin_is_constant_evaluated() true
#endif
#include <utils/memory/memory.h>

#ifndef MONITOR
#define MONITOR 10
#endif

namespace
{
namespace um = utils::memory;
using Bytes = std::vector<std::byte>;

Bytes random_bytes(vm::Rng& r, std::size_t n)
{
    Bytes b(n);
    for (auto& x: b)
    {
        x = static_cast<std::byte>(r.chance(1, 8) ? 0 : 1 + r.below(255));
    }
    return b;
}

// ---------------------------------------------------------------- M10 -----
constexpr std::size_t kN = 24;
struct Zeroed
{
    std::byte b[kN + 1];
    int rc;
    std::size_t from, count;
};
constexpr Zeroed zero_at_compile_time(std::size_t from, std::size_t count,
                                      bool safe)
{
    Zeroed z{};
    for (std::size_t i = 0; i <= kN; ++i)
    {
        z.b[i] = static_cast<std::byte>(0xa1 + i);
    }
    z.from = from;
    z.count = count;
    if (safe)
    {
        z.rc = um::secure_zero_memory_safe(z.b + from, count);
    }
    else
    {
        um::secure_zero_memory(z.b + from, count);
    }
    return z;
}
template <bool Safe, std::size_t... I>
constexpr std::array<Zeroed, sizeof...(I)> zero_table(std::index_sequence<I...>)
{
    return {zero_at_compile_time(I % (kN + 1), (I / (kN + 1)) % (kN + 1 - I % (kN + 1)), Safe)...};
}
#ifndef CONSTANT_BRANCH
constexpr auto kZero = zero_table<false>(std::make_index_sequence<(kN + 1) * (kN + 1)>{});
constexpr auto kZeroSafe = zero_table<true>(std::make_index_sequence<(kN + 1) * (kN + 1)>{});
constexpr int kNull[2] = {um::secure_zero_memory_safe(nullptr, 3),
                          um::secure_zero_memory_safe(nullptr, 1)};

void constexpr_zero()
{
    for (auto* t: {&kZero, &kZeroSafe})
    {
        for (auto& z: *t)
        {
            for (std::size_t i = 0; i <= kN; ++i)
            {
                const bool in = i >= z.from && i < z.from + z.count;
                VM_CHECK(z.b[i] == (in ? std::byte{}
                                       : static_cast<std::byte>(0xa1 + i)),
                         "constant-expression",
                         "zeroing [%zu, +%zu): byte %zu is %02x", z.from,
                         z.count, i, static_cast<unsigned>(z.b[i]));
            }
            if (t == &kZeroSafe)
            {
                VM_CHECK(z.count ? z.rc == 0 : z.rc < 0 && z.rc != kNull[0],
                         "return-code", "%d for %zu bytes", z.rc, z.count);
            }
            vm::op("constant expression [%zu, +%zu)", z.from, z.count);
            vm::state(vm::mix(z.from * 64 + z.count) + (t == &kZero));
        }
    }
    VM_CHECK(kNull[0] < 0 && kNull[0] == kNull[1], "return-code",
             "%d for null", kNull[0]);
}
#else
void constexpr_zero() {}
#endif

void zero(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constexpr_zero();
    }
    const std::size_t total = 1 + r.any_width(r.chance(1, 20) ? 16 : 9);
    Bytes b = random_bytes(r, total);
    const Bytes was = b;
    const std::size_t from = r.below(total + 1);
    const std::size_t n =
        r.chance(1, 10) ? 0 : (r.chance(1, 8) ? total - from
                                              : r.below(total - from + 1));
    const bool safe = r.chance(1, 2);
    int rc = 0;
    if (safe)
    {
        rc = um::secure_zero_memory_safe(b.data() + from, n);
        const int null = um::secure_zero_memory_safe(nullptr, 1 + n);
        VM_CHECK(null < 0 && um::secure_zero_memory_safe(nullptr, 0) < 0,
                 "return-code", "%d for null", null);
        VM_CHECK(n ? rc == 0 : rc < 0 && rc != null, "return-code",
                 "%d for %zu bytes, %d for null", rc, n, null);
    }
    else
    {
        um::secure_zero_memory(b.data() + from, n);
    }
    vm::op("zero%s [%zu, +%zu) of %zu -> %d", safe ? " safe" : "", from, n,
           total, rc);
    vm::count("bytes zeroed", n);
    for (std::size_t k = 0; k < total; ++k)
    {
        if (k >= from && k < from + n)
        {
            VM_CHECK(b[k] == std::byte{}, "not-cleared",
                     "byte %zu of [%zu, +%zu)", k, from, n);
        }
        else
        {
            VM_CHECK(b[k] == was[k], "stray-write",
                     "byte %zu outside of [%zu, +%zu)", k, from, n);
        }
    }
    vm::state(vm::mix(n * 65536 + from) ^ total);
}

// ---------------------------------------------------------------- M11 -----
constexpr std::size_t kM = 11;
struct Moved
{
    std::byte b[kM];
    std::uint8_t dst, src, count;
    bool returned;
};
constexpr std::byte first_byte(std::size_t i)
{
    return static_cast<std::byte>(0x31 + 7 * i);
}
constexpr Moved move_at_compile_time(std::size_t dst, std::size_t src,
                                     std::size_t n)
{
    Moved m{};
    for (std::size_t i = 0; i < kM; ++i)
    {
        m.b[i] = first_byte(i);
    }
    m.dst = static_cast<std::uint8_t>(dst);
    m.src = static_cast<std::uint8_t>(src);
    m.count = static_cast<std::uint8_t>(n);
    m.returned = um::memmove(m.b + dst, m.b + src, n) == m.b + dst;
    return m;
}
constexpr std::size_t kD = kM + 1;
template <std::size_t... I>
constexpr std::array<Moved, sizeof...(I)> move_table(std::index_sequence<I...>)
{
    return {move_at_compile_time(
        I / kD, I % kD,
        kM - (I / kD > I % kD ? I / kD : I % kD))...};
}
template <std::size_t... I>
constexpr std::array<Moved, sizeof...(I)> move_table_short(
    std::index_sequence<I...>)
{
    // 0..2 bytes less than what fits
    return {move_at_compile_time(
        (I / 3) / (kD - 3), (I / 3) % (kD - 3),
        kM - 1 - I % 3 -
            ((I / 3) / (kD - 3) > (I / 3) % (kD - 3) ? (I / 3) / (kD - 3)
                                                     : (I / 3) % (kD - 3)))...};
}
template <typename To, typename From>
struct Copied
{
    To to[kM];
    std::uint8_t dst, src, count;
};
template <typename From>
constexpr From make(std::size_t i)
{
    return static_cast<From>(0x61 + 23 * i);
}
template <typename To, typename From>
constexpr Copied<To, From> copy_at_compile_time(std::size_t dst,
                                                std::size_t src, std::size_t n)
{
    Copied<To, From> c{};
    From from[kM]{};
    for (std::size_t i = 0; i < kM; ++i)
    {
        from[i] = make<From>(i);
        c.to[i] = static_cast<To>(0x11);
    }
    um::memcpy(c.to + dst, from + src, n);
    c.dst = static_cast<std::uint8_t>(dst);
    c.src = static_cast<std::uint8_t>(src);
    c.count = static_cast<std::uint8_t>(n);
    return c;
}
template <typename To, typename From, std::size_t... I>
constexpr std::array<Copied<To, From>, sizeof...(I)> copy_table(
    std::index_sequence<I...>)
{
    return {copy_at_compile_time<To, From>(I % 4, (I / 4) % 4,
                                           (I / 16) % (kM - 3))...};
}
// distinct arrays
constexpr Moved move_between_arrays(std::size_t n)
{
    Moved m{};
    std::byte from[kM]{};
    for (std::size_t i = 0; i < kM; ++i)
    {
        from[i] = first_byte(i);
        m.b[i] = std::byte{0xee};
    }
    m.count = static_cast<std::uint8_t>(n);
    m.returned = um::memmove(m.b, from, n) == m.b;
    return m;
}
template <std::size_t... I>
constexpr std::array<Moved, sizeof...(I)> between_table(
    std::index_sequence<I...>)
{
    return {move_between_arrays(I)...};
}

#ifndef CONSTANT_BRANCH
constexpr auto kMoves = move_table(std::make_index_sequence<kD * kD>{});
constexpr auto kMovesShort = move_table_short(
    std::make_index_sequence<(kD - 3) * (kD - 3) * 3>{});
constexpr auto kBetween = between_table(std::make_index_sequence<kM + 1>{});

void check_move(const Moved& m)
{
    VM_CHECK(m.returned, "result", "constant expression: wrong pointer");
    for (std::size_t k = 0; k < kM; ++k)
    {
        const bool in = k >= m.dst && k < std::size_t{m.dst} + m.count;
        const std::byte want = first_byte(in ? k - m.dst + m.src : k);
        VM_CHECK(m.b[k] == want, "constant-expression",
                 "memmove(+%d, +%d, %d): byte %zu is %02x, not %02x", m.dst,
                 m.src, m.count, k, static_cast<unsigned>(m.b[k]),
                 static_cast<unsigned>(want));
    }
    vm::op("constant expression memmove(+%d, +%d, %d)", m.dst, m.src, m.count);
    vm::state(vm::mix(m.dst * 4096u + m.src * 64u + m.count));
}
template <typename To, typename From>
void check_copies(const char* what)
{
    static constexpr auto t =
        copy_table<To, From>(std::make_index_sequence<16 * (kM - 3)>{});
    for (auto& c: t)
    {
        for (std::size_t k = 0; k < kM; ++k)
        {
            const bool in = k >= c.dst && k < std::size_t{c.dst} + c.count;
            const From f = make<From>(k - c.dst + c.src);
            unsigned char want = 0x11, got;
            if (in)
            {
                std::memcpy(&want, &f, 1);
            }
            std::memcpy(&got, &c.to[k], 1);
            VM_CHECK(got == want, "constant-expression",
                     "memcpy %s (+%d, +%d, %d): element %zu is %02x, not %02x",
                     what, c.dst, c.src, c.count, k, got, want);
        }
        vm::op("constant expression memcpy %s (+%d, +%d, %d)", what, c.dst,
               c.src, c.count);
        vm::state(vm::hash(what, strlen(what)) ^
                  (c.dst * 4096u + c.src * 64u + c.count));
    }
}
void constexpr_moves()
{
    for (auto& m: kMoves) check_move(m);
    for (auto& m: kMovesShort) check_move(m);
    for (auto& m: kBetween)
    {
        VM_CHECK(m.returned, "result", "constant expression: wrong pointer");
        for (std::size_t k = 0; k < kM; ++k)
        {
            VM_CHECK(m.b[k] == (k < m.count ? first_byte(k) : std::byte{0xee}),
                     "constant-expression",
                     "memmove of %d bytes between arrays: byte %zu", m.count,
                     k);
        }
    }
    check_copies<std::byte, std::byte>("byte<-byte");
    check_copies<unsigned char, unsigned char>("uchar<-uchar");
    check_copies<char, char>("char<-char");
    check_copies<std::byte, unsigned char>("byte<-uchar");
    check_copies<unsigned char, std::byte>("uchar<-byte");
    check_copies<char, unsigned char>("char<-uchar");
    check_copies<signed char, unsigned char>("schar<-uchar");
    check_copies<unsigned char, signed char>("uchar<-schar");
    check_copies<std::byte, char>("byte<-char");
}
#else
void constexpr_moves() {}
#endif

template <typename To, typename From>
void copy(std::byte* to, const std::byte* from, std::size_t n)
{
    um::memcpy(reinterpret_cast<To*>(to), reinterpret_cast<const From*>(from),
               n);
}
enum class Small : unsigned char
{
};
struct One
{
    unsigned char c;
};

void move(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constexpr_moves();
    }
    // move within one buffer
    const std::size_t total = 1 + r.any_width(r.chance(1, 20) ? 14 : 8);
    Bytes b = random_bytes(r, total);
    const Bytes was = b;
    std::size_t n = r.below(total + 1);
    std::size_t src = r.below(total - n + 1);
    std::size_t dst = r.below(total - n + 1);
    if (n && r.chance(1, 3))
    {
        // ranges that just touch, or overlap in a byte
        const std::size_t gap = n - r.below(2);
        if (src + gap + n <= total)
        {
            dst = src + gap;
        }
        else if (src >= gap)
        {
            dst = src - gap;
        }
    }
    std::byte* got = um::memmove(b.data() + dst, b.data() + src, n);
    vm::op("memmove(+%zu, +%zu, %zu) of %zu", dst, src, n, total);
    VM_CHECK(got == b.data() + dst, "result", "returned another pointer");
    for (std::size_t k = 0; k < total; ++k)
    {
        const bool in = k >= dst && k < dst + n;
        VM_CHECK(b[k] == was[in ? k - dst + src : k],
                 in ? "wrong-content" : "stray-write",
                 "memmove(+%zu, +%zu, %zu): byte %zu", dst, src, n, k);
    }
    vm::state(vm::mix(dst * 1048576 + src * 1024 + n));
    vm::count(dst == src          ? "moves onto itself"
              : dst < src + n && src < dst + n
                  ? (dst < src ? "moves down overlapping"
                               : "moves up overlapping")
                  : "disjoint moves");

    // copy between buffers that end exactly where the ranges end
    const std::size_t cn = r.below(total + 1);
    const std::size_t so = r.below(9), to = r.below(9);
    Bytes s = random_bytes(r, so + cn);
    Bytes d = random_bytes(r, to + cn);
    s.shrink_to_fit();
    d.shrink_to_fit();
    const Bytes s0 = s, d0 = d;
    if (s.empty() || d.empty())
    {
        return;
    }
    std::byte* tp = d.data() + to;
    const std::byte* fp = s.data() + so;
    const auto kind = r.below(12);
    switch (kind)
    {
        case 0: copy<std::byte, std::byte>(tp, fp, cn); break;
        case 1: copy<char, char>(tp, fp, cn); break;
        case 2: copy<unsigned char, std::byte>(tp, fp, cn); break;
        case 3: copy<std::byte, unsigned char>(tp, fp, cn); break;
        case 4: copy<signed char, unsigned char>(tp, fp, cn); break;
        case 5: copy<std::int8_t, char>(tp, fp, cn); break;
#ifndef CONSTANT_BRANCH
        case 6: copy<bool, bool>(tp, fp, 0); copy<One, One>(tp, fp, cn); break;
        case 7: copy<Small, unsigned char>(tp, fp, cn); break;
#else
        case 6:
        case 7: copy<Small, Small>(tp, fp, cn); break;
#endif
        case 8: copy<void, void>(tp, fp, cn); break;
        case 9: copy<void, std::byte>(tp, fp, cn); break;
        case 10: copy<std::byte, void>(tp, fp, cn); break;
        default: copy<char, void>(tp, fp, cn); break;
    }
    vm::op("memcpy[%d](%zu)", static_cast<int>(kind), cn);
    for (std::size_t k = 0; k < d.size(); ++k)
    {
        VM_CHECK(d[k] == (k < to ? d0[k] : s0[k - to + so]), "wrong-content",
                 "memcpy[%d] of %zu bytes: byte %zu", static_cast<int>(kind),
                 cn, k);
    }
    VM_CHECK(s == s0, "stray-write", "memcpy changed its source");
    vm::state(vm::mix(cn * 16 + kind) + 1);
}
}  // namespace

int main(int argc, char** argv)
{
    return vm::run_main(argc, argv, MONITOR == 10 ? zero : move);
}
