// C01: alignment arithmetic against its definition, in 128 bit arithmetic.
#include "vmon.h"

#include <cassert>
#include <chrono>
#include <tuple>
#ifdef CONSTANT_BRANCH
#define __builtin_is_constant_evaluated() true
#endif
#include <utils/common.h>
#include <utils/memory/memory.h>

namespace
{
using u64 = std::uint64_t;
using u128 = unsigned __int128;
const void* addr(u64 a)
{
    return reinterpret_cast<const void*>(static_cast<std::uintptr_t>(a));
}
u64 up(u64 m, u64 v)
{
    // the least multiple of m not below v, modulo 2^64
    return static_cast<u64>((static_cast<u128>(v) + m - 1) / m * m);
}
u64 divisor(u64 v, unsigned width)
{
    u64 best = u64{1} << (width - 1);
    if (v)
    {
        while (v % best)
        {
            best /= 2;
        }
    }
    return best;
}
bool power(u64 v)
{
    return __builtin_popcountll(v) == 1;
}
// largest power of two m such that [p, p + size) contains a multiple of m for
// every p that is a multiple of align
u64 inside(u64 align, u64 size)
{
    u64 best = align;
    for (unsigned b = 0; b < 64; ++b)
    {
        const u128 m = u128{1} << b;
        if (m <= align)
        {
            continue;
        }
        // the worst start is just behind a multiple of m
        if (m - align < size)
        {
            best = static_cast<u64>(m);
        }
    }
    return best;
}
// the same by looking at addresses, for small numbers
u64 inside_by_search(u64 align, u64 size)
{
    u64 best = 1;
    for (u64 m = 1; m <= 4096; m *= 2)
    {
        bool all = true;
        for (u64 p = 0; p < 2 * 4096 && all; p += align)
        {
            bool has = false;
            for (u64 k = 0; k < size && !has; ++k)
            {
                has = (p + k) % m == 0;
            }
            all = has;
        }
        if (all)
        {
            best = m;
        }
    }
    return best;
}

template <auto P, typename U>
void typed(u64 raw)
{
    using UU = std::make_unsigned_t<U>;
    const auto v = static_cast<U>(raw);
    constexpr unsigned width = sizeof(U) * 8;
    const u128 mask = width == 64 ? ~u64{0} : (u64{1} << width) - 1;
    if constexpr (std::is_signed_v<U>)
    {
        // overflow is not defined
        if (v > std::numeric_limits<U>::max() - static_cast<U>(P) + 1)
        {
            return;
        }
        const __int128 x = v;
        __int128 want = x / static_cast<__int128>(P) * static_cast<__int128>(P);
        if (want < x)
        {
            want += static_cast<__int128>(P);
        }
        const auto got = utils::next_multiple_of<P>(v);
        VM_CHECK(got == want, "next-multiple",
                 "next_multiple_of<%llu>(%lld) = %lld",
                 static_cast<unsigned long long>(P), static_cast<long long>(v),
                 static_cast<long long>(got));
    }
    else
    {
        const UU want = static_cast<UU>(
            (static_cast<u128>(v) + static_cast<u128>(P) - 1) /
            static_cast<u128>(P) * static_cast<u128>(P) & mask);
        const auto got = utils::next_multiple_of<P>(v);
        VM_CHECK(got == want, "next-multiple",
                 "next_multiple_of<%llu>(%llu) = %llu, not %llu (%u bits)",
                 static_cast<unsigned long long>(P),
                 static_cast<unsigned long long>(v),
                 static_cast<unsigned long long>(got),
                 static_cast<unsigned long long>(want), width);
        VM_CHECK(utils::greatest_divisor_that_is_power_of_2(v) ==
                     divisor(static_cast<UU>(v), width),
                 "greatest-divisor", "of %llu (%u bits): %llu",
                 static_cast<unsigned long long>(v), width,
                 static_cast<unsigned long long>(
                     utils::greatest_divisor_that_is_power_of_2(v)));
        static_assert(
            std::is_same_v<decltype(utils::greatest_divisor_that_is_power_of_2(
                               v)),
                           U>);
    }
    static_assert(std::is_same_v<decltype(utils::next_multiple_of<P>(U{})), U>);
    vm::op("next_multiple_of<%llu>(%llu)", static_cast<unsigned long long>(P),
           static_cast<unsigned long long>(static_cast<UU>(v)));
}
template <typename U, auto... P>
void typed_all(u64 raw)
{
    (typed<P, U>(raw), ...);
}

void values(u64 v, u64 a)
{
    // a: power of two
    const u64 want = up(a, v);
    VM_CHECK(utils::next_multiple_of(a, v) == want, "next-multiple",
             "next_multiple_of(%llu, %llu) = %llu, not %llu", (unsigned long long)a, (unsigned long long)v,
             (unsigned long long)utils::next_multiple_of(a, v), (unsigned long long)want);
    VM_CHECK(utils::skip_to_align(addr(v), a) == static_cast<u64>(want - v),
             "skip-to-align", "skip_to_align(%llx, %llu) = %llu, not %llu",
             (unsigned long long)v, (unsigned long long)a,
             (unsigned long long)utils::skip_to_align(addr(v), a), (unsigned long long)(want - v));
    VM_CHECK(utils::is_aligned(addr(v), a) == (v % a == 0), "is-aligned",
             "is_aligned(%llx, %llu)", (unsigned long long)v, (unsigned long long)a);
    if (v)
    {
        VM_CHECK(utils::memory::get_alignment(addr(v)) == divisor(v, 64),
                 "get-alignment", "get_alignment(%llx) = %zu", (unsigned long long)v,
                 utils::memory::get_alignment(addr(v)));
    }
    VM_CHECK(utils::is_power_of_2(v) == power(v), "is-power-of-2",
             "is_power_of_2(%llu)", (unsigned long long)v);
    VM_CHECK(utils::is_power_of_2(a), "is-power-of-2", "is_power_of_2(%llu)",
             (unsigned long long)a);
    if (v && static_cast<u128>(a) + v - 1 <= ~u64{0})
    {
        VM_CHECK(utils::max_alignment_inside_block(a, v) == inside(a, v),
                 "max-alignment-inside-block",
                 "max_alignment_inside_block(%llu, %llu) = %zu, not %llu",
                 (unsigned long long)a, (unsigned long long)v, utils::max_alignment_inside_block(a, v),
                 (unsigned long long)inside(a, v));
    }
    vm::op("value %llx, alignment %llx", (unsigned long long)v, (unsigned long long)a);
    vm::state(vm::mix(v) ^ a);
}
template <typename T>
void aligned_type(u64 v)
{
    VM_CHECK(utils::is_aligned<T>(addr(v)) == (v % alignof(T) == 0),
             "is-aligned", "is_aligned<align %zu>(%llx)", alignof(T),
             (unsigned long long)v);
    VM_CHECK(utils::skip_to_align<T>(addr(v)) ==
                 static_cast<u64>(up(alignof(T), v) - v),
             "skip-to-align", "skip_to_align<align %zu>(%llx)", alignof(T),
             (unsigned long long)v);
}
struct alignas(64) A64
{
};
struct alignas(4096) A4096
{
};

#ifndef CONSTANT_BRANCH
// ---- in constant expressions ----------------------------------------------
constexpr u64 pick(std::size_t i)
{
    // small values, values around powers of two, the ends of the type
    return i < 40 ? i
           : i < 40 + 64 * 3
               ? (u64{1} << ((i - 40) / 3)) + (i - 40) % 3 - 1
               : ~u64{0} - (i - 40 - 64 * 3);
}
constexpr std::size_t kPicks = 40 + 64 * 3 + 8;
struct Row
{
    u64 v;
    bool pow;
    u64 div64;
    std::uint32_t div32;
    std::uint16_t div16;
    std::uint8_t div8;
    u64 next[64];
    u64 inside[64];
    u64 t8, t64, t4096;
    std::uint8_t b16;
};
constexpr Row row(std::size_t i)
{
    Row r{};
    const u64 v = pick(i);
    r.v = v;
    r.pow = utils::is_power_of_2(v);
    r.div64 = utils::greatest_divisor_that_is_power_of_2(v);
    r.div32 = utils::greatest_divisor_that_is_power_of_2(
        static_cast<std::uint32_t>(v));
    r.div16 = utils::greatest_divisor_that_is_power_of_2(
        static_cast<std::uint16_t>(v));
    r.div8 = utils::greatest_divisor_that_is_power_of_2(
        static_cast<std::uint8_t>(v));
    for (unsigned b = 0; b < 64; ++b)
    {
        r.next[b] = utils::next_multiple_of(u64{1} << b, v);
        r.inside[b] = v && (u64{1} << b) - 1 <= ~u64{0} - v
                          ? utils::max_alignment_inside_block(u64{1} << b, v)
                          : 0;
    }
    r.t8 = utils::next_multiple_of<8>(v);
    r.t64 = utils::next_multiple_of<64u>(v);
    r.t4096 = utils::next_multiple_of<std::size_t{4096}>(v);
    r.b16 = utils::next_multiple_of<16>(static_cast<std::uint8_t>(v));
    return r;
}
template <std::size_t I>
struct Const
{
    static constexpr Row r = row(I);
};
template <std::size_t... I>
void constant(std::index_sequence<I...>)
{
    static const Row* rows[] = {&Const<I>::r...};
    for (auto* r: rows)
    {
        const u64 v = r->v;
        VM_CHECK(r->pow == power(v) && r->div64 == divisor(v, 64) &&
                     r->div32 == divisor(static_cast<std::uint32_t>(v), 32) &&
                     r->div16 == divisor(static_cast<std::uint16_t>(v), 16) &&
                     r->div8 == divisor(static_cast<std::uint8_t>(v), 8),
                 "constant-expression",
                 "powers and divisors of %llu in constant expressions", (unsigned long long)v);
        for (unsigned b = 0; b < 64; ++b)
        {
            VM_CHECK(r->next[b] == up(u64{1} << b, v), "constant-expression",
                     "next_multiple_of(2^%u, %llu)", b, (unsigned long long)v);
            if (v && static_cast<u128>(u64{1} << b) + v - 1 <= ~u64{0})
            {
                VM_CHECK(r->inside[b] == inside(u64{1} << b, v),
                         "constant-expression",
                         "max_alignment_inside_block(2^%u, %llu)", b, (unsigned long long)v);
            }
        }
        VM_CHECK(r->t8 == up(8, v) && r->t64 == up(64, v) &&
                     r->t4096 == up(4096, v) &&
                     r->b16 == static_cast<std::uint8_t>(
                                   up(16, static_cast<std::uint8_t>(v))),
                 "constant-expression", "next_multiple_of<>(%llu)", (unsigned long long)v);
        vm::op("constant expression: %llx", (unsigned long long)v);
        vm::state(vm::mix(v) + 1);
    }
}
#endif

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
#ifndef CONSTANT_BRANCH
        constant(std::make_index_sequence<kPicks>{});
#endif
        for (u64 v = 0; v < 300; ++v)
        {
            for (unsigned b = 0; b < 64; ++b)
            {
                values(v, u64{1} << b);
                values(0 - v, u64{1} << b);
            }
        }
        for (u64 a = 1; a <= 64; a *= 2)
        {
            for (u64 s = 1; s <= 200; ++s)
            {
                const u64 want = inside_by_search(a, s);
                VM_CHECK(utils::max_alignment_inside_block(a, s) == want,
                         "max-alignment-inside-block",
                         "max_alignment_inside_block(%llu, %llu) = %zu, not "
                         "%llu",
                         (unsigned long long)a, (unsigned long long)s,
                         utils::max_alignment_inside_block(a, s), (unsigned long long)want);
            }
        }
        for (u64 v = 0; v < 65536; ++v)
        {
            typed_all<std::uint8_t, 1, 2, 4, 16, 64, 128u>(v);
            typed_all<std::uint16_t, 1, 8, 256, 4096u, 32768>(v);
            typed_all<std::int16_t, 1, 2, 8, 1024>(v);
        }
    }
    for (unsigned k = 0; k < 40; ++k)
    {
        const u64 a = u64{1} << r.below(64);
        u64 v = r.any_width();
        if (r.chance(1, 2))
        {
            // near a multiple
            v = v / a * a + r.below(3) - 1;
        }
        if (r.chance(1, 6))
        {
            v = 0 - v;
        }
        values(v, a);
        aligned_type<char>(v);
        aligned_type<short>(v);
        aligned_type<int>(v);
        aligned_type<double>(v);
        aligned_type<std::max_align_t>(v);
        aligned_type<A64>(v);
        aligned_type<A4096>(v);
        switch (r.below(6))
        {
            case 0: typed_all<std::uint32_t, 1, 4, 64u, 0x80000000u>(v); break;
            case 1: typed_all<std::uint64_t, 1, 8, 4096u, (u64{1} << 63)>(v); break;
            case 2: typed_all<std::int32_t, 1, 4, 4096, (1 << 30)>(v); break;
            case 3: typed_all<std::int64_t, 2, 8, 1024, (u64{1} << 40)>(v); break;
            case 4: typed_all<unsigned long, 16, 32, (std::size_t{1} << 33)>(v); break;
            default: typed_all<unsigned long long, 2, 1 << 20>(v); break;
        }
    }
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
