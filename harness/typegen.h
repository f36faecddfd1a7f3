// For generated programs: tables of results that the compiler computed with the
// library, next to those of the generator's model, compared at run time.
#pragma once
#include "vmon.h"

#include <tuple>
#include <type_traits>

namespace tg
{
struct Entry
{
    const char* what;
    long long got;
    long long want;
};
struct Group
{
    const char* label;
    const Entry* entry;
    std::size_t size;
};
template <typename A, typename B>
constexpr long long is(long long n = 1)
{
    return std::is_same_v<A, B> ? n : -1;
}

template <std::size_t N>
int run(int argc, char** argv, const Group (&groups)[N])
{
    // one case per group, whatever was asked for
    std::vector<char*> args(argv, argv + argc);
    std::string cases = std::to_string(N), option = "--cases";
    args.push_back(option.data());
    args.push_back(cases.data());
    return vm::run_main(
        static_cast<int>(args.size()), args.data(),
        [&](vm::Rng&, std::uint64_t i)
        {
            const Group& g = groups[i];
            vm::op("%s", g.label);
            const std::uint64_t h = vm::hash(g.label, strlen(g.label));
            for (std::size_t k = 0; k < g.size; ++k)
            {
                const Entry& e = g.entry[k];
                vm::op("%s = %lld", e.what, e.got);
                VM_CHECK(e.got == e.want, "result", "%s is %lld, not %lld, for %s",
                         e.what, e.got, e.want, g.label);
                vm::state(vm::hash(e.what, strlen(e.what), h));
            }
            vm::count("results", g.size);
        });
}
}  // namespace tg

namespace tg
{
// Whether the compiler itself regards a byte of T as padding (g++ only, and it
// misses some in front of arrays of classes: only more padding tells something).
template <typename T, bool Otherwise>
bool padded()
{
#if defined(__GNUC__) && !defined(__clang__)
    alignas(T) unsigned char b[sizeof(T)];
    memset(b, 0xff, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
    __builtin_clear_padding(reinterpret_cast<T*>(b));
    asm volatile("" : : "r"(b) : "memory");
    for (const unsigned char c: b)
    {
        if (c != 0xff)
        {
            return true;
        }
    }
#endif
    return Otherwise;
}
}  // namespace tg
