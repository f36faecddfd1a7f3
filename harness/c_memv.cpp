// C06: memory-equals-byte, between inaccessible pages.
#include "vmon.h"

#include <cassert>
#include <utils/common.h>

#ifdef VM_MEMCHECK
#include <valgrind/memcheck.h>
#define FORBID(p, n) VALGRIND_MAKE_MEM_NOACCESS(p, n)
#define ALLOW(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
#elif defined(VM_SANITIZED)
#include <sanitizer/asan_interface.h>
#define FORBID(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define ALLOW(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define FORBID(p, n) static_cast<void>(0)
#define ALLOW(p, n) static_cast<void>(0)
#endif

namespace
{
constexpr std::size_t kPage = 4096, kRoom = 16 * kPage;
unsigned char* room;  // kRoom accessible bytes between two guards

void ask(const unsigned char* p, std::size_t n, unsigned char v,
         std::uint64_t where)
{
    bool want = n != 0;
    for (std::size_t k = 0; k < n && want; ++k)
    {
        want = p[k] == v;
    }
    vm::op("memvcmp(%s %zu, %u)", where ? "at the end" : "at the start", n, v);
    // the neighbouring bytes may not be read either
    const std::size_t before = std::min<std::size_t>(64, p - room);
    const std::size_t behind = std::min<std::size_t>(64, room + kRoom - (p + n));
    FORBID(p - before, before);
    FORBID(p + n, behind);
    const bool got = utils::memvcmp(p, v, n);
    ALLOW(p - before, before);
    ALLOW(p + n, behind);
    VM_CHECK(got == want, "wrong-result", "memvcmp of %zu bytes with %u: %d",
             n, v, got);
    vm::count(want ? "equal" : "different");
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        VM_CHECK(!utils::memvcmp(nullptr, 0, 0) &&
                     !utils::memvcmp(nullptr, 0, 1) &&
                     !utils::memvcmp(nullptr, 0, SIZE_MAX) &&
                     !utils::memvcmp(nullptr, 255, 1000),
                 "null", "true for null");
        // nothing may be read
        VM_CHECK(!utils::memvcmp(room - 1, 0, 0) &&
                     !utils::memvcmp(room + kRoom, 0, 0),
                 "empty", "true for an empty range");
        for (unsigned v = 0; v < 256; ++v)
        {
            for (unsigned b = 0; b < 256; ++b)
            {
                room[kRoom - 1] = static_cast<unsigned char>(b);
                ask(room + kRoom - 1, 1, static_cast<unsigned char>(v), 1);
            }
        }
        for (std::size_t n = 1; n <= 80; ++n)
        {
            for (std::size_t at = 0; at < n; ++at)
            {
                for (int end = 0; end < 2; ++end)
                {
                    unsigned char* p = end ? room + kRoom - n : room;
                    const auto v = static_cast<unsigned char>(n * 7 + at);
                    std::memset(p, v, n);
                    p[at] ^= static_cast<unsigned char>(1u << (at % 8));
                    ask(p, n, v, end);
                    ask(p, n, p[at], end);
                    vm::state(n * 4096 + at * 2 + static_cast<unsigned>(end));
                }
            }
        }
    }
    const std::size_t n =
        r.chance(1, 20) ? r.below(kRoom + 1) : r.any_width(10);
    const auto v = static_cast<unsigned char>(r.chance(1, 4) ? 255 * r.below(2)
                                                             : r.below(256));
    bool end = r.chance(1, 2);
    unsigned char* p = end ? room + kRoom - n : room;
    if (r.chance(1, 4) && n + 64 < kRoom)
    {
        // somewhere in between: neighbours must not matter
        p = room + r.below(kRoom - n);
        end = false;
        std::memset(p == room ? p : p - 1, v ^ 0x55, n + 1);
    }
    std::memset(p, v, n);
    std::uint64_t at = n;
    if (n && r.chance(2, 3))
    {
        switch (r.below(4))
        {
            case 0: at = 0; break;
            case 1: at = n - 1; break;
            default: at = r.below(n); break;
        }
        p[at] ^= static_cast<unsigned char>(1 + r.below(255));
        if (r.chance(1, 4))
        {
            // a period: p[k] == p[k + 1] holds for most of it
            for (std::size_t k = at; k < n; ++k)
            {
                p[k] = p[at];
            }
        }
    }
    ask(p, n, v, end);
    ask(p, n, n ? p[r.below(n)] : 0, end);
    vm::state(vm::mix(n * 131072 + at * 2 + end));
}
}  // namespace

int main(int argc, char** argv)
{
    auto* m = static_cast<unsigned char*>(mmap(nullptr, kRoom + 2 * kPage, PROT_NONE,
                                               MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED || mprotect(m + kPage, kRoom, PROT_READ | PROT_WRITE))
    {
        return 3;
    }
    room = m + kPage;
    return vm::run_main(argc, argv, run);
}
