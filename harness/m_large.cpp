// Ranges of more than 64 KiB, and of more than 4 GiB: secure zeroing (MONITOR=10), byte move and copy
// (11), memory-equals-byte (6). Nearly all of a range is one small file mapped
// over and over; the pages at both ends are its own, between inaccessible ones.
#include "vmon.h"

#include <sys/syscall.h>
#include <utils/common.h>
#if MONITOR != 6
#include <utils/memory/memory.h>
#endif

namespace
{
constexpr std::size_t kPage = 4096, kFile = std::size_t{1} << 21;
constexpr std::size_t kMiddle = std::size_t{2049} * kFile;  // 4 GiB + 2 MiB

struct Range
{
    unsigned char *head = nullptr, *tail = nullptr;  // a page each
    bool map()
    {
        const long fd = syscall(SYS_memfd_create, "verif", 0u);
        if (fd < 0 || ftruncate(static_cast<int>(fd), kFile))
        {
            return false;
        }
        void* m = mmap(nullptr, kMiddle + 4 * kPage, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED)
        {
            return false;
        }
        head = static_cast<unsigned char*>(m) + kPage;
        tail = head + kPage + kMiddle;
        for (std::size_t at = 0; at < kMiddle; at += kFile)
        {
            if (mmap(head + kPage + at, kFile, PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_FIXED, static_cast<int>(fd),
                     0) == MAP_FAILED)
            {
                return false;
            }
        }
        close(static_cast<int>(fd));
        return !mprotect(head, kPage, PROT_READ | PROT_WRITE) &&
               !mprotect(tail, kPage, PROT_READ | PROT_WRITE);
    }
    void fill(unsigned char c, unsigned char ends)
    {
        std::memset(head, ends, kPage);
        std::memset(head + kPage, c, kFile);
        std::memset(tail, ends, kPage);
    }
};
Range one, two;

// 64 KiB to 8 MiB of ordinary memory with contents of their own everywhere
void some_megabytes(vm::Rng& r)
{
    constexpr std::size_t kMost = std::size_t{8} << 20, kAround = 64;
    static std::vector<unsigned char> a(kMost + 2 * kAround), was;
    // about a power of two, one of its multiples, or anything
    std::size_t n = std::size_t{1} << (16 + r.below(7));
    switch (r.below(3))
    {
        case 0: n = n - 8 + r.below(17); break;
        case 1: n = std::min(kMost, n * (1 + r.below(5)) + r.below(3)); break;
        default: n += r.below(n); break;
    }
    n = std::min(n, kMost);
    vm::op("%zu bytes", n);
    vm::state(n);
    vm::count("bytes", n);
    const std::size_t at = r.below(kAround);
#if MONITOR == 6
    unsigned char* p = a.data() + at;
    const auto x = static_cast<unsigned char>(r.below(256)),
               y = static_cast<unsigned char>(x + 1 + r.below(255));
    // two values: the second from `step` on, or from there for a while
    for (std::size_t k = 0; k < 32; ++k)
    {
        std::size_t step = k < 19 ? std::size_t{1} << (4 + k) : r.below(n);
        if (k < 19 && r.chance(1, 4) && step + step / 2 < n)
        {
            step += step / 2;
        }
        if (step >= n)
        {
            continue;
        }
        const std::size_t length = r.chance(1, 2) ? n - step : std::min(n - step, step);
        std::memset(a.data(), x, a.size());
        std::memset(p + step, y, length);
        VM_CHECK(!utils::memvcmp(p, x, n), "wrong-result",
                 "%zu of %zu bytes from the one at %zu on differ", length, n, step);
        VM_CHECK(!utils::memvcmp(p, y, n), "wrong-result",
                 "the first %zu of %zu bytes differ", step, n);
        VM_CHECK(utils::memvcmp(p, x, step), "wrong-result",
                 "%zu equal bytes before others", step);
        VM_CHECK(utils::memvcmp(p + step, y, length), "wrong-result",
                 "%zu equal bytes among others", length);
    }
#else
    std::uint64_t seed = r() | 1;
    for (auto& c : a)
    {
        seed = seed * 6364136223846793005u + 1442695040888963407u;
        c = static_cast<unsigned char>(1 + (seed >> 40) % 255);
    }
    was = a;
#if MONITOR == 10
    VM_CHECK(utils::memory::secure_zero_memory_safe(
                 reinterpret_cast<std::byte*>(a.data() + at), n) == 0,
             "return-code", "%zu bytes", n);
    for (std::size_t k = 0; k < a.size(); ++k)
    {
        const bool inside = k >= at && k < at + n;
        VM_CHECK(a[k] == (inside ? 0 : was[k]), inside ? "not-cleared" : "stray-write",
                 "byte %zd of %zu", static_cast<std::ptrdiff_t>(k - at), n);
    }
#else
    // within the buffer, by little, by much, or by about the length
    n = std::min(n, kMost - kAround);
    std::size_t gap = r.below(3) == 0 ? r.below(70) : r.below(2) ? r.below(n) : n - r.below(9);
    gap = std::min(gap, a.size() - n - at);
    std::size_t from = at, to = at + gap;
    if (r.chance(1, 2))
    {
        std::swap(from, to);
    }
    auto* d = reinterpret_cast<std::byte*>(a.data() + to);
    auto* s = reinterpret_cast<const std::byte*>(a.data() + from);
    if (gap >= n && r.chance(1, 2))
    {
        utils::memory::memcpy(d, s, n);
    }
    else
    {
        VM_CHECK(utils::memory::memmove(d, s, n) == d, "result",
                 "returned another pointer");
    }
    for (std::size_t k = 0; k < a.size(); ++k)
    {
        const bool inside = k >= to && k < to + n;
        VM_CHECK(a[k] == (inside ? was[k - to + from] : was[k]), "wrong-content",
                 "byte %zd of %zu moved from %zu to %zu", static_cast<std::ptrdiff_t>(k - to), n,
                 from, to);
    }
#endif
#endif
}

void run(vm::Rng& r, std::uint64_t nth)
{
    if (nth % 20)
    {
        some_megabytes(r);
        return;
    }
    // first and last byte in the pages at the ends
    const std::size_t before = r.below(kPage - 8),
                      after = r.below(kPage - 8);
    unsigned char* from = one.head + before;
    const std::size_t n = static_cast<std::size_t>(one.tail + after - from);
    vm::op("%zu bytes", n);
    vm::state(n);
    vm::count("bytes", n);
#if MONITOR == 10
    one.fill(0xa5, 0xa6);
    auto* p = reinterpret_cast<std::byte*>(from);
    // the other function is called by it or does the same
    VM_CHECK(utils::memory::secure_zero_memory_safe(p, n) == 0, "return-code",
             "%zu bytes", n);
    for (std::size_t k = 0; k < kPage; ++k)
    {
        VM_CHECK(one.head[k] == (k < before ? 0xa6 : 0),
                 k < before ? "stray-write" : "not-cleared",
                 "byte %zu of the first page", k);
        VM_CHECK(one.tail[k] == (k < after ? 0 : 0xa6),
                 k < after ? "not-cleared" : "stray-write",
                 "byte %zu of the last page of %zu bytes", k, n);
    }
    for (std::size_t k = 0; k < kFile; ++k)
    {
        VM_CHECK(!one.head[kPage + k], "not-cleared", "in the middle");
    }
#elif MONITOR == 11
    for (int how = 0; how < 3; ++how)
    {
        one.fill(0x11, 0);
        two.fill(0x22, 0x23);
        for (std::size_t k = 0; k < kPage; ++k)
        {
            one.head[k] = static_cast<unsigned char>(k * 7 + 1);
            one.tail[k] = static_cast<unsigned char>(k * 5 + 2);
        }
        unsigned char* to = two.head + before;
        auto* d = reinterpret_cast<std::byte*>(to);
        auto* s = reinterpret_cast<const std::byte*>(from);
        switch (how)
        {
            case 0:
                VM_CHECK(utils::memory::memmove(d, s, n) == d, "result",
                         "returned another pointer");
                break;
            case 1: utils::memory::memcpy(d, s, n); break;
            default:
                utils::memory::memcpy<void, unsigned char>(to, from, n);
                break;
        }
        for (std::size_t k = 0; k < kPage; ++k)
        {
            VM_CHECK(two.head[k] == (k < before ? 0x23 : one.head[k]),
                     "wrong-content", "byte %zu of the first page", k);
            VM_CHECK(two.tail[k] == (k < after ? one.tail[k] : 0x23),
                     "wrong-content", "byte %zu of the last page of %zu bytes",
                     k, n);
        }
        for (std::size_t k = 0; k < kFile; ++k)
        {
            VM_CHECK(two.head[kPage + k] == 0x11, "wrong-content",
                     "in the middle");
        }
        vm::op("copied in way %d", how);
    }
#else
    one.fill(0xa5, 0xa5);
    VM_CHECK(utils::memvcmp(from, 0xa5, n), "wrong-result", "%zu equal bytes",
             n);
    VM_CHECK(!utils::memvcmp(from, 0xa4, n), "wrong-result",
             "%zu other bytes", n);
    unsigned char& last = *(from + n - 1);
    last = 0xa4;
    VM_CHECK(!utils::memvcmp(from, 0xa5, n), "wrong-result",
             "the last of %zu bytes differs", n);
    VM_CHECK(utils::memvcmp(from, 0xa5, n - 1), "wrong-result",
             "the byte behind %zu equal ones differs", n - 1);
    last = 0xa5;
    *from = 0xa4;
    VM_CHECK(!utils::memvcmp(from, 0xa5, n), "wrong-result",
             "the first of %zu bytes differs", n);
    VM_CHECK(utils::memvcmp(from + 1, 0xa5, n - 1), "wrong-result",
             "the byte before %zu equal ones differs", n - 1);
#endif
}
}  // namespace

int main(int argc, char** argv)
{
    if (!one.map() || !two.map())
    {
        // no such address space here: nothing observed but that
        return vm::run_main(argc, argv, [](vm::Rng& r, std::uint64_t nth)
                            {
                                if (nth % 20)
                                {
                                    some_megabytes(r);
                                }
                            });
    }
    return vm::run_main(argc, argv, run);
}
