// Stand-in for the operating system layer (sysops-adapters), which is not part
// of this repository. Forwards to libc, or to the hooks a harness installs.
#pragma once
#include <cstddef>
#include <cstdlib>
namespace sysops::memory::ops
{
inline int (*memalign_hook)(void**, std::size_t, std::size_t) = nullptr;
inline void (*free_hook)(void*) = nullptr;

inline int posix_memalign(void** aOut, std::size_t aAlignment,
                          std::size_t aSize) noexcept
{
    return memalign_hook ? memalign_hook(aOut, aAlignment, aSize)
                         : ::posix_memalign(aOut, aAlignment, aSize);
}
inline void free(void* aPtr) noexcept
{
    free_hook ? free_hook(aPtr) : ::free(aPtr);
}
}  // namespace sysops::memory::ops
