// The parts of the secret observer the optimizer must not see through.
#include <cstdlib>
#include <cstring>
#include <new>

#include "m_secret.h"

extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(std::size_t);

namespace
{
const std::byte* volatile watched;
volatile std::size_t watched_size;
volatile bool released, armed;
std::byte content[1 << 16];

void look(void* p)
{
    if (armed && p && p == watched && !released)
    {
        std::memcpy(content, p, watched_size);
        released = true;
    }
}
}  // namespace

extern "C" void free(void* p)
{
    look(p);
    __libc_free(p);
}
void* operator new(std::size_t n)
{
    return __libc_malloc(n ? n : 1);
}
void operator delete(void* p) noexcept
{
    look(p);
    __libc_free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    look(p);
    __libc_free(p);
}

void secret_make(std::byte* p, std::size_t n, std::uint64_t seed)
{
    for (std::size_t i = 0; i < n; ++i)
    {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        // neither zero nor the filling of an unused stack
        p[i] = static_cast<std::byte>(1 + (seed >> 33) % 200);
    }
}
void secret_fill(std::byte* p, std::size_t n, std::uint64_t seed)
{
    watched = p;
    watched_size = n;
    secret_make(p, n, seed);
}
unsigned secret_use(const std::byte* p, std::size_t n)
{
    unsigned s = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        s = s * 31 + static_cast<unsigned>(p[i]);
    }
    return s;
}
void secret_watch_begin(bool heap)
{
    watched = nullptr;
    watched_size = 0;
    released = false;
    armed = heap;
}
SecretSeen secret_watch_end()
{
    armed = false;
    return {watched, watched_size, released, content};
}
