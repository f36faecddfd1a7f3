// M10: what is left in memory of a secret that was zeroed and never read again.
//
// The program under observation puts a secret into a buffer, zeroes it and ends
// the buffer's lifetime at once (so that an optimizer may drop ordinary
// writes).  Stack buffers live on a stack of their own, which is searched after
// the function has returned; heap buffers are looked at in free() and operator
// delete, before the memory is given back.
#include "vmon.h"

#include <ucontext.h>
#include <utils/memory/memory.h>

#include "m_secret.h"

namespace um = utils::memory;
namespace
{
// ---- the program under observation ---------------------------------------
template <std::size_t N, bool Safe>
__attribute__((noinline)) unsigned on_stack(std::uint64_t seed)
{
    std::byte secret[N];
    secret_fill(secret, N, seed);
    const unsigned used = secret_use(secret, N);
    if constexpr (Safe)
    {
        (void)um::secure_zero_memory_safe(secret, N);
    }
    else
    {
        um::secure_zero_memory(secret, N);
    }
    return used;
}
template <std::size_t N>
struct Key
{
    std::byte bytes[N];
    explicit Key(std::uint64_t seed) { secret_fill(bytes, N, seed); }
    ~Key() { um::secure_zero_memory(bytes, N); }
};
template <std::size_t N>
__attribute__((noinline)) unsigned in_object(std::uint64_t seed)
{
    Key<N> k(seed);
    return secret_use(k.bytes, N);
}
template <std::size_t N>
__attribute__((noinline)) unsigned in_malloc(std::uint64_t seed)
{
    auto* p = static_cast<std::byte*>(std::malloc(N));
    secret_fill(p, N, seed);
    const unsigned used = secret_use(p, N);
    um::secure_zero_memory(p, N);
    std::free(p);
    return used;
}
__attribute__((noinline)) unsigned in_malloc_of(std::size_t n,
                                                std::uint64_t seed)
{
    auto* p = static_cast<std::byte*>(std::malloc(n));
    secret_fill(p, n, seed);
    const unsigned used = secret_use(p, n);
    (void)um::secure_zero_memory_safe(p, n);
    std::free(p);
    return used;
}
template <std::size_t N>
__attribute__((noinline)) unsigned in_new(std::uint64_t seed)
{
    auto* k = new Key<N>(seed);
    const unsigned used = secret_use(k->bytes, N);
    delete k;
    return used;
}

// ---- the observer ---------------------------------------------------------
constexpr std::size_t kStack = 1 << 16;
std::byte* stack_memory;
ucontext_t here, there;
unsigned (*target)(std::uint64_t);
std::size_t target_n;
std::uint64_t target_seed;
unsigned target_used;

void trampoline()
{
    target_used = target ? target(target_seed)
                         : in_malloc_of(target_n, target_seed);
}

struct Program
{
    unsigned (*f)(std::uint64_t);
    std::size_t n;
    bool heap;
    const char* name;
};
template <std::size_t... N>
std::vector<Program> programs()
{
    std::vector<Program> p;
    (p.insert(p.end(),
              {{&on_stack<N, false>, N, false, "stack"},
               {&on_stack<N, true>, N, false, "stack, checked"},
               {&in_object<N>, N, false, "member of a local object"},
               {&in_malloc<N>, N, true, "malloc"},
               {&in_new<N>, N, true, "new"}}),
     ...);
    return p;
}

void run(vm::Rng& r, std::uint64_t)
{
    static const auto all =
        programs<1, 2, 3, 7, 8, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100,
                 127, 128, 200, 256, 500, 1024, 4096>();
    const std::size_t pick = r.below(all.size() + all.size() / 8);
    Program p{nullptr, 1 + r.any_width(12), true, "malloc, size at run time"};
    if (pick < all.size())
    {
        p = all[pick];
    }
    const std::uint64_t seed = r();
    std::vector<std::byte> secret(p.n);
    secret_make(secret.data(), p.n, seed);
    std::memset(stack_memory, 0xcc, kStack);
    secret_watch_begin(p.heap);
    target = p.f;
    target_n = p.n;
    target_seed = seed;
    getcontext(&there);
    there.uc_stack.ss_sp = stack_memory;
    there.uc_stack.ss_size = kStack;
    there.uc_link = &here;
    makecontext(&there, trampoline, 0);
    swapcontext(&here, &there);
    const SecretSeen seen = secret_watch_end();
    vm::op("%zu bytes in %s", p.n, p.name);
    vm::count(p.heap ? "secrets on the heap" : "secrets on the stack");
    VM_CHECK(seen.filled == p.n && seen.at, "rig", "secret was not filled in");
    const std::byte* left = nullptr;
    if (p.heap)
    {
        VM_CHECK(seen.released, "rig", "memory was not given back");
        left = seen.content;
    }
    else
    {
        VM_CHECK(seen.at >= stack_memory && seen.at < stack_memory + kStack,
                 "rig", "secret elsewhere");
        left = seen.at;
    }
    std::size_t survived = 0;
    for (std::size_t k = 0; k < p.n; ++k)
    {
        survived += left[k] == secret[k];
    }
    // A byte or two may be equal by chance on the stack, where leaving the
    // context pushes something.
    VM_CHECK(p.heap ? !survived : survived < 2 + p.n / 8, "secret-left",
             "%zu of %zu bytes of a secret in %s are still there after zeroing",
             survived, p.n, p.name);
    vm::state(vm::hash(p.name, strlen(p.name)) ^ p.n);
}
}  // namespace

int main(int argc, char** argv)
{
    stack_memory = static_cast<std::byte*>(
        mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    return vm::run_main(argc, argv, run);
}
