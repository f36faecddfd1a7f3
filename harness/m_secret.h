#pragma once
#include <cstddef>
#include <cstdint>
struct SecretSeen
{
    const std::byte* at;       // where the secret was
    std::size_t filled;
    bool released;             // its memory was freed
    const std::byte* content;  // what was in it at that moment
};
void secret_make(std::byte* p, std::size_t n, std::uint64_t seed);
void secret_fill(std::byte* p, std::size_t n, std::uint64_t seed);
unsigned secret_use(const std::byte* p, std::size_t n);
void secret_watch_begin(bool heap);
SecretSeen secret_watch_end();
