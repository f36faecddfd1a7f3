// U01: what a translation unit says about the headers it includes.  Included
// after them, so that it cannot help them.
#pragma once
#include <type_traits>
#include <vector>

namespace rig
{
struct Said
{
    const char* what;
    long long got;
    long long want;
};
struct Entity
{
    const char* what;
    const void* where;
    unsigned long size;
};
struct Unit
{
    const char* label;
    std::vector<Said> said, said_before_main;
    std::vector<Entity> entities;
};
template <typename A, typename B>
constexpr long long is()
{
    return std::is_same_v<A, B>;
}
// the units of the program, in order of their first words
inline std::vector<Unit>& units()
{
    static std::vector<Unit> all;
    return all;
}
using Speak = void (*)(std::vector<Said>&, std::vector<Entity>&);
struct Join
{
    Join(const char* label, Speak speak, bool early)
    {
        Unit u{label, {}, {}, {}};
        if (early)
        {
            std::vector<Entity> ignored;
            speak(u.said_before_main, ignored);
        }
        units().push_back(u);
        speakers().push_back(speak);
    }
    static std::vector<Speak>& speakers()
    {
        static std::vector<Speak> all;
        return all;
    }
};
}  // namespace rig
