// C09: iteration over arguments and tuples.
#include "tracked.h"

#include <tuple>
#include <utils/common.h>

namespace
{
using rig::Ledger;
using rig::Tracked;

enum Cat
{
    lvalue,
    const_lvalue,
    rvalue,
    const_rvalue
};
const char* const kCat[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};
template <typename A>
constexpr Cat cat()
{
    constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
    return std::is_lvalue_reference_v<A> ? (c ? const_lvalue : lvalue)
                                         : (c ? const_rvalue : rvalue);
}
struct Call
{
    Cat cat;
    const void* at;
    std::size_t size;
};
struct Stop
{
    std::size_t at;
};

// The function given: records its calls, and whether it was itself copied.
struct Visitor
{
    std::vector<Call>* calls;
    std::size_t stop_at = SIZE_MAX;
    int copies = 0;
    std::size_t seen = 0;
    explicit Visitor(std::vector<Call>& c) : calls(&c) {}
    Visitor(const Visitor& o)
        : calls(o.calls), stop_at(o.stop_at), copies(o.copies + 1), seen(o.seen)
    {
    }
    template <typename A>
    void operator()(A&& a)
    {
        calls->push_back({cat<A&&>(), &a, sizeof a});
        if (seen++ == stop_at)
        {
            throw Stop{seen - 1};
        }
    }
    template <typename A>
    void operator()(A&& a) const
    {
        calls->push_back({cat<A&&>(), &a, sizeof a});
        if (calls->size() - 1 == stop_at)
        {
            throw Stop{stop_at};
        }
    }
};

struct Want
{
    Cat cat;
    const void* at;
};
Ledger& led()
{
    return Ledger::get();
}
void judge(const char* what, const std::vector<Call>& calls,
           const std::vector<Want>& want, std::size_t stop, bool threw)
{
    const std::size_t n = std::min(want.size(), stop == SIZE_MAX ? stop : stop + 1);
    VM_CHECK(calls.size() == n, "calls", "%s: %zu calls for %zu elements%s",
             what, calls.size(), want.size(),
             stop < want.size() ? " (stopped by an exception)" : "");
    for (std::size_t k = 0; k < n; ++k)
    {
        VM_CHECK(calls[k].at == want[k].at, "order",
                 "%s: call %zu was given another object", what, k);
        VM_CHECK(calls[k].cat == want[k].cat, "category",
                 "%s: element %zu passed as %s, not as %s", what, k,
                 kCat[calls[k].cat], kCat[want[k].cat]);
    }
    VM_CHECK(threw == (stop < want.size()), "exception",
             "%s: the exception did %spropagate", what, threw ? "" : "not ");
    VM_CHECK(!led().copies && !led().moves && !led().copy_assigns &&
                 !led().move_assigns && !led().made,
             "copied", "%s: %" PRIu64 " copies and %" PRIu64 " moves", what,
             led().copies, led().moves);
    vm::op("%s: %zu calls", what, n);
    vm::count("calls observed", n);
    std::uint64_t h = n;
    for (auto& c: calls)
    {
        h = vm::mix(h * 5 + c.cat);
    }
    vm::state(h ^ vm::hash(what, strlen(what)) ^ (threw ? 77 : 0));
}
template <typename F>
bool throws(F&& f, std::size_t stop)
{
    try
    {
        f();
    }
    catch (const Stop& s)
    {
        VM_CHECK(s.at == stop, "exception", "another exception");
        return true;
    }
    return false;
}

template <unsigned How, typename T>
decltype(auto) give(T& t)
{
    if constexpr (How == 0)
    {
        return (t);
    }
    else if constexpr (How == 1)
    {
        return static_cast<const T&>(t);
    }
    else if constexpr (How == 2)
    {
        return static_cast<T&&>(t);
    }
    else
    {
        return static_cast<const T&&>(t);
    }
}

template <typename Go>
void with_visitors(const char* what, vm::Rng& r, const std::vector<Want>& want,
                   Go&& go)
{
    std::vector<Call> calls;
    Visitor v(calls);
    if (r.chance(1, 3))
    {
        v.stop_at = r.below(want.size() + 1);
    }
    const std::size_t stop = v.stop_at;
    led().reset_events();
    bool threw = false;
    switch (r.below(3))
    {
        case 0:
            threw = throws([&] { go(v); }, stop);
            VM_CHECK(v.seen == calls.size() && !v.copies, "function",
                     "%s: the function called is not the one given", what);
            break;
        case 1:
            threw = throws([&] { go(static_cast<const Visitor&>(v)); }, stop);
            break;
        default:
            threw = throws([&] { go(std::move(v)); }, stop);
            break;
    }
    judge(what, calls, want, stop, threw);
}

template <unsigned... How, std::size_t... K>
void arguments(vm::Rng& r, std::index_sequence<K...>)
{
    Tracked x[sizeof...(K) + 1];
    const std::vector<Want> want{Want{static_cast<Cat>(How), &x[K]}...};
    with_visitors("for_each_arg", r, want,
                  [&](auto&& f) {
                      utils::for_each_arg(std::forward<decltype(f)>(f),
                                          give<How>(x[K])...);
                  });
}
template <unsigned... How>
void args(vm::Rng& r)
{
    arguments<How...>(r, std::make_index_sequence<sizeof...(How)>{});
}

template <std::size_t, std::size_t... K>
void many(vm::Rng& r, std::index_sequence<K...>)
{
    args<(K * K + K / 5) % 4 ...>(r);
}

// a tuple of values given as How: every element takes that category
template <unsigned How, std::size_t... K>
void tuple_of_values(vm::Rng& r, std::index_sequence<K...>)
{
    std::tuple<std::conditional_t<K != SIZE_MAX, Tracked, int>...> t;
    const std::vector<Want> want{Want{static_cast<Cat>(How), &std::get<K>(t)}...};
    with_visitors("for_each_in_tuple of values", r, want,
                  [&](auto&& f) {
                      utils::for_each_in_tuple(std::forward<decltype(f)>(f),
                                               give<How>(t));
                  });
}
// a tuple with value, lvalue reference, const reference and rvalue reference
template <unsigned How>
void tuple_of_references(vm::Rng& r)
{
    Tracked a, b, c;
    std::tuple<Tracked, Tracked&, const Tracked&, Tracked&&, const int> t(
        Tracked(1), a, b, std::move(c), 5);
    const bool r_ = How == 2 || How == 3;
    const std::vector<Want> want{
        {static_cast<Cat>(How), &std::get<0>(t)},
        {lvalue, &a},
        {const_lvalue, &b},
        {r_ ? rvalue : lvalue, &c},
        {r_ ? const_rvalue : const_lvalue, &std::get<4>(t)}};
    with_visitors("for_each_in_tuple of references", r, want,
                  [&](auto&& f) {
                      utils::for_each_in_tuple(std::forward<decltype(f)>(f),
                                               give<How>(t));
                  });
}
template <unsigned How>
void pair_and_array(vm::Rng& r)
{
    std::pair<Tracked, int> p;
    with_visitors("for_each_in_tuple of a pair", r,
                  {{static_cast<Cat>(How), &p.first},
                   {static_cast<Cat>(How), &p.second}},
                  [&](auto&& f) {
                      utils::for_each_in_tuple(std::forward<decltype(f)>(f),
                                               give<How>(p));
                  });
    std::array<Tracked, 4> a;
    with_visitors("for_each_in_tuple of an array", r,
                  {{static_cast<Cat>(How), &a[0]},
                   {static_cast<Cat>(How), &a[1]},
                   {static_cast<Cat>(How), &a[2]},
                   {static_cast<Cat>(How), &a[3]}},
                  [&](auto&& f) {
                      utils::for_each_in_tuple(std::forward<decltype(f)>(f),
                                               give<How>(a));
                  });
}

int commas;
struct Comma
{
    template <typename T>
    friend int operator,(const Comma&, T&&)
    {
        return ++commas;
    }
    template <typename T>
    friend int operator,(T&&, const Comma&)
    {
        return ++commas;
    }
};
struct NoComma
{
    template <typename T>
    friend void operator,(const NoComma&, T&&) = delete;
};
struct Stuck
{
    Stuck() = default;
    Stuck(const Stuck&) = delete;
};

void run(vm::Rng& r, std::uint64_t)
{
    switch (r.below(16))
    {
        case 0: args<>(r); break;
        case 1: args<0>(r); break;
        case 2: args<1>(r); break;
        case 3: args<2>(r); break;
        case 4: args<3>(r); break;
        case 5: args<0, 2>(r); break;
        case 6: args<2, 1, 0>(r); break;
        case 7: args<0, 1, 2, 3>(r); break;
        case 8: args<3, 2, 1, 0, 0>(r); break;
        case 9: args<2, 2, 2, 2, 2, 2, 2>(r); break;
        case 10: args<0, 1, 0, 2, 0, 3, 1, 2, 1, 3>(r); break;
        case 11: args<1, 1, 1, 1, 2, 0, 0, 3, 1, 2, 1, 3, 0, 0, 2, 1>(r); break;
        case 12: args<0, 0, 0>(r); break;
        case 13: many<40>(r, std::make_index_sequence<40>{}); break;
        case 14: many<129>(r, std::make_index_sequence<129>{}); break;
        default: args<2, 0>(r); break;
    }
    switch (r.below(12))
    {
        case 0: tuple_of_values<0>(r, std::make_index_sequence<3>{}); break;
        case 1: tuple_of_values<1>(r, std::make_index_sequence<3>{}); break;
        case 2: tuple_of_values<2>(r, std::make_index_sequence<3>{}); break;
        case 3: tuple_of_values<3>(r, std::make_index_sequence<2>{}); break;
        case 4: tuple_of_values<0>(r, std::make_index_sequence<0>{}); break;
        case 5: tuple_of_values<2>(r, std::make_index_sequence<0>{}); break;
        case 6: tuple_of_values<0>(r, std::make_index_sequence<1>{}); break;
        case 7: tuple_of_values<2>(r, std::make_index_sequence<9>{}); break;
        case 8: tuple_of_values<1>(r, std::make_index_sequence<12>{}); break;
        case 9: tuple_of_values<2>(r, std::make_index_sequence<35>{}); break;
        case 10: tuple_of_values<1>(r, std::make_index_sequence<70>{}); break;
        default: tuple_of_values<0>(r, std::make_index_sequence<7>{}); break;
    }
    switch (r.below(4))
    {
        case 0: tuple_of_references<0>(r); pair_and_array<0>(r); break;
        case 1: tuple_of_references<1>(r); pair_and_array<1>(r); break;
        case 2: tuple_of_references<2>(r); pair_and_array<2>(r); break;
        default: tuple_of_references<3>(r); pair_and_array<3>(r); break;
    }
    // results of the function are ignored, whatever they are
    std::vector<int> order;
    utils::for_each_arg(
        [&](int v)
        {
            order.push_back(v);
            return std::string("ignored");
        },
        3, 1, 2);
    utils::for_each_in_tuple([&](auto v) { order.push_back(static_cast<int>(v)); },
                             std::make_tuple(4.0, 'a', 5l));
    VM_CHECK((order == std::vector<int>{3, 1, 2, 4, 'a', 5}), "order",
             "values arrive in another order");
    // ... even if they take the comma for something else
    order.clear();
    commas = 0;
    utils::for_each_arg([&](int v) { order.push_back(v); return Comma{}; }, 3, 1, 2);
    utils::for_each_in_tuple([&](int v) { order.push_back(v); return Comma{}; },
                             std::array<int, 3>{4, 6, 5});
    utils::for_each_arg(
        [&](int v)
        {
            order.push_back(v);
            return NoComma{};
        },
        9, 8);
    VM_CHECK((order == std::vector<int>{3, 1, 2, 4, 6, 5, 9, 8}), "order",
             "values arrive in another order");
    VM_CHECK(!commas, "result", "%d of the function's results were used", commas);
    // results that can be neither copied nor moved, and references
    int sum = 0;
    utils::for_each_arg(
        [&](int v)
        {
            sum += v;
            return Stuck{};
        },
        1, 20, 300);
    utils::for_each_arg([&](int v) -> int& { return sum += v; }, 4000);
    VM_CHECK(sum == 4321, "calls", "the sum is %d", sum);
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
