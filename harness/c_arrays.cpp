// C05: array builders and comparison.
#include "tracked.h"

#include <limits>
#include <tuple>
#ifdef CONSTANT_BRANCH
#define __builtin_is_constant_evaluated() true
#endif
#include <cmath>
#include <utils/common.h>

namespace
{
using rig::Ledger;
using rig::Tracked;
using namespace std::string_literals;

Ledger& led()
{
    return Ledger::get();
}

template <typename A>
void length(const char* what, std::size_t want)
{
    VM_CHECK(std::tuple_size_v<A> == want, "length", "%s: %zu elements, not %zu",
             what, std::tuple_size_v<A>, want);
}
template <typename T, std::size_t N, typename F>
void elements(const char* what, const std::array<T, N>& a, F&& want)
{
    for (std::size_t k = 0; k < N; ++k)
    {
        VM_CHECK(a[k] == want(k), "element", "%s: element %zu of %zu", what, k,
                 N);
    }
    vm::op("%s: %zu elements", what, N);
    vm::count("elements compared", N);
    vm::state(vm::hash(what, strlen(what)) ^ N * 31 ^ sizeof(T));
}

// ---- from values ------------------------------------------------------------
// which arguments are temporaries: bit k of Mask, constants: bit k + 8; the
// highest bit means a mixture
template <unsigned Mask, std::size_t K>
constexpr bool temporary()
{
    return Mask >> 31 ? (K * K + K / 3) % 3 == 1 : K < 8 && Mask >> K % 8 & 1;
}
template <unsigned Mask, std::size_t K>
constexpr bool constant()
{
    return Mask >> 31 ? (K * K + K / 3) % 3 == 2
                      : K < 8 && Mask >> (K % 8 + 8) & 1;
}
template <unsigned Mask, std::size_t K>
decltype(auto) pass(Tracked& t)
{
    if constexpr (temporary<Mask, K>())
    {
        return std::move(t);
    }
    else if constexpr (constant<Mask, K>())
    {
        return static_cast<const Tracked&>(t);
    }
    else
    {
        return (t);
    }
}
template <unsigned Mask, std::size_t... K>
void values(vm::Rng& r, std::index_sequence<K...>)
{
    constexpr std::size_t N = sizeof...(K);
    Tracked src[N] = {((void)K, Tracked(static_cast<int>(r.below(1000))))...};
    int was[N] = {src[K].value()...};
    constexpr bool is_temporary[] = {temporary<Mask, K>()...};
    led().reset_events();
    {
        auto a = utils::make_array(pass<Mask, K>(src[K])...);
        static_assert(
            std::is_same_v<decltype(a), std::array<Tracked, N>>);
        elements("make_array(values)", a,
                 [&](std::size_t k) { return Tracked(was[k]); });
        for (std::size_t k = 0; k < N; ++k)
        {
            const bool temp = is_temporary[k];
            VM_CHECK(src[k].has() == !temp, "source",
                     "make_array: %s argument %zu was %s",
                     temp ? "temporary" : "lvalue", k,
                     temp ? "not moved from" : "moved from");
            VM_CHECK(temp || src[k].value() == was[k], "source",
                     "make_array: lvalue argument %zu changed", k);
            VM_CHECK(led().moved_from[&src[k]] == temp, "source",
                     "make_array: argument %zu moved from %u times", k,
                     led().moved_from[&src[k]]);
        }
    }
    vm::state(vm::mix(Mask) ^ N);
}
// ---- concatenation ------------------------------------------------------------
template <std::size_t N>
std::array<Tracked, N> fill(vm::Rng& r, std::vector<int>& all)
{
    std::array<Tracked, N> a;
    for (auto& x: a)
    {
        all.push_back(static_cast<int>(r.below(10000)));
        x = Tracked(all.back());
    }
    return a;
}
template <int How, typename A>
decltype(auto) give(A& a)
{
    if constexpr (How == 0)
    {
        return (a);
    }
    else if constexpr (How == 1)
    {
        return static_cast<const A&>(a);
    }
    else
    {
        return std::move(a);
    }
}
template <int How, std::size_t N>
void after(const char* what, std::array<Tracked, N>& a, const int* was)
{
    for (std::size_t k = 0; k < N; ++k)
    {
        VM_CHECK(a[k].has() == (How != 2), "source",
                 "%s: element %zu of %s was %s", what, k,
                 How == 2 ? "a temporary" : "an lvalue",
                 How == 2 ? "not moved from" : "moved from");
        VM_CHECK(How == 2 || a[k].value() == was[k], "source",
                 "%s: element %zu of an lvalue changed", what, k);
        VM_CHECK(led().moved_from[&a[k]] == (How == 2), "source",
                 "%s: element %zu moved from %u times", what, k,
                 led().moved_from[&a[k]]);
    }
}
template <std::size_t N1, std::size_t N2, std::size_t N3, int H1, int H2,
          int H3>
void concat(vm::Rng& r)
{
    std::vector<int> want;
    auto a = fill<N1>(r, want);
    auto b = fill<N2>(r, want);
    auto c = fill<N3>(r, want);
    led().reset_events();
    {
        auto all = utils::concatenate_arrays(give<H1>(a), give<H2>(b),
                                             give<H3>(c));
        static_assert(std::is_same_v<decltype(all),
                                     std::array<Tracked, N1 + N2 + N3>>);
        elements("concatenate_arrays of three", all,
                 [&](std::size_t k) { return Tracked(want[k]); });
    }
    after<H1>("concatenate_arrays", a, want.data());
    after<H2>("concatenate_arrays", b, want.data() + N1);
    after<H3>("concatenate_arrays", c, want.data() + N1 + N2);
    vm::state(vm::mix(N1 * 10000 + N2 * 1000 + N3 * 100 + H1 * 9 + H2 * 3 + H3));
    // two and one
    std::vector<int> w2;
    auto d = fill<N1>(r, w2);
    auto e = fill<N3>(r, w2);
    led().reset_events();
    {
        auto two = utils::concatenate_arrays(give<H3>(d), give<H1>(e));
        elements("concatenate_arrays of two", two,
                 [&](std::size_t k) { return Tracked(w2[k]); });
    }
    after<H3>("concatenate_arrays", d, w2.data());
    after<H1>("concatenate_arrays", e, w2.data() + N1);
    std::vector<int> w1;
    auto f = fill<N2>(r, w1);
    led().reset_events();
    {
        auto one = utils::concatenate_arrays(give<H2>(f));
        elements("concatenate_arrays of one", one,
                 [&](std::size_t k) { return Tracked(w1[k]); });
    }
    after<H2>("concatenate_arrays", f, w1.data());
}
template <std::size_t... N>
void concat_many(vm::Rng& r)
{
    std::tuple<std::array<int, N>...> t;
    std::vector<int> want;
    std::apply(
        [&](auto&... a)
        {
            const auto put = [&](auto& x)
            {
                for (auto& v: x)
                {
                    v = static_cast<int>(r());
                    want.push_back(v);
                }
            };
            (put(a), ...);
            const auto all = utils::concatenate_arrays(a...);
            length<std::decay_t<decltype(all)>>("concatenate_arrays",
                                                (N + ...));
            elements("concatenate_arrays of many", all,
                     [&](std::size_t k) { return want[k]; });
        },
        t);
}

// ---- from a repeated value ---------------------------------------------------
template <std::size_t N>
void repeated(vm::Rng& r)
{
    const std::string s(20 + r.below(30), static_cast<char>('a' + r.below(26)));
    const auto a = utils::make_array<std::string, N>(s);
    length<std::decay_t<decltype(a)>>("make_array<string, N>(value)", N);
    elements("make_array<string, N>(value)", a, [&](std::size_t) { return s; });
    std::string t = s;
    const auto b = utils::make_array<std::string, N>(std::move(t));
    elements("make_array<string, N>(temporary)", b,
             [&](std::size_t) { return s; });
    const auto c = utils::make_array<std::string, N>();
    elements("make_array<string, N>()", c, [&](std::size_t) { return ""s; });
    const Tracked v(static_cast<int>(r.below(1000)));
    {
        const auto d = utils::make_array<Tracked, N>(v);
        elements("make_array<T, N>(value)", d, [&](std::size_t) -> const Tracked&
                 { return v; });
        VM_CHECK(v.has(), "source", "make_array<T, N>: lvalue moved from");
    }
    const int i = static_cast<int>(r());
    elements("make_array<int, N>(value)", utils::make_array<int, N>(i),
             [&](std::size_t) { return i; });
    elements("make_array<int, N>()", utils::make_array<int, N>(),
             [&](std::size_t) { return 0; });
    elements("make_zero_array<int, N>", utils::make_zero_array<int, N>(),
             [&](std::size_t) { return 0; });
    elements("make_zero_array<double, N>", utils::make_zero_array<double, N>(),
             [&](std::size_t) { return 0.0; });
    elements("make_zero_array<string, N>",
             utils::make_zero_array<std::string, N>(),
             [&](std::size_t) { return ""s; });
    elements("make_zero_array<ptr, N>", utils::make_zero_array<int*, N>(),
             [&](std::size_t) { return static_cast<int*>(nullptr); });
    length<decltype(utils::make_zero_array<int, N>())>("make_zero_array", N);
    {
        const auto z = utils::make_zero_array<Tracked, N>();
        elements("make_zero_array<T, N>", z,
                 [&](std::size_t) { return Tracked(); });
    }
}

// ---- from characters ------------------------------------------------------------
template <typename V, typename Char, std::size_t N>
void characters(vm::Rng& r)
{
    // exactly N characters, at the end of their storage
    std::unique_ptr<Char[]> s(new Char[N ? N : 1]);
    for (std::size_t k = 0; k < N; ++k)
    {
        s[k] = static_cast<Char>(r.any_width(8 * sizeof(Char)));
    }
    const std::basic_string_view<Char> sv(s.get(), N);
    const auto a = utils::make_array<N, V>(sv);
    static_assert(
        std::is_same_v<std::decay_t<decltype(a)>, std::array<V, N>>);
    elements("make_array<N, V>(view)", a,
             [&](std::size_t k) { return static_cast<V>(s[k]); });
    if constexpr (N > 1)
    {
        const auto b = utils::make_array<N - 1, V>(sv);
        elements("make_array<N - 1, V>(view)", b,
                 [&](std::size_t k) { return static_cast<V>(s[k]); });
    }
}
template <std::size_t... Len>
void picked(vm::Rng& r)
{
    constexpr std::size_t at[] = {Len..., 0};
    std::size_t size = 12;
    for (auto k: at)
    {
        size = std::max(size, k + 1);
    }
    std::unique_ptr<char[]> s(new char[size]);
    for (std::size_t k = 0; k < size; ++k)
    {
        s[k] = static_cast<char>(r());
    }
    const auto a = utils::sv_to_array<Len...>(std::string_view(s.get(), size));
    length<std::decay_t<decltype(a)>>("sv_to_array", sizeof...(Len));
    elements("sv_to_array", a, [&](std::size_t k) { return s[at[k]]; });
}

// ---- from a range ------------------------------------------------------------
template <auto B, auto E, auto S>
void range()
{
    const auto a = utils::make_array_from_range<B, E, S>();
    constexpr std::size_t n = static_cast<std::size_t>((E - B) / S) + 1;
    length<std::decay_t<decltype(a)>>("make_array_from_range", n);
    elements("make_array_from_range", a,
             [&](std::size_t k)
             { return static_cast<long long>(B) +
                      static_cast<long long>(k) * static_cast<long long>(S); });
    VM_CHECK((utils::is_valid_range_v<B, E, S> && utils::is_valid_range<B, E, S>::value),
             "valid-range", "a valid range is not recognized as such");
    VM_CHECK((utils::is_valid_range_v<B, B, S>), "valid-range", "a range of one value is not valid");
    VM_CHECK((!utils::is_valid_range<E, B, S>::value || B == E), "valid-range", "a range that ends before it begins is valid");
    constexpr auto c = utils::make_array_from_range<B, E, S>();
    elements("make_array_from_range in a constant expression", c,
             [&](std::size_t k)
             { return static_cast<long long>(B) +
                      static_cast<long long>(k) * static_cast<long long>(S); });
}
template <auto B, auto E>
void range1()
{
    VM_CHECK((utils::is_valid_range_v<B, E>), "valid-range", "a valid range is not recognized as such");
    VM_CHECK((!utils::is_valid_range_v<B, E, 0> || B == E), "valid-range", "a range of several values without steps is valid");
    const auto a = utils::make_array_from_range<B, E>();
    length<std::decay_t<decltype(a)>>("make_array_from_range",
                                      static_cast<std::size_t>(E - B) + 1);
    elements("make_array_from_range", a,
             [&](std::size_t k)
             { return static_cast<long long>(B) + static_cast<long long>(k); });
}

// ---- comparison ------------------------------------------------------------
// trivially copyable, with a notion of equality of its own
struct Modulo
{
    int n;
    friend bool operator==(Modulo a, Modulo b) { return a.n % 3 == b.n % 3; }
    friend bool operator!=(Modulo a, Modulo b) { return !(a == b); }
};
// with bytes that do not matter
struct Gappy
{
    char c;
    int n;
    friend bool operator==(const Gappy& a, const Gappy& b)
    {
        return a.c == b.c && a.n == b.n;
    }
    friend bool operator!=(const Gappy& a, const Gappy& b) { return !(a == b); }
};
template <typename T, std::size_t N, typename Make>
void compare(vm::Rng& r, Make&& make)
{
    std::array<T, N> a{}, b{};
    const bool anywhere = r.chance(1, 2);
    const std::size_t only = r.below(N + 1);
    for (std::size_t k = 0; k < N; ++k)
    {
        a[k] = make(r.below(3));
        b[k] = (anywhere ? r.chance(4, 5) : k != only) ? a[k] : make(r.below(3));
    }
    bool all = true, itself = true;
    for (std::size_t n = 0; n <= N; ++n)
    {
        if (n && a[n - 1] != b[n - 1])
        {
            all = false;
        }
        if (n && a[n - 1] != a[n - 1])
        {
            itself = false;
        }
        VM_CHECK(utils::is_equal(a, b, n) == all, "is-equal",
                 "is_equal over %zu of %zu elements is %d", n, N, !all);
        VM_CHECK(utils::is_equal(b, a, n) == all, "is-equal",
                 "is_equal over %zu of %zu elements is %d", n, N, !all);
    }
    VM_CHECK(utils::is_equal(a, b) == all, "is-equal", "is_equal of %zu", N);
    VM_CHECK(utils::is_equal(a, a) == itself, "is-equal",
             "an array compared with itself: %d", !itself);
    vm::op("is_equal of %zu elements", N);
}

// ---- elements of peculiar classes ------------------------------------------
// can be copied, but not assigned
struct Fixed
{
    const int n;
    friend bool operator==(const Fixed& a, const Fixed& b)
    {
        return a.n == b.n;
    }
};
// assignment is something else than construction
struct Skewed
{
    int n = 3;
    Skewed() = default;
    Skewed(int v) : n(v) {}
    Skewed(const Skewed&) = default;
    Skewed& operator=(const Skewed& o)
    {
        n = o.n + 1000;
        return *this;
    }
    friend bool operator==(const Skewed& a, const Skewed& b)
    {
        return a.n == b.n;
    }
};
// cannot be copied
struct Unique
{
    std::unique_ptr<int> p;
    Unique() = default;
    explicit Unique(int v) : p(new int(v)) {}
    friend bool operator==(const Unique& a, const Unique& b)
    {
        return a.p && b.p ? *a.p == *b.p : !a.p && !b.p;
    }
};
// operators that mean something else, and an alignment of its own
struct alignas(64) Odd
{
    int n = 5;
    Odd* operator&() const { return nullptr; }
    template <typename T>
    friend T operator,(Odd&, T&&) = delete;
    template <typename T>
    friend void operator,(const Odd&, T&&) = delete;
    template <typename T>
    friend void operator,(T&&, const Odd&) = delete;
    friend bool operator==(const Odd& a, const Odd& b) { return a.n == b.n; }
};
// says whether two differ with a type of its own
struct Verdict
{
    bool v;
    operator bool() const { return v; }
};
struct Differs
{
    int n;
    friend Verdict operator!=(const Differs& a, const Differs& b)
    {
        return {a.n != b.n};
    }
    friend Verdict operator==(const Differs& a, const Differs& b)
    {
        return {a.n == b.n};
    }
};

template <typename T, typename Make>
void copyable(vm::Rng& r, const char* what, Make&& make)
{
    const int v[] = {static_cast<int>(r.below(1000)),
                     static_cast<int>(r.below(1000)),
                     static_cast<int>(r.below(1000))};
    T x = make(v[0]);
    const T y = make(v[1]);
    const auto values = utils::make_array(x, y, make(v[2]), x);
    const int at[] = {0, 1, 2, 0, 1, 1, 1, 1, 1, 0, 1, 2, 0};
    static_assert(
        std::is_same_v<decltype(values), const std::array<T, 4>>);
    elements(what, values, [&](std::size_t k) { return make(v[at[k]]); });
    auto same = utils::make_array<T, 5>(y);
    static_assert(std::is_same_v<decltype(same), std::array<T, 5>>);
    elements(what, same, [&](std::size_t) { return make(v[1]); });
    const auto all =
        utils::concatenate_arrays(values, std::move(same), std::move(values));
    static_assert(std::is_same_v<decltype(all), const std::array<T, 13>>);
    elements(what, all, [&](std::size_t k) { return make(v[at[k]]); });
    elements(what, values, [&](std::size_t k) { return make(v[at[k]]); });
}
template <typename T, std::size_t N>
void zeros(const char* what, const T& zero)
{
    auto a = utils::make_zero_array<T, N>();
    static_assert(std::is_same_v<decltype(a), std::array<T, N>>);
    elements(what, a, [&](std::size_t) -> const T& { return zero; });
}
template <typename T>
void zeros(const char* what, const T& zero)
{
    zeros<T, 1>(what, zero);
    zeros<T, 3>(what, zero);
    zeros<T, 20>(what, zero);
}

void peculiar(vm::Rng& r)
{
    copyable<Fixed>(r, "not assignable", [](int n) { return Fixed{n}; });
    copyable<Skewed>(r, "assignment changes", [](int n) { return Skewed(n); });
    copyable<Odd>(r, "other operators",
                  [](int n)
                  {
                      Odd o;
                      o.n = n;
                      return o;
                  });
    copyable<std::vector<int>>(
        r, "vectors", [](int n)
        { return std::vector<int>(static_cast<std::size_t>(n % 7), n); });
    copyable<std::function<int()>*>(r, "pointers", [](int n)
                                    { static std::function<int()> f[1000];
                                      return &f[n]; });
    copyable<std::tuple<char, double>>(
        r, "tuples", [](int n) { return std::tuple<char, double>('x', n); });
    copyable<std::array<short, 3>>(
        r, "arrays", [](int n)
        { return std::array<short, 3>{1, static_cast<short>(n), 2}; });
    {
        auto a = utils::make_array(Unique(1), Unique(2), Unique(3));
        elements("move only", a, [](std::size_t k)
                 { return Unique(static_cast<int>(k) + 1); });
        auto b = utils::make_array(Unique(4));
        const auto c = utils::concatenate_arrays(
            std::move(a), std::move(b), utils::make_zero_array<Unique, 2>());
        elements("move only", c,
                 [](std::size_t k)
                 {
                     return k < 4 ? Unique(static_cast<int>(k) + 1) : Unique();
                 });
    }
    zeros<Skewed>("zeros, assignment changes", Skewed());
    zeros<Fixed>("zeros, not assignable", Fixed{0});
    zeros<Unique>("zeros, move only", Unique());
    zeros<Odd>("zeros, other operators", Odd());
    zeros<int Skewed::*>("zeros, members", nullptr);
    zeros<void (Skewed::*)()>("zeros, member functions", nullptr);
    zeros<void (*)()>("zeros, functions", nullptr);
    zeros<long double>("zeros, long double", 0);
    zeros<std::array<int, 3>>("zeros, arrays", {});
    zeros<std::pair<int, void*>>("zeros, pairs", {});
    zeros<unsigned char, 1000>("zeros, many", 0);
    {
        const unsigned char c = static_cast<unsigned char>(r());
        const auto many = utils::make_array<unsigned char, 1000>(c);
        elements("many", many, [&](std::size_t) { return c; });
    }
    {
        std::array<Differs, 4> a{}, b{};
        for (std::size_t k = 0; k < 4; ++k)
        {
            a[k].n = b[k].n = static_cast<int>(r.below(5));
        }
        const std::size_t k = r.below(4);
        b[k].n += 7;
        VM_CHECK(!utils::is_equal(a, b) && utils::is_equal(a, b, k) &&
                     !utils::is_equal(a, b, k + 1) && utils::is_equal(b, b),
                 "is-equal", "elements that compare to a type of their own");
    }
    vm::count("peculiar elements");
}

// ---- in constant expressions ----------------------------------------------
constexpr auto kValues = utils::make_array(3, 1, 4, 1, 5);
constexpr auto kMixed = utils::make_array(short{1}, 2, short{3});
constexpr auto kEmpty = utils::make_array<int>();
constexpr auto kSeven = utils::make_array<int, 4>(7);
constexpr auto kNone = utils::make_array<int, 0>(7);
constexpr auto kZero = utils::make_zero_array<long, 5>();
constexpr auto kView = utils::make_array<3, int>(std::string_view("xyz!"));
constexpr auto kPick = utils::sv_to_array<2, 0, 1, 2>(std::string_view("abc"));
constexpr auto kCat = utils::concatenate_arrays(kValues, kSeven, kNone, kMixed);
constexpr bool kSame[] = {utils::is_equal(kSeven, utils::make_array(7, 7, 7, 7)),
                          utils::is_equal(kSeven, utils::make_array(7, 7, 7, 8)),
                          utils::is_equal(kSeven, utils::make_array(7, 7, 7, 8), 3),
                          utils::is_equal(kSeven, utils::make_array(0, 7, 7, 7), 0)};

void constant()
{
    const int v[] = {3, 1, 4, 1, 5, 7, 7, 7, 7, 1, 2, 3};
    length<std::decay_t<decltype(kCat)>>("constant concatenation", 12);
    elements("constant concatenation", kCat, [&](std::size_t k) { return v[k]; });
    elements("constant values", kValues, [&](std::size_t k) { return v[k]; });
    elements("constant common type", kMixed,
             [&](std::size_t k) { return v[k + 9]; });
    static_assert(std::is_same_v<decltype(kMixed), const std::array<int, 3>>);
    length<std::decay_t<decltype(kEmpty)>>("make_array<int>()", 0);
    length<std::decay_t<decltype(kNone)>>("make_array<int, 0>(7)", 0);
    elements("constant repeated", kSeven, [&](std::size_t) { return 7; });
    elements("constant zero", kZero, [&](std::size_t) { return 0; });
    elements("constant view", kView,
             [&](std::size_t k) { return static_cast<int>("xyz"[k]); });
    elements("constant pick", kPick, [&](std::size_t k) { return "cabc"[k]; });
    VM_CHECK(kSame[0] && !kSame[1] && kSame[2] && kSame[3], "is-equal",
             "in constant expressions");
    range<0, 10, 1>();
    range<0, 10, 3>();
    range<0, 9, 3>();
    range<-5, 5, 2>();
    range<-7, -7, 1>();
    range<5u, 100u, 7u>();
    range<std::uint8_t{3}, std::uint8_t{200}, std::uint8_t{5}>();
    range<std::int8_t{-100}, std::int8_t{100}, std::int8_t{20}>();
    range<1ll, 1000ll, 333ll>();
    range<(1ull << 40), (1ull << 40) + 5, 1>();
    range1<0, 0>();
    range1<1, 2>();
    range1<-3, 60>();
    range1<-3, 600>();
    range1<'a', 'z'>();
    range1<std::uint16_t{65000}, std::uint16_t{65300}>();
    range1<std::size_t{7}, std::size_t{9}>();
    // up to the limits of the type
    range1<std::uint8_t{0}, std::uint8_t{255}>();
    range1<std::int8_t{-128}, std::int8_t{127}>();
    range1<(char)100, (char)127>();
    range1<std::uint16_t{65500}, std::uint16_t{65535}>();
    range1<std::numeric_limits<int>::max() - 5, std::numeric_limits<int>::max()>();
    range1<~0u - 5, ~0u>();
    range1<std::numeric_limits<long long>::max() - 2, std::numeric_limits<long long>::max()>();
    range1<~0ull - 3, ~0ull>();
    range1<std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + 4>();
    range<std::uint8_t{1}, std::uint8_t{255}, 3>();
    range<std::uint8_t{200}, std::uint8_t{250}, 100>();
    range<std::int8_t{-100}, std::int8_t{120}, std::int8_t{127}>();
    range<std::numeric_limits<int>::max() - 1000, std::numeric_limits<int>::max(), 999>();
    range<~0ull - 10, ~0ull - 1, 3>();
}

void run(vm::Rng& r, std::uint64_t i)
{
    if (i == 0)
    {
        constant();
    }
    if (i % 16 == 0)
    {
        peculiar(r);
    }
    using I = std::make_index_sequence<1>;
    switch (r.below(15))
    {
        case 0: values<0b0>(r, I{}); break;
        case 1: values<0b1>(r, I{}); break;
        case 2: values<0x100>(r, I{}); break;
        case 3: values<0b01>(r, std::make_index_sequence<2>{}); break;
        case 4: values<0b10>(r, std::make_index_sequence<2>{}); break;
        case 5: values<0b11>(r, std::make_index_sequence<2>{}); break;
        case 6: values<0x100>(r, std::make_index_sequence<3>{}); break;
        case 7: values<0b101>(r, std::make_index_sequence<3>{}); break;
        case 8: values<0x0205>(r, std::make_index_sequence<4>{}); break;
        case 9: values<0b11111>(r, std::make_index_sequence<5>{}); break;
        case 10: values<0b0110110>(r, std::make_index_sequence<7>{}); break;
        case 11: values<0xAA55>(r, std::make_index_sequence<8>{}); break;
        case 12: values<1u << 31>(r, std::make_index_sequence<17>{}); break;
        case 13: values<1u << 31>(r, std::make_index_sequence<64>{}); break;
        default: values<1u << 31>(r, std::make_index_sequence<131>{}); break;
    }
    switch (r.below(14))
    {
        case 0: concat<0, 0, 0, 0, 1, 2>(r); break;
        case 1: concat<1, 0, 2, 2, 2, 2>(r); break;
        case 2: concat<2, 3, 1, 0, 0, 0>(r); break;
        case 3: concat<3, 1, 2, 2, 0, 1>(r); break;
        case 4: concat<1, 1, 1, 0, 2, 0>(r); break;
        case 5: concat<4, 2, 3, 1, 2, 2>(r); break;
        case 6: concat<2, 5, 0, 2, 1, 0>(r); break;
        case 7: concat<0, 3, 3, 2, 2, 0>(r); break;
        case 8: concat_many<1, 2, 3, 4>(r); break;
        case 9: concat_many<5, 0, 1, 0, 7, 2>(r); break;
        case 10: concat_many<1, 1, 1, 1, 1, 1, 1, 1, 1>(r); break;
        case 11: concat_many<30, 40>(r); break;
        case 12: concat_many<100, 300, 0, 1, 17>(r); break;
        default: concat<70, 33, 140, 1, 2, 0>(r); break;
    }
    switch (r.below(9))
    {
        case 7: repeated<70>(r); break;
        case 8: repeated<300>(r); break;
        case 0: repeated<0>(r); break;
        case 1: repeated<1>(r); break;
        case 2: repeated<2>(r); break;
        case 3: repeated<3>(r); break;
        case 4: repeated<8>(r); break;
        case 5: repeated<17>(r); break;
        default: repeated<40>(r); break;
    }
    switch (r.below(9))
    {
        case 7: characters<std::uint8_t, char, 150>(r); break;
        case 8: characters<char, wchar_t, 301>(r); break;
        case 0: characters<char, char, 0>(r); break;
        case 1: characters<std::uint8_t, char, 9>(r); break;
        case 2: characters<int, char, 5>(r); break;
        case 3: characters<char32_t, char16_t, 6>(r); break;
        case 4: characters<char, char, 33>(r); break;
        case 5: characters<long, wchar_t, 2>(r); break;
        default: characters<std::byte, char, 16>(r); break;
    }
    switch (r.below(6))
    {
        case 0: picked<>(r); break;
        case 1: picked<11>(r); break;
        case 2: picked<0, 1, 2, 3>(r); break;
        case 3: picked<5, 5, 0, 11, 5>(r); break;
        case 4: picked<300, 44, 600, 256, 65536, 0>(r); break;
        default: picked<11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>(r); break;
    }
    switch (r.below(11))
    {
        case 9: compare<std::uint8_t, 259>(r, [](auto v) { return static_cast<std::uint8_t>(v); });
            break;
        case 10: compare<long, 90>(r, [](auto v) { return static_cast<long>(v) << 40; });
            break;
        case 0: compare<int, 6>(r, [](auto v) { return static_cast<int>(v); });
            break;
        case 1: compare<std::string, 5>(r, [](auto v)
                                        { return std::string(20 + v, 'x'); });
            break;
        case 2: compare<double, 1>(r, [](auto v) { return v ? 1.5 : -0.0; });
            break;
        case 3:
            // equal with different bytes, and the same bytes but not equal
            compare<double, 5>(r, [&r](auto v)
                               { return v == 2 && r.chance(1, 3) ? NAN
                                        : r.chance(1, 2)         ? 0.0
                                                                 : -0.0; });
            break;
        case 4:
            compare<float, 3>(r, [&r](auto v)
                              { return v == 2 ? NAN : r.chance(1, 2) ? 0.0f : -0.0f; });
            break;
        case 5:
            compare<Modulo, 6>(r, [&r](auto v)
                               { return Modulo{static_cast<int>(
                                     v / 2 + 3 * r.below(5))}; });
            break;
        case 6:
            compare<Gappy, 4>(r, [&r](auto v)
                              {
                                  Gappy g;
                                  std::memset(&g, static_cast<int>(r.below(256)),
                                              sizeof g);
                                  g.c = 'c';
                                  g.n = static_cast<int>(v / 2);
                                  return g;
                              });
            break;
        case 7:
            compare<std::string_view, 3>(r, [&r](auto v)
                                         {
                                             static const std::string pool[] = {
                                                 "aaaa", "aaaa", "aaab", "aaab"};
                                             return std::string_view(
                                                 pool[2 * (v / 2) + r.below(2)]);
                                         });
            break;
        default: compare<Tracked, 4>(
            r, [](auto v) { return Tracked(static_cast<int>(v)); });
            break;
    }
    {
        // several element types that own something
        std::string s1(40, 'p'), s2(41, 'q');
        auto a = utils::make_array(s1, std::move(s2), std::string(42, 'r'));
        VM_CHECK(a[0] == std::string(40, 'p') && a[1] == std::string(41, 'q') &&
                     a[2] == std::string(42, 'r') &&
                     s1 == std::string(40, 'p') && s2.empty(),
                 "element", "strings");
        auto u = utils::make_array(std::make_unique<int>(1),
                                   std::make_unique<int>(2));
        VM_CHECK(*u[0] == 1 && *u[1] == 2, "element", "unique pointers");
        auto v = utils::concatenate_arrays(std::move(u),
                                           utils::make_array(std::make_unique<int>(3)));
        VM_CHECK(v.size() == 3 && *v[0] == 1 && *v[1] == 2 && *v[2] == 3 &&
                     !u[0] && !u[1],
                 "element", "concatenated unique pointers");
    }
    VM_CHECK(led().live.empty(), "leak", "%zu elements still live",
             led().live.size());
}
}  // namespace

int main(int argc, char** argv) { return vm::run_main(argc, argv, run); }
