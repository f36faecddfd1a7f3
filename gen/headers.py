"""U01: programs of several translation units that include the headers in any order."""
import random
from .program import quote

# header -> what it says: (question, expression, answer), and entities
U64 = (1 << 64) - 1


def common(r):
    v, b, m = r.getrandbits(r.randrange(1, 65)) | 1, r.randrange(256), 1 << r.randrange(12)
    n, d = r.randrange(1 << 31), r.randrange(1, 1 << 15)
    w = r.randrange(1 << 40)
    return [("bits_count", "utils::bits_count(%duLL)" % v, v.bit_length()),
            ("nbits_occupied", "utils::nbits_occupied(%duLL)" % v, v.bit_length()),
            ("kNumBitsTable", "utils::kNumBitsTable[%d]" % b, bin(b).count("1")),
            ("is_power_of_2", "utils::is_power_of_2(%dul)" % v, bin(v).count("1") == 1),
            ("next_multiple_of", "utils::next_multiple_of(%dul, %dul)" % (m, w), (w + m - 1) // m * m),
            ("next_multiple_of<>", "utils::next_multiple_of<%d>(%dul)" % (m, w), (w + m - 1) // m * m),
            ("greatest_divisor_that_is_power_of_2", "utils::greatest_divisor_that_is_power_of_2(%dul)" % (w | 8), (w | 8) & -(w | 8)),
            ("max_alignment_inside_block", "utils::max_alignment_inside_block(%d, 1000)" % m, 1 << ((m + 999).bit_length() - 1)),
            ("div", "utils::div(%d, %d).quot" % (n, d), n // d), ("div_as", "utils::div_as<long>(%d, %d).rem" % (n, d), n % d),
            ("make_array", "utils::make_array(%d, %d, 7)[1]" % (n, d), d),
            ("make_array<T, N>", "(utils::make_array<long, 4>(%d))[3]" % n, n),
            ("make_zero_array", "(utils::make_zero_array<int, 4>())[2]", 0),
            ("make_array_from_range", "(utils::make_array_from_range<1, 9, 2>())[4]", 9),
            ("sv_to_array", "(utils::sv_to_array<2, 0>(\"xyz\"))[0]", ord("z")),
            ("concatenate_arrays", "utils::concatenate_arrays(utils::make_array(1, 2), utils::make_array(%d))[2]" % n, n),
            ("is_equal", "utils::is_equal(utils::make_array(1, 2), utils::make_array(1, 3), 1)", 1),
            ("memvcmp", "utils::memvcmp(\"aaaa\", 'a', 4)", 1), ("bit_cast", "utils::bit_cast<int>(%du)" % n, n),
            ("skip_to_align", "utils::skip_to_align(reinterpret_cast<void*>(%dul), %d)" % (w, m), -w % m),
            ("is_aligned", "utils::is_aligned(reinterpret_cast<void*>(%dul), %d)" % (w, m), w % m == 0),
            ("sum_size", "utils::sum_size<int, bool, bool>()", 5),
            ("uint_from_nbits_t", "sizeof(utils::uint_from_nbits_t<%d>)" % b if 0 < b <= 64 else "sizeof(utils::uint_from_nbits_t<9>)",
             (1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8) if 0 < b <= 64 else 2),
            ("fast_uint_from_nbits_t", "sizeof(utils::fast_uint_from_nbits_t<8>)", 1),
            ("values_in_range_t", "utils::values_in_range_t<3, 11>::size", 9),
            ("shifted_sequence_t", "rig::is<utils::shifted_sequence_t<std::integer_sequence<int, 1, 2>, 3>, std::integer_sequence<int, 4, 5>>()", 1),
            ("shift_left", "utils::shift_left(%du, 3)" % d, d << 3), ("shift_right", "utils::shift_right(%du, 3)" % n, n >> 3),
            ("is_uint_v", "utils::is_uint_v<unsigned>", 1), ("is_tuple_v", "utils::is_tuple_v<std::tuple<int>>", 1),
            ("abort_if", "(utils::abort_if(false, \"%s\", \"never\"), 1)", 1),
            ("UTILS_ABORT_IF", "[] { UTILS_ABORT_IF(false, \"never %d\", 1); return 1; }()", 1),
            ("for_each_arg", "[] { int s = 0; utils::for_each_arg([&](int x) { s += x; }, 1, 2, 3); return s; }()", 6),
            ("for_each_in_tuple", "[] { int s = 0; utils::for_each_in_tuple([&](int x) { s += x; }, std::make_tuple(4, 5)); return s; }()", 9)], \
        []


def clz(r):
    v, s = r.getrandbits(r.randrange(1, 65)) | 1, r.randrange(1, 1 << 16)
    return [("clz", "utils::clz(%duLL)" % v, 64 - v.bit_length()), ("clz", "utils::clz(static_cast<unsigned short>(%d))" % s, 16 - s.bit_length())], []


def ctz(r):
    v = 1 << r.randrange(64) | 1 << r.randrange(64)
    return [("ctz", "utils::ctz(%duLL)" % v, (v & -v).bit_length() - 1)], []


def detector(r):
    return [("is_detected_v", "utils::is_detected_v<rig_size_t, rig_with>", 1), ("is_detected_v", "utils::is_detected_v<rig_size_t, int>", 0),
            ("detected_or_t", "rig::is<utils::detected_or_t<char, rig_size_t, int>, char>()", 1),
            ("is_detected_exact_v", "utils::is_detected_exact_v<short, rig_size_t, rig_with>", 1),
            ("is_detected_convertible_v", "utils::is_detected_convertible_v<int, rig_size_t, rig_with>", 1)], []


def fast_pimpl(r):
    n = r.randrange(1 << 31)
    return [("fast_pimpl", "[] { utils::fast_pimpl<int, 4, 4> p(%d); auto q = p; p.get() = 1; return q.get(); }()" % n, n),
            ("sizeof fast_pimpl", "sizeof(utils::fast_pimpl<long, 8, 8>)", 8)], []


def function_traits(r):
    return [("has_data", "has_data_rig_data_v<rig_with>", 1), ("has_static_data", "has_static_data_rig_data_v<rig_with>", 0),
            ("has_type", "has_type_rig_type_v<rig_with>", 1), ("has_convertible_type", "has_convertible_type_rig_type_v<rig_with, long>", 1),
            ("has_invocable", "has_invocable_rig_size_v<const rig_with, char>", 1), ("has_invocable", "has_invocable_rig_size_v<rig_with>", 0),
            ("has_invocable_r", "has_invocable_r_rig_size_const_v<short, rig_with, int>", 1),
            ("has_static_invocable", "has_static_invocable_rig_static_v<rig_with, int>", 1),
            ("is_invocable", "is_rig_function_invocable_v<int>", 1),
            ("return_type", "rig::is<utils::function_traits::return_type_t<short(int) const>, short>()", 1),
            ("params_list", "utils::function_traits::params_list_t<short(int, long) const>::size", 2),
            ("signature", "utils::function_traits::params_list_t<utils::function_traits::signature_t<rig_functor>>::count_of<char>", 1),
            ("params_list", "rig::is<utils::function_traits::params_list_t<short(int, long)>, utils::type_list<int, long>>()", 1)], []


def padding_checker(r):
    return [("has_padding_v", "utils::has_padding_v<rig_gap>", 1), ("has_padding_v", "utils::has_padding_v<rig_tight>", 0)], []


def timer(r):
    return [("timer", "[] { static int calls; calls = 0; { utils::timer t([](const auto&) { ++calls; }); utils::timer u(std::move(t)); } return calls; }()", 1),
            ("leaked", "[] { utils::timer t([](const auto&) noexcept {}); return t.leaked().count() >= 0 && t.leaked_sec().count() >= 0; }()", 1)], \
        []


def type_list(r):
    ts = [r.choice(["int", "char", "long", "short"]) for _ in range(5)]
    text = "utils::type_list<%s>" % ", ".join(ts)
    return [("size", text + "::size", 5), ("at", "rig::is<%s::at<3>, %s>()" % (text, ts[3]), 1),
            ("count_of", text + "::count_of<int>", ts.count("int")), ("contains_v", text + "::contains_v<char>", "char" in ts),
            ("exclude_at_t", "rig::is<utils::exclude_at_t<%s, 0>, utils::type_list<%s>>()" % (text, ", ".join(ts[1:])), 1),
            ("sublist_t", "rig::is<utils::sublist_t<%s, 1, 2>, utils::type_list<%s>>()" % (text, ", ".join(ts[1:3])), 1),
            ("max_sizeof_index_v", "utils::max_sizeof_index_v<utils::type_list<char, long, int>>", 1),
            ("concatenate_t", "utils::concatenate_t<%s, utils::type_list<int>>::size" % text, 6)], []


def value_list(r):
    vs = [r.randrange(-50, 50) for _ in range(6)]
    text = "utils::value_list<%s>" % ", ".join(map(str, vs))
    return [("size", text + "::size", 6), ("at", text + "::at<4>", vs[4]), ("min", text + "::min<int>", min(vs)),
            ("max", text + "::max<int>", max(vs)), ("index_of", text + "::index_of<%d>" % vs[5], vs.index(vs[5])),
            ("contains_copies", text + "::contains_copies", len(set(vs)) < 6)], []


def cartesian_product(r):
    return [("concatenate_t", "rig::is<utils::concatenate_t<utils::type_list<int>, utils::type_list<char, long>>, utils::type_list<int, char, long>>()", 1),
            ("cartesian_product_t", "rig::is<utils::cartesian_product_t<utils::value_list<1, 2>, utils::value_list<3>>, "
             "utils::type_list<utils::value_list<1, 3>, utils::value_list<2, 3>>>()", 1)], []


def memory(r):
    n = r.randrange(1, 5000)
    return [("system_memory_resource", "[] { auto* s = utils::memory::system_memory_resource(); void* p = s->allocate(%d, 64); "
             "const bool ok = p && reinterpret_cast<unsigned long>(p) %% 64 == 0; s->deallocate(p); return ok; }()" % n, 1),
            ("null_memory_resource", "utils::memory::null_memory_resource()->allocate(%d, 8) == nullptr" % n, 1),
            ("get_default_resource", "utils::memory::get_default_resource() == utils::memory::system_memory_resource()", 1),
            ("memmove", "[] { std::byte a[3]{}, b[3]{std::byte{5}, std::byte{6}, std::byte{7}}; utils::memory::memmove(a, b, 3); "
             "return static_cast<int>(a[2]); }()", 7),
            ("secure_zero_memory", "[] { std::byte b[2]{std::byte{5}, std::byte{6}}; utils::memory::secure_zero_memory(b, 1); "
             "return static_cast<int>(b[0]) * 10 + static_cast<int>(b[1]); }()", 6),
            ("get_alignment", "utils::memory::get_alignment(reinterpret_cast<void*>(48))", 16)], \
        [("system resource", "utils::memory::system_memory_resource()", "sizeof *utils::memory::system_memory_resource()"),
         ("null resource", "utils::memory::null_memory_resource()", "1"), ("default resource", "utils::memory::get_default_resource()", "1")]


def allocator(r):
    return [("allocator", "[] { utils::memory::allocator<int> a; int* p = a.allocate(%d); p[0] = 3; const int v = p[0]; a.deallocate(p); "
             "return v; }()" % r.randrange(1, 50), 3),
            ("new_object", "[] { utils::memory::allocator<int> a; int* p = a.new_object<int>(8); const int v = *p; a.delete_object(p); "
             "return v; }()", 8)], []


def simple_resource(r):
    k = r.randrange(1, 20)
    return [("simple_resource", "[] { alignas(64) static std::byte b[64 * 20]; utils::memory::simple_resource<20, 64> s(b, nullptr); "
             "void* p = s.allocate(64 * %d); const bool ok = p && s.busy_count() == 1 && s.block_size(0) == %d; s.deallocate(p); return ok; }()" % (k, k), 1)], []


def monotonic(r):
    return [("monotonic_buffer_resource", "[] { alignas(16) static std::byte b[64]; utils::memory::monotonic_buffer_resource m(b, nullptr); "
             "void* p = m.allocate(16, 16); void* q = m.allocate(48, 16); return p == b && q && !m.allocate(1, 1); }()", 1)], []


HEADERS = {"common.h": common, "clz.h": clz, "ctz.h": ctz, "detector.h": detector, "fast_pimpl.h": fast_pimpl,
           "function_traits.h": function_traits, "padding_checker.h": padding_checker, "timer.h": timer, "type_list.h": type_list,
           "value_list.h": value_list, "cartesian_product.h": cartesian_product, "memory/memory.h": memory,
           "memory/allocator.h": allocator, "memory/simple_resource.h": simple_resource,
           "memory/monotonic_buffer_resource.h": monotonic}
# for use in the questions; declared after the headers
HELP = """
namespace {
struct rig_with { using rig_type = int; int rig_data; short rig_size(int) const { return 0; } static void rig_static(long); };
[[maybe_unused]] int rig_function(int) { return 0; }
template <typename T> using rig_size_t = decltype(std::declval<T>().rig_size(0));
struct rig_gap { char c; int n; };
struct rig_functor { void operator()(int, char) const; };
struct rig_tight { int c; int n; };
}
"""
CREATE = """
CREATE_MEMBER_TYPE_CHECKERS(rig_type)
CREATE_MEMBER_DATA_CHECKERS(rig_data)
CREATE_STATIC_MEMBER_DATA_CHECKERS(rig_data)
CREATE_METHOD_CHECKERS(rig_size)
CREATE_R_METHOD_CHECKERS(rig_size)
CREATE_STATIC_METHOD_CHECKERS(rig_static)
"""


def unit(r, name, headers, asked, early):
    out = ["#include <utils/%s>" % h for h in headers]
    out.append("#include <headers_rig.h>")
    label = "%s: %s" % (name, " ".join(headers))
    out += [HELP, "namespace {"]
    if "function_traits.h" in asked:
        out += [CREATE, "CREATE_FREE_FUNCTION_CHECKERS(rig_function)"]
    out.append("void speak(std::vector<rig::Said>& said, std::vector<rig::Entity>& entities)\n{")
    for h in asked:
        said, entities = HEADERS[h](r)
        for what, got, want in said:
            out.append("    said.push_back({%s, static_cast<long long>(%s), static_cast<long long>(%dULL)});" % (
                quote("%s %s" % (h, what)), got, int(want) & U64))
        for what, where, size in entities:
            out.append("    entities.push_back({%s, %s, %s});" % (quote("%s %s" % (h, what)), where, size))
    out += ["    (void)said; (void)entities;\n}", "const rig::Join join(%s, speak, %s);" % (quote(label), "true" if early else "false"), "}"]
    return "\n".join(out) + "\n"


def program(r, k, units):
    sources = []
    for i, headers in enumerate(units):
        name = "u01_%d_%d.cpp" % (k, i)
        asked = []
        for h in headers:
            if h not in asked:
                asked.append(h)
        if "utils.h" in asked:
            asked = sorted(HEADERS)
        sources.append((name, unit(r, "unit %d" % i, headers, asked, r.random() < 0.4)))
    return sources[0] + (sources[1:],)


def u01(seed, tier):
    r = random.Random("U01-%d" % seed)
    names = sorted(HEADERS) + ["utils.h"]
    k = 0
    # each alone, first and twice, in two units of one program
    for h in names:
        yield program(r, k, [[h], [h, h]])
        k += 1
    # any together
    for _ in range(16 if tier == "quick" else 400):
        units = []
        for _ in range(r.choice([1, 2, 2, 3])):
            hs = r.sample(names, r.choice([2, 2, 3, 5, len(names)]))
            if r.random() < 0.3:
                hs.append(r.choice(hs))
            units.append(hs)
        yield program(r, k, units)
        k += 1
