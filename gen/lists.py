"""T01 type lists, T02 value lists, T03 products: random lists against Python lists."""
import random
from .program import Program

# name, size (None: has no size)
SIZED = ([("char", 1), ("signed char", 1), ("unsigned char", 1), ("bool", 1), ("short", 2), ("unsigned short", 2),
          ("int", 4), ("unsigned", 4), ("long", 8), ("unsigned long", 8), ("long long", 8), ("float", 4),
          ("double", 8), ("const int", 4), ("volatile int", 4), ("int*", 8), ("const int*", 8), ("int* const", 8),
          ("void*", 8), ("E1", 1), ("E8", 8), ("char16_t", 2), ("wchar_t", 4), ("Empty", 1), ("std::tuple<int>", 4),
          ("char[7]", 7), ("int[3]", 12), ("void(*)(int)", 8), ("Empty<int>*", 8)] +
         [("B<%d, %d>" % (n, k), n) for n in (1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33) for k in (0, 1)])
SIZED += [("B<255, 0>", 255), ("B<257, 0>", 257), ("char[65537]", 65537), ("B<70000, 1>", 70000),
          ("char[2147483653]", 2147483653), ("long[1073741825]", 8589934600)]
SIZED = [(n.replace("Empty<int>*", "B<9, 9>*"), s) for n, s in SIZED]
UNSIZED = ["void", "const void", "int&", "int&&", "const int&", "Incomplete", "int()", "int() noexcept", "int(int) const",
           "void(int, ...)", "int[]", "Incomplete&", "B<3, 0>&", "int Empty::*", "void (Empty::*)() const"]
DECLS = """
struct Empty {};
struct Incomplete;
enum class E1 : unsigned char {};
enum class E8 : long {};
template <int N, int K> struct B { char c[N]; };
"""


def listof(types):
    return "utils::type_list<%s>" % ", ".join(types)


def t01(seed, tier):
    rng = random.Random("T01-%d" % seed)
    programs, lists = (6, 22) if tier == "quick" else (60, 30)
    for p in range(programs):
        prog = Program("t01_%d.cpp" % p, "utils/type_list.h")
        prog.declare(DECLS)
        names = [n for n, _ in SIZED] + UNSIZED
        size_of = dict(SIZED)
        preds, rels = [], []
        for k in range(4):
            members = set(rng.sample(names, rng.choice([0, 3, len(names) // 2, len(names) - 2])))
            prog.declare("template <typename> struct P%d : std::false_type {};" % k)
            for m in sorted(members):
                prog.declare("template <> struct P%d<%s> : std::true_type {};" % (k, m))
            preds.append(("P%d" % k, members))
        prog.declare("template <typename, typename> struct R0 : std::false_type {};")
        pairs = set()
        for _ in range(60):
            pairs.add((rng.choice(names), rng.choice(names)))
        for a, b in sorted(pairs):
            prog.declare("template <> struct R0<%s, %s> : std::true_type {};" % (a, b))
        for i in range(lists):
            kind = rng.randrange(8)
            n = [0, 1, 2, 3][kind] if kind < 4 and i < 8 else rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 17])
            if i == lists - 1:
                n = rng.choice([40, 64, 90])
            pool = rng.sample(names, min(len(names), rng.choice([1, 2, 4, 10, len(names)])))
            sized = rng.random() < 0.5
            if sized:
                pool = [x for x in pool if x in size_of] or ["int", "char"]
            ts = [rng.choice(pool) for _ in range(n)]
            if rng.random() < 0.15:
                ts = ts[:1] * n
            elif rng.random() < 0.15:
                ts = list(dict.fromkeys(ts))
            n = len(ts)
            g = prog.group(listof(ts), "using L = %s;" % listof(ts))
            g.value("size", "L::size", n)
            g.value("is_same", "L::is_same", len(set(ts)) <= 1)
            g.value("contains_copies", "L::contains_copies", len(set(ts)) != n)
            for k in (range(n) if n < 20 else sorted({0, n - 1} | set(rng.sample(range(n), 8)))):
                g.type("at<%d>" % k, "L::at<%d>" % k, ts[k])
            asked = list(dict.fromkeys(ts))[:12] + rng.sample(names, 6)
            for t in asked:
                where = ts.index(t) if t in ts else n
                g.value("first_index_of_type<%s>" % t, "L::first_index_of_type<%s>" % t, where)
                g.value("index_of<is_same, %s>" % t, "L::index_of<std::is_same, %s>" % t, where)
                g.value("count_of<%s>" % t, "L::count_of<%s>" % t, ts.count(t))
                g.value("contains<%s>" % t, "L::contains<%s>::value" % t, t in ts)
                g.value("contains_v<%s>" % t, "L::contains_v<%s>" % t, t in ts)
                rest = [x for x in ts if (x, t) in pairs]
                g.type("list_of_predicate_compliant<R0, %s>" % t, "L::list_of_predicate_compliant_t<R0, %s>" % t,
                       listof(rest))
                g.value("index_of<R0, %s>" % t, "L::index_of<R0, %s>" % t,
                        next((k for k, x in enumerate(ts) if (x, t) in pairs), n))
            for _ in range(6):
                sub = [rng.choice(ts if ts and rng.random() < 0.8 else names) for _ in range(rng.randrange(5))]
                g.value("contains<%s>" % listof(sub), "L::contains_v<%s>" % listof(sub), all(x in ts for x in sub))
            for name, members in preds:
                ok = [x for x in ts if x in members]
                g.value("count_of_predicate_compliant<%s>" % name, "L::count_of_predicate_compliant<%s>" % name, len(ok))
                g.value("contains_predicate_compliant<%s>" % name, "L::contains_predicate_compliant<%s>" % name, bool(ok))
                g.type("list_of_predicate_compliant<%s>" % name, "L::list_of_predicate_compliant_t<%s>" % name, listof(ok))
                g.type("list_of_predicate_compliant<%s>::type" % name, "L::list_of_predicate_compliant<%s>::type" % name,
                       listof(ok))
                g.value("index_of<%s>" % name, "L::index_of<%s>" % name,
                        next((k for k, x in enumerate(ts) if x in members), n))
                for k in sorted(set(rng.sample(range(len(ok)), min(len(ok), 4)) + ([len(ok) - 1, 0] if ok else []))):
                    g.type("at<%d, %s>" % (k, name), "L::at<%d, %s>" % (k, name), ok[k])
            for _ in range(8 if n else 1):
                if n:
                    first = rng.randrange(n)
                    count = rng.randrange(n - first + 1)
                    if rng.random() < 0.3:
                        count = n - first
                else:
                    first = count = 0
                g.type("sublist<%d, %d>" % (first, count), "utils::sublist_t<L, %d, %d>" % (first, count),
                       listof(ts[first:first + count]))
            for k in (range(n) if n < 10 else sorted({0, 1, n - 2, n - 1} | set(rng.sample(range(n), 3)))):
                g.type("exclude_at<%d>" % k, "utils::exclude_at_t<L, %d>" % k, listof(ts[:k] + ts[k + 1:]))
            if all(x in size_of for x in ts) and n < 30:
                if n:
                    sizes = [size_of[x] for x in ts]
                    g.value("min_sizeof_index", "utils::min_sizeof_index_v<L>", sizes.index(min(sizes)))
                    g.value("max_sizeof_index", "utils::max_sizeof_index_v<L>", sizes.index(max(sizes)))
                g.type("sort_sizeof_ascending", "utils::sort_sizeof_ascending_t<L>",
                       listof(sorted(ts, key=lambda x: size_of[x])))
                g.type("sort_sizeof_descending", "utils::sort_sizeof_descending_t<L>",
                       listof(sorted(ts, key=lambda x: -size_of[x])))
        yield prog.source()
    yield long_types(rng)


def long_types(rng):
    """Lists with more elements than fit a byte."""
    prog = Program("t01_long.cpp", "utils/type_list.h")
    prog.declare(DECLS)
    prog.declare("template <typename> struct Even : std::false_type {};\n"
                 "template <int N, int K> struct Even<B<N, K>> : std::bool_constant<N % 2 == 0> {};")
    # exactly 256 copies, exactly 256 that comply
    for same in (0, 256, 257 + rng.randrange(3)):
        n = 257 + rng.randrange(6)
        ts = ["B<%d, 5>" % (k + 1) for k in range(n)]
        if same:
            ts = ["B<2, 6>"] * same + (ts[:1] + ts[2:3] if same == 256 else ts[:4])
            n = len(ts)
        g = prog.group("%d types" % n, "using L = %s;" % listof(ts))
        g.value("size", "L::size", n)
        g.value("is_same", "L::is_same", 0)
        for k in [254, 255, n - 1]:
            g.value("first_index_of_type<%s>" % ts[k], "L::first_index_of_type<%s>" % ts[k], ts.index(ts[k]))
            g.value("count_of<%s>" % ts[k], "L::count_of<%s>" % ts[k], ts.count(ts[k]))
            g.value("contains<%s>" % ts[k], "L::contains_v<%s>" % ts[k], 1)
        g.value("index_of<is_same>", "L::index_of<std::is_same, %s>" % ts[-1], ts.index(ts[-1]))
        g.value("first_index_of_type<int>", "L::first_index_of_type<int>", n)
        g.value("contains<int>", "L::contains_v<int>", 0)
        even = [t for t in ts if int(t[2:].split(",")[0]) % 2 == 0]
        g.value("count_of_predicate_compliant", "L::count_of_predicate_compliant<Even>", len(even))
        g.value("contains_predicate_compliant", "L::contains_predicate_compliant<Even>", 1)
        g.type("list_of_predicate_compliant", "L::list_of_predicate_compliant_t<Even>", listof(even))
        sizes = [int(t[2:].split(",")[0]) for t in ts]
        g.value("min_sizeof_index", "utils::min_sizeof_index_v<L>", sizes.index(min(sizes)))
        g.value("max_sizeof_index", "utils::max_sizeof_index_v<L>", sizes.index(max(sizes)))
    return prog.source()


# ------------------------------------------------------------------ T02 ----
INTS = [("char", -128, 127), ("signed char", -128, 127), ("unsigned char", 0, 255), ("short", -2**15, 2**15 - 1),
        ("unsigned short", 0, 2**16 - 1), ("int", -2**31, 2**31 - 1), ("unsigned", 0, 2**32 - 1),
        ("long", -2**63, 2**63 - 1), ("unsigned long", 0, 2**64 - 1), ("long long", -2**63, 2**63 - 1),
        ("unsigned long long", 0, 2**64 - 1), ("bool", 0, 1), ("char16_t", 0, 2**16 - 1), ("char32_t", 0, 2**32 - 1),
        ("wchar_t", -2**31, 2**31 - 1), ("E", -2**31, 2**31 - 1), ("Es", -128, 127), ("Eu", 0, 255), ("Old", 0, 7)]
LIMITS = {n: (lo, hi) for n, lo, hi in INTS}
VALUE_DECLS = """
enum class E : int {};
enum class Es : signed char {};
enum Eu : unsigned char {};
enum Old { zero, one, two, three, seven = 7 };
int ga, gb;
const int gc = 0;
struct S { int m, n; void f() {} void g() {} };
void fa() {} void fb() {} void fc() noexcept {}
"""
POINTERS = [("int*", "&ga"), ("int*", "&gb"), ("const int*", "&gc"), ("int S::*", "&S::m"), ("int S::*", "&S::n"),
            ("void (S::*)()", "&S::f"), ("void (S::*)()", "&S::g"), ("void (*)()", "&fa"), ("void (*)()", "&fb"),
            ("void (*)() noexcept", "&fc"), ("std::nullptr_t", "nullptr"),
            ("int*", "static_cast<int*>(nullptr)")]


def lit(t, v):
    if t == "bool":
        return "true" if v else "false"
    if v == -2**63:
        e = "(-0x7fffffffffffffffLL - 1)"
    elif v > 2**63 - 1:
        e = "0x%xULL" % v
    else:
        e = "%dLL" % v
    if t == "int" and -2**31 < v < 2**31:
        return "%d" % v
    return "static_cast<%s>(%s)" % (t, e)


def draw(rng, t):
    lo, hi = LIMITS[t]
    c = rng.randrange(6)
    if c == 0:
        v = lo + rng.randrange(2)
    elif c == 1:
        v = hi - rng.randrange(2)
    elif c < 5:
        v = rng.randrange(-3, 6)
    else:
        v = rng.randrange(lo, hi + 1)
    return (t, max(lo, min(hi, v)))


def vl(values):
    return "utils::value_list<%s>" % ", ".join(x[2] for x in values)


def t02(seed, tier):
    rng = random.Random("T02-%d" % seed)
    programs, lists = (8, 30) if tier == "quick" else (60, 40)

    def value(types):
        if rng.random() < 0.12:
            t, e = rng.choice(POINTERS)
            return (t, e, e)
        t, v = draw(rng, rng.choice(types))
        return (t, v, lit(t, v))
    for p in range(programs):
        prog = Program("t02_%d.cpp" % p, "utils/value_list.h", "utils/common.h")
        prog.declare(VALUE_DECLS)
        for i in range(lists):
            n = i if i < 4 else rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 20])
            if i == lists - 1:
                n = 70
            types = rng.sample([x[0] for x in INTS], rng.choice([1, 2, 3, 19]))
            pool = [value(types) for _ in range(rng.choice([1, 2, 3, 6, 12, 40]))]
            vs = [rng.choice(pool) for _ in range(n)]
            if rng.random() < 0.15:
                vs = list({x[:2]: x for x in vs}.values())
            n = len(vs)
            keys = [x[:2] for x in vs]
            g = prog.group(vl(vs), "using L = %s;" % vl(vs))
            g.value("size", "L::size", n)
            g.value("is_same", "L::is_same::value", len(set(keys)) <= 1)
            g.value("is_same_v", "L::is_same_v", len(set(keys)) <= 1)
            g.value("contains_copies", "L::contains_copies", len(set(keys)) != n)
            for k in (range(n) if n < 25 else sorted(rng.sample(range(n), 12))):
                t, v, e = vs[k]
                g.type("at_t<%d>" % k, "L::at_t<%d>" % k, t)
                g.value("at<%d> == %s" % (k, e), "L::at<%d> == %s" % (k, e), 1)
                g.type("type of at<%d>" % k, "decltype(L::at<%d>)" % k,
                       t + " const" if not t.startswith(("void (", "int S")) else "std::add_const_t<%s>" % t)
            asked = {x[:2]: x for x in vs[:10] + [value([x[0] for x in INTS]) for _ in range(4)]}
            # the same number in other types
            for x in list(asked.values()):
                if not isinstance(x[1], int):
                    continue
                for t in rng.sample([y[0] for y in INTS], 2):
                    if LIMITS[t][0] <= x[1] <= LIMITS[t][1]:
                        asked[(t, x[1])] = (t, x[1], lit(t, x[1]))
            for key, (t, v, e) in asked.items():
                g.value("index_of<%s>" % e, "L::index_of<%s>" % e, keys.index(key) if key in keys else n)
                g.value("count_of<%s>" % e, "L::count_of<%s>" % e, keys.count(key))
                g.value("contains<%s>" % e, "L::contains<%s>::value" % e, key in keys)
                g.value("contains_v<%s>" % e, "L::contains_v<%s>" % e, key in keys)
            for t in sorted({x[0] for x in vs} | {"int", rng.choice(INTS)[0]}):
                of = [x for x in vs if x[0] == t]
                g.value("contains_type<%s>" % t, "L::contains_type<%s>" % t, bool(of))
                g.type("list_all_of<%s>" % t, "L::list_all_of_t<%s>" % t, vl(of))
                g.type("list_all_of<%s>::type" % t, "L::list_all_of<%s>::type" % t, vl(of))
                if of and t in LIMITS:
                    least, most = min(x[1] for x in of), max(x[1] for x in of)
                    g.value("min<%s>" % t, "L::min<%s> == %s" % (t, lit(t, least)), 1)
                    g.value("max<%s>" % t, "L::max<%s> == %s" % (t, lit(t, most)), 1)
                    g.type("type of min<%s>" % t, "decltype(L::min<%s>)" % t, "const " + t)
                    g.type("type of max<%s>" % t, "decltype(L::max<%s>)" % t, "const " + t)
            g.value("is_value_list", "utils::is_value_list_v<L>", 1)
        for _ in range(14):
            t = rng.choice([x[0] for x in INTS if x[0] not in ("E", "Es", "Eu", "Old")])
            lo, hi = LIMITS[t]
            n = rng.choice([1, 2, 3, 7, 16, 60, 256])
            n = min(n, hi - lo + 1)
            first = rng.choice([lo, hi - n + 1, max(lo, min(hi - n + 1, -rng.randrange(n + 1))),
                                rng.randrange(lo, hi - n + 2)])
            last = first + n - 1
            vs = [(t, v, lit(t, v)) for v in range(first, last + 1)]
            g = prog.group("values_in_range<%s, %s>" % (lit(t, first), lit(t, last)))
            a = "%s, %s" % (lit(t, first), lit(t, last))
            g.type("values_in_range_t", "utils::values_in_range_t<%s>" % a, vl(vs))
            g.type("values_in_range", "utils::values_in_range<%s>::type" % a, vl(vs))
        # ends of two types: the values are of their common type
        for _ in range(10):
            a, b = rng.sample([x[0] for x in INTS if x[0] not in ("E", "Es", "Eu", "Old")], 2)
            signed = LIMITS[a][0] < 0 and LIMITS[b][0] < 0
            lo = max(LIMITS[a][0], LIMITS[b][0]) if signed else 0
            hi = min(LIMITS[a][1], LIMITS[b][1])
            n = min(rng.choice([1, 2, 5, 40]), hi - lo + 1)
            first = rng.choice([lo, hi - n + 1, rng.randrange(lo, hi - n + 2)])
            common = "std::common_type_t<%s, %s>" % (a, b)
            vs = [(None, v, "static_cast<%s>(%s)" % (common, lit(a, v)))
                  for v in range(first, first + n)]
            ends = "%s, %s" % (lit(a, first), lit(b, first + n - 1))
            g = prog.group("values_in_range<%s>" % ends)
            g.type("values_in_range_t", "utils::values_in_range_t<%s>" % ends, vl(vs))
            g.type("values_in_range", "utils::values_in_range<%s>::type" % ends, vl(vs))
        # sequences of integers, all shifted by the same amount
        for _ in range(12):
            t = rng.choice(["int", "short", "unsigned", "long long", "unsigned long", "unsigned char", "signed char"])
            lo, hi = LIMITS[t]
            by = rng.choice([t, "int"])
            n = rng.choice([0, 1, 2, 5, 40])
            if rng.random() < .5:
                amount = rng.choice([0, 1, 3, 100])
            else:
                amount = -rng.choice([1, 2, 7, 50]) if by == "int" or lo < 0 else rng.choice([5, 99])
            left, right = max(lo, lo - amount), min(hi, hi - amount)
            at = rng.choice([left, right - 60, rng.randrange(max(left, -500), min(right, 500))])
            values = [min(right, max(left, at + rng.randrange(60))) for _ in range(n)]
            if rng.random() < .4:
                values = [max(left, at) + i for i in range(n) if max(left, at) + i <= right]
            sequence = lambda v: "std::integer_sequence<%s>" % ", ".join([t] + [lit(t, x) for x in v])
            a = "%s, %s" % (sequence(values), lit(by, amount))
            g = prog.group("shifted_sequence<%s>" % a)
            g.type("shifted_sequence_t", "utils::shifted_sequence_t<%s>" % a, sequence([x + amount for x in values]))
            g.type("shifted_sequence", "utils::shifted_sequence<%s>::type" % a, sequence([x + amount for x in values]))
        yield prog.source()
    prog = Program("t02_long.cpp", "utils/value_list.h", "utils/common.h")
    prog.declare(VALUE_DECLS)
    for n in (258 + rng.randrange(5), 257, 0):
        copies = n != 0
        n = n or 257 + rng.randrange(6)
        t = rng.choice(["int", "short", "unsigned", "long long"])
        if copies:
            vs = [(t, 7, lit(t, 7))] * (n - 1) + [(t, 8, lit(t, 8))]
        else:
            vs = [(t, v + 300, lit(t, v + 300)) for v in range(n)]
            a = "%s, %s" % (vs[0][2], vs[-1][2])
            g = prog.group("values_in_range<%s>" % a)
            g.type("values_in_range_t", "utils::values_in_range_t<%s>" % a, vl(vs))
        g = prog.group("%d values of %s" % (n, t), "using L = %s;" % vl(vs))
        keys = [x[:2] for x in vs]
        g.value("size", "L::size", n)
        g.value("is_same_v", "L::is_same_v", 0)
        g.value("index_of", "L::index_of<%s>" % vs[-1][2], n - 1)
        for k in [0, n - 1]:
            g.value("count_of<%s>" % vs[k][2], "L::count_of<%s>" % vs[k][2], keys.count(keys[k]))
            g.value("contains_v<%s>" % vs[k][2], "L::contains_v<%s>" % vs[k][2], 1)
        g.type("list_all_of", "L::list_all_of_t<%s>" % t, vl(vs))
    yield prog.source()


# ------------------------------------------------------------------ T03 ----
def product(lists):
    out = [[]]
    for l in lists:
        out = [a + [b] for a in out for b in l]
    return out


def t03(seed, tier):
    rng = random.Random("T03-%d" % seed)
    programs, groups = (6, 40) if tier == "quick" else (50, 60)
    all_types = [n for n, _ in SIZED] + UNSIZED + ["utils::type_list<>", "utils::type_list<int>",
                                                   "utils::value_list<1>", "utils::type_list<int, char>"]
    for p in range(programs):
        prog = Program("t03_%d.cpp" % p, "utils/value_list.h", "utils/cartesian_product.h")
        prog.declare(DECLS)
        prog.declare(VALUE_DECLS)
        for i in range(groups):
            kind = rng.randrange(4)
            values = kind % 2 == 1

            def make(n):
                if not values:
                    return [rng.choice(all_types) for _ in range(n)]
                out = []
                for _ in range(n):
                    if rng.random() < 0.1:
                        out.append(rng.choice(POINTERS)[1])
                    else:
                        t, v = draw(rng, rng.choice(INTS)[0])
                        out.append(lit(t, v))
                return out
            name = "utils::value_list<%s>" if values else "utils::type_list<%s>"
            show = lambda l: name % ", ".join(l)
            if kind < 2:
                ls = [make(rng.choice([0, 1, 2, 3, 5, 9])) for _ in range(rng.choice([1, 1, 2, 3, 4, 7, 15]))]
                if i == 0:
                    ls = [make(1) for _ in range(60)]
                args = ", ".join(show(l) for l in ls)
                g = prog.group("concatenate<%s>" % args)
                want = show([x for l in ls for x in l])
                g.type("concatenate_t", "utils::concatenate_t<%s>" % args, want)
                g.type("concatenate", "utils::concatenate<%s>::type" % args, want)
            else:
                k = rng.choice([2, 2, 2, 3, 3, 4, 5, 6])
                ls, total = [], 1
                for _ in range(k):
                    n = rng.choice([0, 1, 2, 3, 4, 6, 8]) if rng.random() < 0.5 else rng.choice([1, 2, 3])
                    while total * max(n, 1) > 130:
                        n -= 1
                    total *= max(n, 1)
                    ls.append(make(n))
                if i % 5 == 0:
                    ls[rng.randrange(k)] = []
                if rng.random() < 0.2:
                    ls[-1] = list(ls[0])
                    while len(product(ls)) > 200:
                        ls[-1] = ls[-1][:-1]
                args = ", ".join(show(l) for l in ls)
                want = "utils::type_list<%s>" % ", ".join(show(c) for c in product(ls))
                g = prog.group("cartesian_product<%s>" % args)
                g.type("cartesian_product_t", "utils::cartesian_product_t<%s>" % args, want)
                g.type("cartesian_product", "utils::cartesian_product<%s>::type" % args, want)
                g.value("number of combinations", "utils::cartesian_product_t<%s>::size" % args, len(product(ls)))
        if p == 0:
            # more elements than fit a byte
            for shape in ((300,), (129, 130), (1, 270), (17, 16), (5, 9, 7)):
                ls = [["B<%d, %d>" % (k + 1, j) for k in range(n)] for j, n in enumerate(shape)]
                args = ", ".join(listof(l) for l in ls)
                g = prog.group("lists of %s" % (shape,))
                if len(shape) < 3 and max(shape) > 100:
                    g.type("concatenate", "utils::concatenate_t<%s>" % args, listof([x for l in ls for x in l]))
                if len(shape) > 1 and shape[0] * shape[1] < 1000:
                    g.type("cartesian_product", "utils::cartesian_product_t<%s>" % args,
                           listof([listof(c) for c in product(ls)]))
        yield prog.source()
