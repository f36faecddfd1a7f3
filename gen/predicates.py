"""T06 detection, T07 classification, P04 padding."""
import random
from .program import Program

# ------------------------------------------------------------------ T07 ----
FUND = [("int", 4), ("unsigned", 4), ("char", 1), ("signed char", 1), ("unsigned char", 1), ("short", 2), ("unsigned short", 2),
        ("long", 8), ("unsigned long", 8), ("long long", 8), ("unsigned long long", 8), ("bool", 1), ("float", 4),
        ("double", 8), ("std::byte", 1), ("std::nullptr_t", 8), ("void*", 8), ("E", 4), ("Eu", 1), ("U", 8), ("S12", 12)]
UINT = {"unsigned", "unsigned char", "unsigned short", "unsigned long", "unsigned long long"}
T07_DECLS = """
enum class E {};
enum Eu : unsigned char { eu };
union U { int a; double b; };
struct S12 { int a, b, c; };
struct FromArray : std::array<int, 3> {};
struct FromTuple : std::tuple<int, char> {};
struct FromWrapper : std::reference_wrapper<int> { using std::reference_wrapper<int>::reference_wrapper; };
template <typename T, std::size_t N> struct array { T x[N]; };
template <typename... Ts> struct tuple {};
template <typename T> struct holder { T& t; };
"""


class Ty:
    def __init__(self, name, size=None, cat="other", **kw):
        self.name, self.size, self.cat = name, size, cat
        self.__dict__.update(kw)


def make_type(rng, depth=0):
    c = rng.randrange(12) if depth < 3 else 0
    if c < 3:
        n, s = rng.choice(FUND)
        return Ty(n, s, "fund")
    if c < 6:
        t = make_object(rng, depth + 1)
        n = rng.choice([0, 1, 1, 2, 3, 5, 17])
        # an empty std::array takes some space
        return Ty("std::array<%s, %d>" % (t.name, n), t.size * n if n and t.size else None, "array", elem=t.name, count=n)
    if c == 6:
        ts = [make_type(rng, depth + 1) for _ in range(rng.randrange(4))]
        return Ty("std::tuple<%s>" % ", ".join(t.name for t in ts), None, "tuple")
    if c == 7:
        t = rng.choice(["int", "const int", "S12", "const std::tuple<int>", "std::array<int, 2>", "volatile E", "int()",
                        "const char*", "std::reference_wrapper<int>"])
        return Ty("std::reference_wrapper<%s>" % t, 8, "wrapper", target=t)
    if c == 8:
        ts = [make_type(rng, depth + 1) for _ in range(rng.randrange(4))]
        return Ty("utils::type_list<%s>" % ", ".join(t.name for t in ts), 1, "type_list")
    if c == 9:
        return Ty("utils::value_list<%s>" % ", ".join(rng.choice(["1", "2u", "true", "'c'", "nullptr", "E{}"])
                                                      for _ in range(rng.randrange(4))), 1, "value_list")
    if c == 10:
        return Ty(rng.choice(["FromArray", "FromTuple", "FromWrapper", "array<int, 3>", "tuple<int, char>", "holder<int>",
                              "std::pair<int, char>", "std::vector<int>", "std::string", "std::integer_sequence<int, 1>",
                              "std::array<int, 3>*", "std::tuple<int>*"]), None, "other")
    t = make_object(rng, depth + 1)
    return Ty("std::add_pointer_t<%s>" % t.name, 8, "other")


def make_object(rng, depth):
    while True:
        t = make_type(rng, depth)
        if t.cat in ("fund", "array", "other", "tuple", "wrapper", "type_list"):
            return t


def t07(seed, tier):
    rng = random.Random("T07-%d" % seed)
    programs, groups = (6, 70) if tier == "quick" else (60, 100)
    for p in range(programs):
        prog = Program("t07_%d.cpp" % p, "utils/common.h", "utils/type_list.h", "utils/value_list.h")
        prog.declare(T07_DECLS)
        for i in range(groups):
            if i < len(FUND):
                t = Ty(FUND[i][0], FUND[i][1], "fund")
            else:
                t = make_type(rng)
            g = prog.group(t.name, "using B = %s; using A3 = B[3]; using A35 = B[3][5];" % t.name)
            for cv in ("", "const", "volatile", "const volatile"):
                for r in ("", "&", "&&"):
                    q = " ".join(x for x in (cv, "B" + r) if x)
                    uint = t.cat == "fund" and t.name in UINT and not r
                    byte = t.name == "std::byte" and not r
                    g.value("is_uint<%s>" % q, "utils::is_uint<%s>::value" % q, uint)
                    g.value("is_uint_v<%s>" % q, "utils::is_uint_v<%s>" % q, uint)
                    g.value("is_uint_or_byte<%s>" % q, "utils::is_uint_or_byte<%s>::value" % q, uint or byte)
                    g.value("is_uint_or_byte_v<%s>" % q, "utils::is_uint_or_byte_v<%s>" % q, uint or byte)
                    g.value("is_std_array_v<%s>" % q, "utils::is_std_array_v<%s>" % q, t.cat == "array")
                    if t.cat == "array":
                        g.value("std_array_size_v<%s>" % q, "utils::std_array_size_v<%s>" % q, t.count)
                        g.type("std_array_data_t<%s>" % q, "utils::std_array_data_t<%s>" % q, t.elem)
                        g.value("std_array_sizes_sum<%s>" % q, "utils::std_array_sizes_sum<%s>" % q, t.count)
                    g.type("remove_cvref<%s>" % q, "utils::remove_cvref<%s>::type" % q, "B")
                    g.type("remove_cvref_t<%s>" % q, "utils::remove_cvref_t<%s>" % q, "B")
                    target = "std::add_lvalue_reference_t<%s>" % t.target if t.cat == "wrapper" and q == "B" else q
                    g.type("unwrap_reference<%s>" % q, "utils::unwrap_reference<%s>::type" % q, target)
                    g.type("unwrap_reference_t<%s>" % q, "utils::unwrap_reference_t<%s>" % q, target)
                    if not r and cv:
                        for a in ("A3", "A35"):
                            g.type("remove_cvref<%s %s>" % (cv, a), "utils::remove_cvref_t<%s %s&>" % (cv, a), a)
            for q in ("B*", "A3", "B()", "B(*)(B*)", "B S12::*", "const B*"):
                if t.cat in ("array",) and q == "A3" and not t.size:
                    continue
                for pred in ("is_uint_v", "is_uint_or_byte_v", "is_std_array_v", "is_ref_wrapper_v", "is_tuple_v", "is_type_list_v",
                             "is_value_list_v"):
                    g.value("%s<%s>" % (pred, q), "utils::%s<%s>" % (pred, q), 0)
                g.type("unwrap_reference_t<%s>" % q, "utils::unwrap_reference_t<%s>" % q, q)
            g.type("remove_cvref_t<B* const>", "utils::remove_cvref_t<B* const&>", "B*")
            g.type("remove_cvref_t<const B*>", "utils::remove_cvref_t<const B* volatile&&>", "const B*")
            for pred, cat in (("is_std_array", "array"), ("is_tuple", "tuple"), ("is_ref_wrapper", "wrapper"),
                              ("is_type_list", "type_list"), ("is_value_list", "value_list")):
                g.value(pred + "<B>", "utils::%s<B>::value" % pred, t.cat == cat)
                g.value(pred + "_v<B>", "utils::%s_v<B>" % pred, t.cat == cat)
                g.value(pred + "<B*>", "utils::%s<B*>::value" % pred, 0)
        g = prog.group("lists of types")
        g.value("is_tuple<>", "utils::is_tuple_v<>", 0)
        g.value("is_tuple<tuple, tuple>", "utils::is_tuple_v<std::tuple<int>, std::tuple<int>>", 0)
        g.value("is_type_list<>", "utils::is_type_list_v<>", 0)
        g.value("is_uint_v<void>", "utils::is_uint_v<void>", 0)
        g.value("is_uint_or_byte_v<void>", "utils::is_uint_or_byte_v<const void>", 0)
        g.type("remove_cvref<void>", "utils::remove_cvref_t<const void>", "void")
        g.type("remove_cvref<int()>", "utils::remove_cvref_t<int(&)()>", "int()")
        g.type("remove_cvref<int() const>", "utils::remove_cvref_t<int() const>", "int() const")
        g.type("unwrap_reference<void>", "utils::unwrap_reference_t<void>", "void")
        for _ in range(60):
            n = rng.choice([0, 1, 2, 2, 3, 4, 8])
            fund = rng.choice([FUND, [f for f in FUND if f[1] == rng.choice([1, 4, 8])] or FUND, FUND])
            ts = [rng.choice(fund) for _ in range(n)]
            if n > 2 and rng.random() < 0.4:
                # all alike but one
                ts = [rng.choice([f for f in FUND if f[1] == 8]) for _ in range(n)]
                ts[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(FUND)
            names = ", ".join("const " * rng.randrange(2) + x[0] + "&" * rng.randrange(2) for x in ts)
            same = len({x[1] for x in ts}) <= 1
            g.value("is_equal_sizes<%s>" % names, "utils::is_equal_sizes<%s>::value" % names, same)
            g.value("is_equal_sizes_v<%s>" % names, "utils::is_equal_sizes_v<%s>" % names, same)
        for _ in range(40):
            arrays = [(rng.choice(["int", "char", "S12", "const int"]), rng.choice([0, 1, 2, 3, 8, 100]))
                      for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            names = ", ".join(rng.choice(["%s", "const %s", "%s&", "const %s&", "%s&&"]) % ("std::array<%s, %d>" % a)
                              for a in arrays)
            g.value("std_array_sizes_sum<%s>" % names, "utils::std_array_sizes_sum<%s>" % names, sum(n for _, n in arrays))
            if len(arrays) >= 2:
                names = ", ".join(names.split(", std::")[:0] or ["std::array<%s, %d>&" % arrays[0], "const std::array<%s, %d>" % arrays[1]])
                g.value("is_same_data_std_arrays<%s>" % names, "utils::is_same_data_std_arrays<%s>" % names,
                        arrays[0][0] == arrays[1][0])
        # elements of the same type, but not of an array
        for t in ("int", "char", "S12"):
            other = rng.choice(["std::vector<%s>", "std::initializer_list<%s>&", "const std::initializer_list<const %s>", "std::vector<%s>&&",
                                "std::allocator<%s>"]) % t
            array = rng.choice(["std::array<%s, 3>", "const std::array<%s, 1>&", "std::array<%s, 0>&&"]) % t
            for a in ((other, array), (array, other), (other, other)):
                g.value("is_same_data_std_arrays<%s, %s>" % a, "utils::is_same_data_std_arrays<%s, %s>" % a, 0)
        yield prog.source()


# ------------------------------------------------------------------ T06 ----
OPS = """
struct none_type;
template <typename T> using op_nested = typename T::type;
template <typename T> using op_deref = decltype(*std::declval<T>());
template <typename T, typename U> using op_add = decltype(std::declval<T>() + std::declval<U>());
template <typename T, typename U> using op_assign = decltype(std::declval<T>() = std::declval<U>());
template <typename T> using op_pointer = T*;
template <typename T> using op_reference = T&;
template <typename T> using op_rvalue = T&&;
template <typename T> using op_array = T[2];
template <typename T> using op_function = T();
template <typename T> using op_parameter = void(T);
template <typename T> using op_member = int T::*;
template <typename T> using op_address = decltype(&T::m);
template <typename T> using op_size = decltype(sizeof(T));
template <typename F, typename... A> using op_call = decltype(std::declval<F>()(std::declval<A>()...));
template <typename T, typename... A> using op_make = decltype(::new T(std::declval<A>()...));
template <typename T> using op_integral = std::enable_if_t<std::is_integral_v<T>, const T>;
template <typename...> using op_any = int;
template <typename... T> using op_common = std::common_type_t<T...>;
template <typename T, typename U> using op_compare = decltype(std::declval<T>() == std::declval<U>());
template <typename T> using op_self = T;
template <typename T> using op_underlying = std::enable_if_t<std::is_enum_v<T>, T>;
// another way to find out
template <typename T> struct found { using type = T; static constexpr bool value = true; };
struct missing { static constexpr bool value = false; };
template <typename Found, typename Default> struct pick { using type = Default; };
template <typename T, typename Default> struct pick<found<T>, Default> { using type = T; };
template <typename Found, typename To> struct exact : std::false_type {};
template <typename T, typename To> struct exact<found<T>, To> : std::is_same<To, T> {};
template <typename Found, typename To> struct conv : std::false_type {};
template <typename T, typename To> struct conv<found<T>, To> : std::is_convertible<T, To> {};
enum class E : char {};
struct Incomplete;
struct Empty {};
struct Abstract { virtual void f() = 0; };
class Closed { Closed(); Closed(const Closed&); ~Closed(); using type = int; int m; void operator()(); int operator*(); };
struct Overloads { void m(); void m(int); int operator()(int); char operator()(char*) const; struct type {}; };
struct Template { template <typename T> struct type {}; template <typename T> void m(T); };
struct FromEmpty : Empty { using type = Empty; };
struct Fails { template <typename T> std::enable_if_t<sizeof(T) == 8> operator()(T); };
"""
UNARY = ["op_nested", "op_deref", "op_pointer", "op_reference", "op_rvalue", "op_array", "op_function", "op_parameter",
         "op_member", "op_address", "op_call", "op_make", "op_integral", "op_any", "op_common", "op_self",
         "op_underlying"]
BINARY = ["op_add", "op_assign", "op_call", "op_make", "op_any", "op_common", "op_compare"]
# asked only of types where both compilers and the standard agree
TYPES6 = ["int", "int&", "const int", "int&&", "int*", "const char*", "double", "E", "bool", "Empty", "Empty&",
          "const Empty&", "FromEmpty", "FromEmpty*", "Abstract", "Abstract&", "Closed", "Closed&", "Overloads",
          "const Overloads&", "Template", "Fails", "Fails&", "int()", "int(*)(int)", "void(&)(double)", "int[3]",
          "char(&)[2]", "int Empty::*", "std::nullptr_t", "std::string", "const std::string&", "std::unique_ptr<int>",
          "std::vector<int>&", "Incomplete&", "Incomplete*", "const volatile int*", "float", "unsigned char", "std::size_t"]
TO6 = ["int", "double", "bool", "void", "int&", "const int&", "int*", "const char*", "Empty", "const Empty&", "FromEmpty",
       "std::string", "E", "int()", "int[3]", "char"]


def t06(seed, tier):
    rng = random.Random("T06-%d" % seed)
    programs, groups = (6, 60) if tier == "quick" else (60, 100)
    for p in range(programs):
        prog = Program("t06_%d.cpp" % p, "utils/detector.h")
        prog.declare(OPS)
        g = prog.group("utils::nonesuch", "using N = utils::nonesuch;")
        # not a type: there are no objects of it
        for q in ("std::is_default_constructible_v<N>", "std::is_copy_constructible_v<N>", "std::is_move_constructible_v<N>",
                  "std::is_constructible_v<N, int>", "std::is_destructible_v<N>", "(std::is_assignable_v<N&, const N&>)",
                  "(std::is_assignable_v<N&, N>)", "(std::is_convertible_v<int, N>)", "(std::is_convertible_v<N, int>)"):
            g.value(q, q, 0)
        for i in range(groups):
            if i < 12:
                facts(prog, rng, i)
                continue
            op = rng.choice(UNARY + BINARY)
            n = 1 if op in UNARY and (op not in BINARY or rng.random() < 0.4) else 2
            if op in ("op_call", "op_make", "op_any", "op_common") and rng.random() < 0.3:
                n = 3
            args = [rng.choice(TYPES6) for _ in range(n)]
            if op in ("op_add", "op_compare", "op_assign", "op_common") and rng.random() < 0.5:
                args = [rng.choice(["int", "int&", "double", "const int", "bool", "E", "int*", "std::size_t", "char(&)[2]"])
                        for _ in args]
            a = ", ".join([op] + args)
            # no packs here: compilers differ on expanding them into aliases
            ps = ["A%d" % k for k in range(n)]
            head = "template <%s> auto look%d" % (", ".join("typename " + x for x in ps), i)
            prog.declare("%s(int) -> found<%s<%s>>;\n%s(...) -> missing;" % (head, op, ", ".join(ps), head))
            g = prog.group(a, "using Look = decltype(look%d<%s>(0));" % (i, ", ".join(args)))
            default = rng.choice(["int", "void", "none_type", "Abstract", "int&", "int[]", "const int", "volatile Empty",
                                  "const void", "const int&", "int&&", "int()", "Incomplete", "utils::nonesuch"])
            questions(g, rng, a, "Look::value", lambda d: "pick<Look, %s>::type" % d, lambda to: "exact<Look, %s>::value" % to,
                      lambda to: "conv<Look, %s>::value" % to, default)
        yield prog.source()


def questions(g, rng, a, detected, picked, exact, conv, default):
    def v(q, want):
        g.entries.append((q, q, want))

    def t(q, want):
        g.entries.append((q, "tg::is<%s, %s>()" % (q, want), "1"))
    v("utils::is_detected_v<%s>" % a, detected)
    v("utils::is_detected<%s>::value" % a, detected)
    t("utils::detected_t<%s>" % a, picked("utils::nonesuch"))
    t("utils::detected_or_t<%s, %s>" % (default, a), picked(default))
    t("utils::detected_or<%s, %s>::type" % (default, a), picked(default))
    v("utils::detected_or<%s, %s>::value_t::value" % (default, a), detected)
    for to in rng.sample(TO6, 3) + [picked("int")]:
        v("utils::is_detected_exact_v<%s, %s>" % (to, a), exact(to))
        v("utils::is_detected_exact<%s, %s>::value" % (to, a), exact(to))
        v("utils::is_detected_convertible_v<%s, %s>" % (to, a), conv(to))
        v("utils::is_detected_convertible<%s, %s>::value" % (to, a), conv(to))


def facts(prog, rng, i):
    """A class with known operations."""
    name = "K%d" % i
    results = ["int", "Empty", "const Empty&", "void", "double&", "char*", "E", "std::string"]
    body, known = [], {}
    for op, text in (("op_nested", "using type = {r};"), ("op_deref", "{r} operator*();"), ("op_call0", "{r} operator()();"),
                     ("op_call1", "{r} operator()(Empty&, int*);"), ("op_add", "{r} operator+(const {k}&) const;"),
                     ("op_assign", "{r} operator=(E);"), ("op_address", "{m} m;")):
        if rng.random() < 0.5:
            r = rng.choice(results)
            private = rng.random() < 0.2
            m = rng.choice(["int", "Empty", "char*", "E"])
            body.append(("private: " if private else "public: ") + text.format(r=r, k=name, m=m))
            if not private:
                known[op] = "%s %s::*" % (m, name) if op == "op_address" else r
    prog.declare("class %s {\n    %s\n};" % (name, "\n    ".join(body)))
    g = prog.group("class %s { %s };" % (name, " ".join(body)))
    for op, args in (("op_nested", [name]), ("op_nested", ["const " + name]), ("op_nested", [name + "&"]),
                     ("op_deref", [name]), ("op_deref", [name + "&"]), ("op_deref", ["const " + name]),
                     ("op_call", [name]), ("op_call", [name, "Empty&", "int*"]), ("op_call", [name + "&", "Empty&", "std::nullptr_t"]),
                     ("op_call", [name, "Empty", "int*"]), ("op_call", [name, "Empty&"]), ("op_call", ["const %s&" % name]),
                     ("op_add", [name, name]), ("op_add", ["const %s&" % name, name + "&"]), ("op_add", [name, "int"]),
                     ("op_assign", [name + "&", "E"]), ("op_assign", [name + "&", "int*"]), ("op_assign", ["const %s&" % name, "E"]),
                     ("op_address", [name]), ("op_address", [name + "&"])):
        key = op
        if op == "op_call":
            key = "op_call0" if len(args) == 1 else "op_call1"
        got = known.get(key)
        if op in ("op_nested", "op_address") and args[0].endswith("&"):
            got = None
        if op in ("op_deref", "op_call", "op_assign") and args[0].startswith("const"):
            got = None
        if op == "op_call" and args[1:] in (["Empty", "int*"], ["Empty&"]):
            got = None
        if op == "op_add" and args[1] == "int" or op == "op_assign" and args[1] == "int*":
            got = None
        a = ", ".join([op] + args)
        questions(g, rng, a, str(int(got is not None)), lambda d: got or d,
                  lambda to: "std::is_same_v<%s, %s>" % (got, to) if got else "0",
                  lambda to: "std::is_convertible_v<%s, %s>" % (got, to) if got else "0",
                  rng.choice(["int", "void", "Abstract", "int&", "const int", "volatile Empty", "const void", "int()"]))


# ------------------------------------------------------------------ P04 ----
SCALARS = [("char", 1), ("signed char", 1), ("bool", 1), ("std::byte", 1), ("short", 2), ("unsigned short", 2), ("char16_t", 2),
           ("int", 4), ("unsigned", 4), ("float", 4), ("wchar_t", 4), ("long", 8), ("double", 8), ("unsigned long long", 8),
           ("int*", 8), ("void (*)(int)", 8), ("E1", 1), ("E2", 2), ("E4", 4), ("E8", 8), ("Old", 4), ("int Some::*", 8)]
P04_DECLS = """
enum class E1 : unsigned char {};
enum class E2 : short {};
enum E4 : unsigned {};
enum class E8 : long {};
enum Old { old };
struct Some { int a; };
template <typename T, int> using as = T;
struct Copies { int a; Copies(const Copies&); };
struct Destroys { int a; ~Destroys(); };
struct Virtual { virtual void f(); long a; };
class Private { int a; public: Private(const Private&); };
"""


class Layout:
    def __init__(self, name, size, align, padded, depth):
        self.name, self.size, self.align, self.padded, self.depth = name, size, align, padded, depth


def p04(seed, tier):
    rng = random.Random("P04-%d" % seed)
    programs, types = (8, 60) if tier == "quick" else (80, 90)
    for p in range(programs):
        prog = Program("p04_%d.cpp" % p, "utils/padding_checker.h")
        prog.declare(P04_DECLS)
        known = []
        for i in range(types):
            name = "T%d" % i
            # mostly members that leave no gaps, so that both answers occur
            neat = rng.random() < 0.6
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 11])
            offset, align, padded, depth = 0, 1, False, 0
            lines = []
            for j in range(n):
                for attempt in range(12):
                    over = 0
                    if known and rng.random() < 0.3:
                        m = rng.choice(known)
                        if neat and m.padded and attempt < 11:
                            continue
                    else:
                        m = Layout(*rng.choice(SCALARS), 0, False, 0)
                        m.align = m.size
                    t, size, al, pad = m.name, m.size, m.align, m.padded
                    # clang++ calls classes with const members of class type not trivially copyable
                    scalar = m.depth == 0 and m not in known
                    if rng.random() < 0.12:
                        k = rng.choice([1, 2, 3, 4, 7])
                        t = "std::array<%s, %d>" % (t, k)
                        size *= k
                        scalar = False
                    if rng.random() < 0.06:
                        over = rng.choice([2, 4, 8, 16, 32])
                        if over < al:
                            over = 0
                        al = max(al, over)
                    if not neat or attempt == 11 or offset % al == 0:
                        break
                if size > 4000:
                    t, size, al, pad, over = "char", 1, 1, False, 0
                if "*" in t and "(" in t and not t.startswith("std::array"):
                    decl = "as<%s, 0> m%d;" % (t, j)
                else:
                    decl = "%s%s m%d;" % ("const " if scalar and rng.random() < 0.05 else "", t, j)
                if rng.random() < 0.06:
                    # still an aggregate, but not trivial
                    decl = decl[:-1] + "{};"
                lines.append(("alignas(%d) " % over if over else "") + decl)
                if rng.random() < 0.04:
                    lines.append(rng.choice(["static constexpr double s%d = 1;" % j, "int f%d_() const { return 3; }" % j,
                                             "using t%d = long;" % j, "enum { e%d };" % j, "static char s%d;" % j,
                                             "struct n%d { char a; long b; };" % j]))
                if offset % al:
                    padded = True
                    offset += al - offset % al
                offset += size
                align = max(align, al)
                padded = padded or pad
                depth = max(depth, m.depth + 1)
            whole = 0
            if rng.random() < (0.05 if neat else 0.15):
                whole = rng.choice([8, 16, 32])
                align = max(align, whole)
                whole = align if whole < align else whole
            if neat and offset % align and rng.random() < 0.9:
                # fill up to the end
                for k in range(align - offset % align if align - offset % align <= 7 else 0):
                    lines.append("char f%d;" % k)
                    offset += 1
            if offset % align:
                padded = True
                offset += align - offset % align
            prog.declare("struct %s%s { %s };" % ("alignas(%d) " % whole if whole else "", name, " ".join(lines)))
            layout = Layout(name, offset, align, padded, depth)
            if depth < 4:
                known.append(layout)
            g = prog.group(prog.head[-1])
            g.value("sizeof", "sizeof(%s)" % name, offset)
            g.value("alignof", "alignof(%s)" % name, align)
            for t in (name, "const " + name):
                g.value("has_padding<%s>" % t, "utils::has_padding<%s>::value" % t, padded)
                g.value("has_padding_v<%s>" % t, "utils::has_padding_v<%s>" % t, padded)
            g.value("the compiler sees padding", "tg::padded<%s, %d>()" % (name, padded), padded)
            if i % 4 == 0:
                k = rng.choice([1, 2, 3, 5])
                for t in ("std::array<%s, %d>" % (name, k), "std::array<std::array<%s, 2>, %d>" % (name, k)):
                    g.value("has_padding_v<%s>" % t, "utils::has_padding_v<%s>" % t, padded)
            if i % 6 == 0:
                # not trivially copyable, with and without gaps
                other = rng.choice(["Copies", "Destroys", "Virtual", "std::string", "Private", "std::unique_ptr<int>"])
                prog.declare("struct N%d { %s a; %s b; };" % (i, *((name, other) if rng.random() < 0.5 else (other, name))))
                for t in ("N%d" % i, other, "std::tuple<char, %s>" % name):
                    g.value("has_padding_v<%s>" % t, "utils::has_padding_v<%s>" % t, 1)
        g = prog.group("scalars")
        for t, s in SCALARS:
            g.value("has_padding_v<%s>" % t, "utils::has_padding_v<%s>" % t, 0)
        yield prog.source()
