"""T04: function types, member function pointers and functors with every qualifier combination."""
import itertools, random
from .program import Program

DECLS = """
struct Empty {};
struct Incomplete;
enum class E : short {};
template <typename T, int N> struct Tpl {};
struct Base { int m; };
"""
# as declared, as it is in the function's type
PARAMS = [(t, t) for t in ["int", "char", "double", "int&", "const int&", "int&&", "int*", "const char*", "Empty", "const Empty&",
                           "Incomplete&", "Incomplete*", "E", "bool", "void*", "Tpl<int, 3>", "Tpl<Empty, 0>&&", "int(*)(char)",
                           "int(&)[3]", "int Base::*", "void (Base::*)(int) const", "std::nullptr_t", "unsigned long long",
                           "void(&)(int, char)", "const volatile int&", "int* const*", "Incomplete"]]
PARAMS += [("const int", "int"), ("int[3]", "int*"), ("void(int)", "void(*)(int)"), ("const Empty", "Empty"),
           ("int* const", "int*"), ("const char[]", "const char*")]
RETURNS = ["void", "int", "int&", "const int&", "int&&", "Empty", "const Empty", "Incomplete&", "E", "int*", "const char*",
           "bool", "Tpl<int, 1>", "std::nullptr_t", "unsigned char", "double", "int Base::*", "volatile int*", "const int"]
# spelled with an alias where the syntax needs it
ALIASES = [("using Fptr = int (*)(char);", "Fptr"), ("using Farr = int (&)[3];", "Farr"),
           ("using Fmem = void (Base::*)(int) const noexcept;", "Fmem"), ("using Ffn = void (&)();", "Ffn")]
QUALS = list(itertools.product(("", "const"), ("", "volatile"), ("", "&", "&&"), ("", "noexcept")))


def fn(ret, params, quals):
    c, v, r, n = quals
    return "auto (%s) %s -> %s" % (", ".join(params), " ".join(x for x in (c, v, r, n) if x), ret)


def t04(seed, tier):
    rng = random.Random("T04-%d" % seed)
    programs, groups = (6, 48) if tier == "quick" else (60, 96)
    for p in range(programs):
        prog = Program("t04_%d.cpp" % p, "utils/function_traits.h")
        prog.declare(DECLS)
        for a, _ in ALIASES:
            prog.declare(a)
        prog.declare("namespace ft = utils::function_traits;")
        returns = RETURNS + [a for _, a in ALIASES]
        for i in range(groups):
            quals = QUALS[i % 24]
            c, v, r, n = quals
            ret = rng.choice(returns)
            ps = [rng.choice(PARAMS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 7, 12]))]
            if rng.random() < 0.15 and ps:
                ps = [ps[0]] * len(ps)
            declared = [a for a, _ in ps]
            params = [b for _, b in ps]
            f = fn(ret, params, quals)
            q = " ".join(x for x in quals if x)
            # classes with one call operator, and a pointer to a member function
            using = "using F = %s;\nusing Declared = %s;\n" % (f, fn(ret, declared, quals))
            using += "struct Functor { auto operator()(%s) %s -> %s; };\n" % (", ".join(declared), q, ret)
            using += "struct Derived : Functor { int more; void call(); };\n"
            using += "struct Final final { int x; auto operator()(%s) %s -> %s; };\n" % (", ".join(declared), q, ret)
            using += "union Union { int x; auto operator()(%s) %s -> %s; };\n" % (", ".join(declared), q, ret)
            using += "struct Two : Functor { using Functor::operator(); void operator()(struct Two*) %s; };\n" % q
            using += "struct Class { auto f(%s) %s -> %s; virtual void g() = 0; };\n" % (", ".join(declared), q, ret)
            g = prog.group(f, using)
            g.type("declared type", "Declared", f)
            for t in ("F", "Declared"):
                g.type("return_type<%s>" % t, "ft::return_type_t<%s>" % t, ret)
                g.type("return_type::type", "ft::return_type<%s>::type" % t, ret)
                g.type("params_list<%s>" % t, "ft::params_list_t<%s>" % t, "utils::type_list<%s>" % ", ".join(params))
                g.type("params_list::type", "ft::params_list<%s>::type" % t, "utils::type_list<%s>" % ", ".join(params))
            for name, has in (("const", c), ("volatile", v), ("noexcept", n)):
                g.value("has_%s_qualifier" % name, "ft::has_%s_qualifier<F>::value" % name, bool(has))
                g.value("has_%s_qualifier_v" % name, "ft::has_%s_qualifier_v<F>" % name, bool(has))
            for name, has in (("lvalue", r == "&"), ("rvalue", r == "&&")):
                g.value("has_%s_reference_qualifier" % name, "ft::has_%s_reference_qualifier<F>::value" % name, has)
                g.value("has_%s_reference_qualifier_v" % name, "ft::has_%s_reference_qualifier_v<F>" % name, has)
            for name, left in (("remove_const_qualifier", ("", v, r, n)), ("remove_volatile_qualifier", (c, "", r, n)),
                               ("remove_reference_qualifier", (c, v, "", n)), ("remove_noexcept_qualifier", (c, v, r, "")),
                               ("remove_all_qualifiers", ("", "", "", ""))):
                g.type(name, "ft::%s<F>::type" % name, fn(ret, params, left))
            g.type("remove_all_qualifiers_t", "ft::remove_all_qualifiers_t<F>", fn(ret, params, ("", "", "", "")))
            g.type("all removed one by one",
                   "ft::remove_noexcept_qualifier<ft::remove_reference_qualifier<ft::remove_volatile_qualifier<"
                   "ft::remove_const_qualifier<F>::type>::type>::type>::type", fn(ret, params, ("", "", "", "")))
            # signatures
            g.type("signature<F>", "ft::signature_t<F>", f)
            g.type("signature<F>::type", "ft::signature<F>::type", f)
            for t in ("Functor", "Derived", "Final", "Union"):
                g.type("signature<%s>" % t, "ft::signature_t<%s>" % t, f)
                g.type("signature<%s>::type" % t, "ft::signature<%s>::type" % t, f)
                g.type("functor_signature<%s>" % t, "ft::functor_signature_t<%s>" % t, f)
                g.type("functor_signature<%s>::type" % t, "ft::functor_signature<%s>::type" % t, f)
                g.value("is_simple_functor<%s>" % t, "ft::is_simple_functor<%s>::value" % t, True)
                g.value("is_simple_functor_v<%s>" % t, "ft::is_simple_functor_v<%s>" % t, True)
                g.value("is_invocable<%s>" % t, "ft::is_invocable<%s>::value" % t, True)
            for cl in ("Class", "Incomplete", "Empty"):
                # (spelled out: with F of its own, g++ 13 gets the reference qualifier wrong)
                m = "auto (%s::*)(%s) %s -> %s" % (cl, ", ".join(declared), q, ret)
                g.type("member_signature<%s>" % m, "ft::member_signature_t<%s>" % m, f)
                g.type("member_signature<%s>::type" % m, "ft::member_signature<%s>::type" % m, f)
                g.value("is_invocable<%s>" % m, "ft::is_invocable<%s>::value" % m, True)
                g.value("is_invocable_v<%s>" % m, "ft::is_invocable_v<%s>" % m, True)
                g.value("is_simple_functor<%s>" % m, "ft::is_simple_functor<%s>::value" % m, False)
            g.type("member_signature of a member", "ft::member_signature_t<decltype(&Class::f)>", f)
            g.value("is_invocable<F>", "ft::is_invocable<F>::value", True)
            g.value("is_invocable_v<F>", "ft::is_invocable_v<F>", True)
            g.value("is_simple_functor<F>", "ft::is_simple_functor_v<F>", False)
            if not (c or v or r):
                g.value("is_invocable<F*>", "ft::is_invocable<F*>::value", True)
                g.value("is_invocable_v<F*>", "ft::is_invocable_v<F*>", True)
                g.value("is_simple_functor<F*>", "ft::is_simple_functor_v<F*>", False)
                g.value("is_invocable<F**>", "ft::is_invocable_v<F**>", False)
            for t in ("Two", "Class", "Functor*", "Empty", ret, "int", "void", "int Base::*", "Base"):
                g.value("is_simple_functor<%s>" % t, "ft::is_simple_functor<%s>::value" % t, False)
                if t != "Fmem" and t != "Fptr":
                    g.value("is_invocable<%s>" % t, "ft::is_invocable<%s>::value" % t, False)
        # lambdas and classes whose operator is not simple
        prog.declare("""
static auto plain = [](int, char&) -> long { return 0; };
static int state;
static auto changing = [k = 1](Empty) mutable noexcept -> int& { ++k; return state; };
static auto generic = [](auto x) { return x; };
static auto pack = [](auto... x) { return sizeof...(x); };
class Private { void operator()(); public: int x; };
struct FromPrivate : private Tpl<int, 0>, Private {};
struct Overloaded { void operator()(int); void operator()(char); };
struct ConstOverloaded { void operator()(int); void operator()(int) const; };
struct Templated { template <typename T> void operator()(T); };
struct Both { void operator()(int); template <typename T> void operator()(T); };
using Target = void (*)(int);
struct Converts { operator Target() const; };
struct A1 { void operator()(int); };
struct A2 { void operator()(char); };
struct Ambiguous : A1, A2 {};
struct Hidden : A1 { void operator()(double) const; };
class Inaccessible : A1 {};
struct Deleted { void operator()(int) = delete; };
struct Virtual { virtual int operator()(int, int) const = 0; };
struct Data { void (*call)(int); int operator[](int); };
""")
        g = prog.group("lambdas and unusual classes")
        for t, sig in (("decltype(plain)", "auto (int, char&) const -> long"),
                       ("decltype(changing)", "auto (Empty) noexcept -> int&"),
                       ("Hidden", "auto (double) const -> void"),
                       ("Virtual", "auto (int, int) const -> int")):
            g.type("signature<%s>" % t, "ft::signature_t<%s>" % t, sig)
            g.type("functor_signature<%s>" % t, "ft::functor_signature_t<%s>" % t, sig)
            g.type("return_type of it", "ft::return_type_t<ft::signature_t<%s>>" % t, sig.split("-> ")[1])
            g.value("is_simple_functor<%s>" % t, "ft::is_simple_functor_v<%s>" % t, True)
            g.value("is_invocable<%s>" % t, "ft::is_invocable_v<%s>" % t, True)
        for t in ("decltype(generic)", "decltype(pack)", "Private", "FromPrivate", "Overloaded", "ConstOverloaded", "Templated",
                  "Both", "Converts", "Ambiguous", "Inaccessible", "Data", "int", "int&", "int*", "void", "const void", "E",
                  "int[3]", "std::nullptr_t", "int Base::*", "const int Base::*", "int (*Base::*)(int)", "Base", "void*",
                  "decltype(plain)*"):
            g.value("is_simple_functor<%s>" % t, "ft::is_simple_functor<%s>::value" % t, False)
            g.value("is_simple_functor_v<%s>" % t, "ft::is_simple_functor_v<%s>" % t, False)
            g.value("is_invocable<%s>" % t, "ft::is_invocable<%s>::value" % t, False)
            g.value("is_invocable_v<%s>" % t, "ft::is_invocable_v<%s>" % t, False)
        yield prog.source()
