"""T05: generated member checkers against random classes whose members are known."""
import random
from .program import Program
from .functions import QUALS

NAMES = ["x", "value", "call_me"]
DECLS = """
struct A { int a; };
struct B { int b; };
struct Big { char c[24]; };
enum En : short {};
using Fn = void(int);
struct Any { template <typename T> Any(T&&); };
struct FromA { FromA(const A&); explicit FromA(int); };
"""
TYPES = ["int", "A", "const int", "B*", "double", "Big", "En", "const A", "char*", "bool", "Any", "FromA", "Fn*"]
DATA = ["int {n}", "const int {n}", "A {n}", "B* {n}", "char {n}[5]", "const A {n}", "A B::* {n}", "En {n}", "void* {n}",
        "volatile int {n}", "const char* const {n}", "void (*{n})(int)", "A (*const {n})(B*) noexcept", "int (A::*{n})(int) const",
        "void (B::*{n})() && noexcept", "int (*{n}[2])(A)", "int {n}[2][3]", "const volatile A {n}[1]", "void (**{n})()", "Any (A::*{n}[2])()",
        "std::nullptr_t {n}"]
UNION_DATA = ["int {n}", "A {n}", "B* {n}", "char {n}[5]", "En {n}", "const int {n}", "void (*{n})(int)", "int (A::*{n})()",
              "char {n}[2][2]"]
NONPOINTER_DATA = ["int& {n}", "const A& {n}", "A&& {n}", "int {n} : 3", "unsigned {n} : 17", "bool {n} : 1", "void (&{n})(int)", "int (&{n})[3]",
                   "void (*&{n})()", "int (A::*&{n})()", "const int {n} : 2", "int (&&{n})(A)"]
STATIC_DATA = ["static int {n}", "static inline int {n} = 3", "static constexpr int {n} = 7", "static const A {n}", "static int& {n}",
               "static A {n}[3]", "static B* {n}", "inline static const En {n}{{}}", "static volatile bool {n}",
               "static void (*{n})(int)", "static int (A::*{n})() noexcept", "static int (*const {n}[2])(B*)", "static int {n}[2][2]",
               "static int (&{n})[2]", "static void (*&{n})()", "static inline thread_local int {n} = 0"]
RETURNS = ["void", "int", "A", "const A&", "B*", "bool", "A&&", "unsigned char"]
# family, parameter -> which of the arguments bind to it
ARGS = ["A", "A&", "const A&", "A&&", "const A", "B", "B&", "B*", "const B*", "int", "int&", "std::nullptr_t", "Big"]
BINDS = {"A": {"A", "A&", "const A&", "A&&", "const A"}, "const A&": {"A", "A&", "const A&", "A&&", "const A"}, "A&": {"A&"},
         "A&&": {"A", "A&&"}, "B*": {"B*", "std::nullptr_t"}, "const B*": {"B*", "const B*", "std::nullptr_t"},
         "B&": {"B&"}, "B": {"B", "B&"}, "const B&": {"B", "B&"}, "Big": {"Big"}, "int&": {"int&"},
         "int": {"int", "int&"}, "const int&": {"int", "int&"}}
FAMILY = {p: p.replace("const ", "").rstrip("&*") + ("*" if "*" in p else "") for p in BINDS}
# objects: const, volatile, lvalue
OBJECTS = [("%s", 0, 0, 0), ("%s&", 0, 0, 1), ("const %s&", 1, 0, 1), ("%s&&", 0, 0, 0), ("const %s", 1, 0, 0),
           ("volatile %s&", 0, 1, 1), ("const volatile %s&", 1, 1, 1), ("const volatile %s&&", 1, 1, 0)]


def viable(method, obj, args):
    ret, params, (c, v, r, n) = method
    _, oc, ov, lvalue = obj
    if oc and not c or ov and not v:
        return False
    if r == "&" and not lvalue and not (c and not v):
        return False
    if r == "&&" and lvalue:
        return False
    return binds(params, args)


def binds(params, args):
    return len(params) == len(args) and all(a in BINDS[p] for p, a in zip(params, args))


class Cls:
    """What a class says about one name."""
    def __init__(self, rng, name, member, kind=None):
        self.rng, self.name, self.member = rng, name, member
        n = member
        kinds = ["none", "type", "nested", "enum", "template", "data", "data", "nonpointer", "static data", "method", "method",
                 "methods", "methods", "static", "statics", "mixed", "method template", "enumerator", "deleted"]
        self.kind = kind or rng.choice(kinds)
        self.type = None
        self.methods, self.statics = [], []
        self.template = self.callable = False
        self.union = self.kind in ("none", "type", "data", "method", "methods", "static", "statics", "enumerator") and \
            rng.random() < 0.15
        body = ""
        k = self.kind
        if k == "type":
            self.type = rng.choice(TYPES)
            body = rng.choice(["using {n} = {t};", "typedef {t} {n};"]).format(n=n, t=self.type)
        elif k == "nested":
            body = "struct %s { int z; };" % n
            self.type = "%s::" + n
        elif k == "enum":
            body = "enum class %s { p, q };" % n
            self.type = "%s::" + n
        elif k == "template":
            body = "template <typename> struct %s {};" % n
        elif k == "data":
            d = rng.choice(UNION_DATA if self.union else DATA).format(n=n)
            body = ("mutable " if d == "int " + n and rng.random() < 0.4 and not self.union else "") + d + ";"
        elif k == "nonpointer":
            body = rng.choice(NONPOINTER_DATA).format(n=n) + ";"
        elif k == "static data":
            body = rng.choice(STATIC_DATA).format(n=n) + ";"
        elif k in ("method", "methods", "mixed", "static", "statics", "deleted"):
            count = 1 if k in ("method", "static", "deleted") else rng.choice([2, 2, 3, 4])
            seen = set()
            lines = []
            for j in range(count):
                params = [rng.choice(list(BINDS)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                key = (len(params), tuple(FAMILY[p] for p in params))
                if key in seen:
                    continue
                seen.add(key)
                ret = rng.choice(RETURNS)
                static = k in ("static", "statics") or k == "mixed" and (j % 2 == 1)
                if k == "mixed" and static:
                    # of another number of parameters than all methods
                    params = params + ["Big"] * 4
                if static:
                    no = rng.choice(["", "noexcept"])
                    self.statics.append((ret, params, no))
                    lines.append("static %s %s(%s) %s;" % (ret, n, ", ".join(params), no))
                else:
                    q = rng.choice(QUALS) if rng.random() < 0.8 else QUALS[0]
                    self.methods.append((ret, params, q))
                    virtual = "virtual " if rng.random() < 0.15 and not self.union and k == "method" else ""
                    lines.append("%s%s %s(%s) %s%s;" % (virtual, ret, n, ", ".join(params), " ".join(x for x in q if x),
                                                      " = 0" if virtual and rng.random() < 0.5 else
                                                      " = delete" if k == "deleted" else ""))
                    # the same again for const objects or other values
                    if rng.random() < 0.25 and k in ("methods", "mixed") and not q[2]:
                        other = ("" if q[0] else "const", q[1], "", q[3])
                        self.methods.append((ret, params, other))
                        lines.append("%s %s(%s) %s;" % (ret, n, ", ".join(params), " ".join(x for x in other if x)))
            rng.shuffle(lines)
            body = "\n    ".join(lines)
            if k == "deleted":
                self.methods = []
        elif k == "method template":
            body = "template <typename U> void %s(U);" % n
            self.template = True
        elif k == "enumerator":
            body = "enum { %s, other_%s };" % (n, n)
        # (whether what can be called without being a function counts as a method is not said)
        self.callable = k in ("data", "nonpointer", "static data") and any(
            x in body for x in ("(*" + n + ")", "(*const " + n + ")", "(&" + n + ")(", "(&&" + n + ")(", "(*&" + n + ")"))
        self.access = rng.choice(["public"] * 5 + ["private", "protected"])
        self.shape = "union" if self.union else rng.choice(["struct"] * 3 + ["base", "base", "private base", "ambiguous", "hidden",
                                                                             "final", "specialization", "virtual base",
                                                                             "deep"])
        if k == "type" and self.shape == "ambiguous":
            self.shape = "struct"  # two names of one type are not ambiguous
        if self.type and "%s" in self.type:
            self.type = self.type % name if self.shape != "private base" else None
        self.seen = self.access == "public" and self.shape not in ("private base", "ambiguous", "hidden")
        acc = self.access + ":\n    "
        if self.shape in ("struct", "union", "final"):
            self.text = "%s %s%s {\n%s%s\n};" % ("union" if self.union else rng.choice(["struct", "class"]), name,
                                                 " final" if self.shape == "final" else "", acc, body)
        elif self.shape == "specialization":
            self.text = "template <typename> struct %sT;\ntemplate <> struct %sT<int> {\n%s%s\n};\nusing %s = %sT<int>;" % (
                name, name, acc, body, name, name)
        elif self.shape == "ambiguous":
            self.text = "struct %sL {\n%s%s\n};\nstruct %sR {\n%s%s\n};\nstruct %s : %sL, %sR {};" % (
                name, acc, body, name, acc, body, name, name, name)
            if k in ("none",):
                self.seen = True
        else:
            base = "struct %sB {\n%s%s\n};\n" % (name, acc, body)
            how = {"base": "public ", "private base": "private ", "virtual base": "virtual public ", "deep": "public ",
                   "hidden": "public "}[self.shape]
            if self.shape == "deep":
                base += "struct %sM : %sB { int between; };\n" % (name, name)
            inner = ""
            if self.shape == "hidden":
                # the name is something else in the derived class
                inner = "private: struct %s; " % member
            self.text = base + "class %s : %s%s%s { %s};" % (name, how, name, "M" if self.shape == "deep" else "B", inner)
            if self.type and self.type.startswith(name + "::"):
                self.type = name + "::" + member

    def has(self, *kinds):
        return self.seen and self.kind in kinds


def t05(seed, tier):
    rng = random.Random("T05-%d" % seed)
    programs, classes = (8, 60) if tier == "quick" else (80, 90)
    for p in range(programs):
        prog = Program("t05_%d.cpp" % p, "utils/function_traits.h")
        prog.declare(DECLS)
        for n in NAMES:
            for m in ("MEMBER_TYPE", "MEMBER_DATA", "STATIC_MEMBER_DATA", "METHOD", "R_METHOD", "STATIC_METHOD"):
                prog.declare("CREATE_%s_CHECKERS(%s)" % (m, n))
        for i in range(classes):
            member = rng.choice(NAMES)
            name = "C%d" % i
            c = Cls(rng, name, member)
            g = prog.group(c.text.replace("\n", " "), "")
            prog.declare(c.text)
            ask(g, rng, c, name, member)
            ask(g, rng, Cls(rng, name, "none", "none"), name, rng.choice([n for n in NAMES if n != member]), few=True)
        for t in ("int", "void", "int*", "int&", "const char&&", "En", "int[3]", "int()", "A B::*", "std::nullptr_t", "En&", "C1*",
                  "C2**", "void() const &", "int[]"):
            g = prog.group("not a class: " + t)
            c = Cls(rng, t, "none", "none")
            ask(g, rng, c, t, rng.choice(NAMES), few=True, plain=False)
        yield prog.source()

    # free functions
    for p in range(2 if tier == "quick" else 16):
        prog = Program("t05_free_%d.cpp" % p, "utils/function_traits.h")
        prog.declare(DECLS)
        prog.declare("namespace elsewhere { struct D {}; int fn0(D); A fn1(const D&) noexcept; void hidden(int); }")
        prog.declare("template <typename T> T twice(T) noexcept; template <typename T> std::enable_if_t<(sizeof(T) > 8)> large(T);")
        for i in range(10):
            fname = "fn%d" % i
            overloads = {}
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                params = [rng.choice(list(BINDS)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                key = (len(params), tuple(FAMILY[x] for x in params))
                overloads.setdefault(key, (rng.choice(RETURNS), params, rng.choice(["", "noexcept"])))
            text = " ".join("%s %s(%s) %s;" % (r, fname, ", ".join(ps), no) for r, ps, no in overloads.values())
            prog.declare("\n".join(["namespace ns%d {" % i, text, "CREATE_FREE_FUNCTION_CHECKERS(%s)" % fname, "}"]))
            g = prog.group(text, "using namespace ns%d;" % i)
            asked = [rng.sample(ARGS, n) for n in (0, 1, 1, 1, 2, 2, 3)]
            for _, ps, _ in overloads.values():
                for _ in range(3):
                    a = [rng.choice(sorted(BINDS[x])) for x in ps]
                    asked.append(a)
                    if a:
                        b = list(a)
                        b[rng.randrange(len(b))] = rng.choice(ARGS)
                        asked.append(b)
                    asked.append(a + [rng.choice(ARGS)])
            if i < 2:
                # found through its argument
                g.value("is_%s_invocable<elsewhere::D>" % fname, "ns%d::is_%s_invocable_v<elsewhere::D>" % (i, fname), 1)
                g.value("is_%s_noexcept_invocable<elsewhere::D>" % fname,
                        "ns%d::is_%s_noexcept_invocable_v<elsewhere::D>" % (i, fname), i)
                g.value("is_%s_invocable_r" % fname, "ns%d::is_%s_invocable_r_v<%s, elsewhere::D>" % (
                    i, fname, ["int", "A"][i]), 1)
            for a in asked:
                hit = [o for o in overloads.values() if binds(o[1], a)]
                args = ", ".join(a)
                no = bool(hit) and bool(hit[0][2])
                for suffix in ("_v<%s>", "<%s>::value"):
                    q = "ns%d::is_%s" % (i, fname)
                    g.value("is_%s_invocable<%s>" % (fname, args), q + "_invocable" + suffix % args, bool(hit))
                    g.value("is_%s_noexcept_invocable<%s>" % (fname, args), q + "_noexcept_invocable" + suffix % args, no)
                for r in {rng.choice(RETURNS), hit[0][0] if hit else "int"}:
                    ra = ", ".join([r] + a)
                    for suffix in ("_v<%s>", "<%s>::value"):
                        q = "ns%d::is_%s" % (i, fname)
                        g.value("is_%s_invocable_r<%s>" % (fname, ra), q + "_invocable_r" + suffix % ra,
                                bool(hit) and hit[0][0] == r)
                        g.value("is_%s_noexcept_invocable_r<%s>" % (fname, ra), q + "_noexcept_invocable_r" + suffix % ra,
                                no and hit[0][0] == r)
        prog.declare("CREATE_FREE_FUNCTION_CHECKERS(twice)\nCREATE_FREE_FUNCTION_CHECKERS(large)\n")
        g = prog.group("function templates")
        for t in ("int", "A", "B*", "Big"):
            g.value("is_twice_invocable<%s>" % t, "is_twice_invocable_v<%s>" % t, 1)
            g.value("is_twice_noexcept_invocable<%s>" % t, "is_twice_noexcept_invocable_v<%s>" % t, 1)
            g.value("is_twice_invocable_r<%s, %s>" % (t, t), "is_twice_invocable_r_v<%s, %s>" % (t, t), 1)
            g.value("is_twice_invocable<%s, %s>" % (t, t), "is_twice_invocable_v<%s, %s>" % (t, t), 0)
            g.value("is_large_invocable<%s>" % t, "is_large_invocable_v<%s>" % t, t == "Big")
            g.value("is_large_noexcept_invocable<%s>" % t, "is_large_noexcept_invocable_v<%s>" % t, 0)
        g.value("is_twice_invocable<>", "is_twice_invocable_v<>", 0)
        g.value("is_twice_invocable<void>", "is_twice_invocable_v<void>", 0)
        yield prog.source()


def ask(g, rng, c, T, n, few=False, plain=True):
    # nested types
    if c.kind != "template" or not c.seen:
        has = c.has("type", "nested", "enum")
        g.value("has_type_%s<%s>" % (n, T), "has_type_%s<%s>::value" % (n, T), has)
        g.value("has_type_%s_v<%s>" % (n, T), "has_type_%s_v<%s>" % (n, T), has)
        if plain and T.startswith("C"):
            g.value("has_type_%s_v<const %s>" % (n, T), "has_type_%s_v<const %s>" % (n, T), has)
        for e in rng.sample(TYPES, 1 if few else 3) + ([c.type] if has else []):
            g.value("has_exact_type_%s<%s, %s>" % (n, T, e), "has_exact_type_%s<%s, %s>::value" % (n, T, e),
                    has and c.type == e)
            g.value("has_exact_type_%s_v<%s, %s>" % (n, T, e), "has_exact_type_%s_v<%s, %s>" % (n, T, e),
                    has and c.type == e)
            want = "std::is_convertible_v<%s, %s>" % (c.type, e) if has else "0"
            for q in ("has_convertible_type_%s<%s, %s>::value" % (n, T, e), "has_convertible_type_%s_v<%s, %s>" % (n, T, e)):
                g.entries.append((q, q, want))
    else:
        g.value("has_type_%s<%s>" % (n, T), "has_type_%s_v<%s>" % (n, T), 0)
    # data
    for q, has in (("has_data", c.has("data", "nonpointer")), ("has_static_data", c.has("static data"))):
        g.value("%s_%s<%s>" % (q, n, T), "%s_%s<%s>::value" % (q, n, T), has)
        g.value("%s_%s_v<%s>" % (q, n, T), "%s_%s_v<%s>" % (q, n, T), has)
        if plain and T.startswith("C"):
            g.value("%s_%s_v<const %s>" % (q, n, T), "%s_%s_v<const %s>" % (q, n, T), has)
    # methods: callable with these arguments
    asked = [[], [rng.choice(ARGS)], [rng.choice(ARGS), rng.choice(ARGS)]]
    if not few:
        for ps in [m[1] for m in c.methods] + [s[1] for s in c.statics]:
            for _ in range(2):
                a = [rng.choice(sorted(BINDS[x])) for x in ps]
                asked.append(a)
                if a:
                    b = list(a)
                    b[rng.randrange(len(b))] = rng.choice(ARGS)
                    asked += [b, a[:-1]]
            asked.append(a + ["int"])
    methods = c.methods if c.seen else []
    statics = c.statics if c.seen else []
    for a in asked if not c.callable else []:
        objects = OBJECTS if plain and T.startswith("C") else [("%s", 0, 0, 0)]
        for obj in rng.sample(objects, min(len(objects), 4)) if not few else objects[:1]:
            o = obj[0] % T
            args = ", ".join([o] + a)
            if c.seen and any(binds(s[1], a) for s in statics):
                continue  # called on an object, a static method is another question
            hit = [m for m in methods if viable(m, obj, a)]
            got = bool(hit) or c.has("method template") and len(a) == 1 and not obj[1] and not obj[2]
            no = bool(hit) and bool(best(hit)[2][3])
            for suffix in ("<%s>::value", "_v<%s>"):
                g.value("has_invocable_%s<%s>" % (n, args), "has_invocable_%s" % n + suffix % args, got)
                g.value("has_invocable_%s_noexcept<%s>" % (n, args), "has_invocable_%s_noexcept" % n + suffix % args, no)
        if c.kind == "method template":
            continue
        # statically
        args = ", ".join([T] + a)
        if not any(len(m[1]) == len(a) for m in methods):
            hit = [s for s in statics if binds(s[1], a)]
            for suffix in ("<%s>::value", "_v<%s>"):
                g.value("has_static_invocable_%s<%s>" % (n, args), "has_static_invocable_%s" % n + suffix % args, bool(hit))
                g.value("has_static_invocable_%s_noexcept<%s>" % (n, args),
                        "has_static_invocable_%s_noexcept" % n + suffix % args, bool(hit) and bool(hit[0][2]))
    if c.kind == "method template" or c.shape == "virtual base":
        # (there is no conversion from pointers to members of virtual bases)
        return
    if (c.access != "public" and c.shape in ("base", "deep") or c.shape == "private base") and len(c.methods) + len(c.statics) > 1:
        # (clang++ 18 takes the address of an inherited private overloaded function)
        return
    # exact signatures
    exact = [(rng.choice(RETURNS), rng.choice(asked), rng.choice(QUALS)) for _ in range(2)]
    if not few:
        for ret, ps, q in c.methods + [(s[0], s[1], ("", "", "", s[2])) for s in c.statics]:
            exact.append((ret, ps, q))
            exact.append((rng.choice(RETURNS), ps, q))
            exact.append((ret, ps[:-1], q))
            exact.append((ret, ps + ["A"], q))
            exact.append((ret, [rng.choice(list(BINDS)) for _ in ps], q))
            for _ in range(4):
                exact.append((ret, ps, rng.choice(QUALS)))
            exact.append((ret, ps, q[:3] + ("",)))
            exact.append((ret, ps, q[:3] + ("noexcept",)))
    for ret, ps, q in exact:
        ps = [x for x in ps if not x.startswith("const A") or "&" in x] if "const A" in ps else ps
        args = ", ".join([ret, T] + ps)
        # a method that is noexcept may be called through a pointer to one that is not
        hit = any(m[0] == ret and m[1] == ps and m[2][:3] == q[:3] and (m[2][3] or not q[3]) for m in methods)
        suffix = "".join(("_const" if q[0] else "", "_volatile" if q[1] else "",
                          {"": "", "&": "_ref", "&&": "_rref"}[q[2]], "_noexcept" if q[3] else ""))
        for s in ("<%s>::value", "_v<%s>"):
            g.value("has_invocable_r_%s%s<%s>" % (n, suffix, args), "has_invocable_r_%s%s" % (n, suffix) + s % args, hit)
        for no in ("", "_noexcept"):
            hit = any(x[0] == ret and x[1] == ps and (x[2] or not no) for x in statics)
            for s in ("<%s>::value", "_v<%s>"):
                g.value("has_static_invocable_r_%s%s<%s>" % (n, no, args),
                        "has_static_invocable_r_%s%s" % (n, no) + s % args, hit)


def best(hit):
    # methods that differ in const only: all equally noexcept
    return hit[0]
