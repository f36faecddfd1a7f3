"""Generated programs: groups of (question, result expression, expected result)."""
import json


def quote(text):
    return json.dumps(text)


class Program:
    def __init__(self, name, *headers):
        self.name = name
        self.head = ["#include <typegen.h>"] + ["#include <%s>" % h for h in headers]
        self.groups = []

    def declare(self, text):
        self.head.append(text)

    def group(self, label, using=""):
        g = Group(label, using)
        self.groups.append(g)
        return g

    def source(self):
        out = list(self.head)
        names = []
        for i, g in enumerate(self.groups):
            if not g.entries:
                continue
            out.append("namespace g%d {" % i)
            if g.using:
                out.append(g.using)
            out.append("static const tg::Entry entries[] = {")
            for what, got, want in g.entries:
                out.append("    {%s, static_cast<long long>(%s), static_cast<long long>(%s)}," % (quote(what), got, want))
            out.append("};\n}")
            names.append("    {%s, g%d::entries, sizeof g%d::entries / sizeof *g%d::entries}," %
                         (quote(g.label[:300]), i, i, i))
        out.append("static const tg::Group groups[] = {")
        out += names
        out.append("};")
        out.append("int main(int argc, char** argv) { return tg::run(argc, argv, groups); }")
        return self.name, "\n".join(out) + "\n"


class Group:
    def __init__(self, label, using):
        self.label, self.using, self.entries = label, using, []

    def type(self, what, actual, expected):
        self.entries.append((what + " -> " + expected[:200], "tg::is<%s, %s>()" % (actual, expected), "1"))

    def value(self, what, actual, expected):
        if expected is True or expected is False:
            expected = int(expected)
        self.entries.append((what, actual, "%d" % expected))
