"""Operations with RPM's global macro context."""
import rpm

from specfile.exceptions import MacroRemovalException, RPMException
from specfile.macros import MAX_REMOVAL_RETRIES, MacroLevel, Macros

LEVELS = [-20, -15, -13, -11, -7, -5, -3, -1, 0]


class Stacks(rpm.Model):
    """Macros with stacks of definitions [body, level, options, used]; some can't be expanded"""

    def __init__(self):
        self.macros = {}
        self.config = {}
        self.reloads = 0
        self.expanded = []

    def add_macro(self, name, body):
        self.macros.setdefault(name, []).append([body, -1, None, False])

    def del_macro(self, name):
        if name in self.macros:
            self.macros[name].pop()
            if not self.macros[name]:
                del self.macros[name]

    def reload_config(self):
        self.reloads += 1
        self.macros = {k: [list(d) for d in v] for k, v in self.config.items()}

    def expand(self, text):
        self.expanded.append(text)
        for name in self.macros:
            if text in ("%{" + name + "}", "%" + name):
                d = self.macros[name][-1]
                if d[2] == "fails":
                    raise rpm.error("expansion failed")
                return d[0]
        return text

    def dump(self):
        out = ["========================\n"]
        for name, stack in sorted(self.macros.items()):
            body, level, options, used = stack[-1]
            out.append("%3d%s %s%s\t%s\n" % (level, "=" if used else ":", name, "(" + options + ")" if options else "", body))
        return out


def stack(h, name, n, fails):
    out = []
    for i in range(h.choice("depth " + name, n + 1)):
        out.append([h.str("body %s%d" % (name, i), 1, alphabet="ab"), -3, "fails" if fails and h.bool("fails %s%d" % (name, i)) else None, False])
    return out


def define(h):
    """define() and remove(): earlier definitions never show up, other macros stay"""
    m = rpm.install(Stacks())
    for name in ("foo", "fo"):
        s = stack(h, name, h.cfg["depth"], name == "foo")
        if s:
            m.macros[name] = s
    other = [list(d) for d in m.macros.get("fo", [])]
    body = h.str("new", 2, alphabet="abc%{}")
    if h.bool("define"):
        Macros.define("foo", body)
        h.check_eq(m.macros.get("foo"), [[body, -1, None, False]], "definitions after define()")
        h.check_eq(Macros.expand("%foo"), body, "expansion after define()")
        Macros.remove("foo")
    else:
        Macros.remove("foo")
    h.check("foo" not in m.macros, "macro is still defined")
    h.check_eq(Macros.expand("%{foo}"), "%{foo}", "expansion of a removed macro")
    h.check_eq(m.macros.get("fo", []), other, "another macro changed")
    h.cover("defined")


def stubborn(h):
    """A macro that can't be expanded: removed unless there are too many definitions"""
    m = rpm.install(Stacks())
    n = h.choice("number", MAX_REMOVAL_RETRIES + 4)
    m.macros["foo"] = [["x", -3, "fails", False] for _ in range(n)]
    if not n:
        del m.macros["foo"]
    try:
        Macros.remove("foo")
        h.check("foo" not in m.macros, "macro is still defined")
        h.cover("removed")
    except MacroRemovalException:
        h.check("foo" in m.macros, "macro was removed")
        h.check(n > MAX_REMOVAL_RETRIES, "macro could have been removed")
        h.cover("not removed")


def failing(h):
    """Failing expansions are reported by the library's own exception with RPM's message"""
    m = rpm.install(Stacks())
    m.macros["foo"] = [["x", -3, "fails", False]]
    try:
        Macros.expand("%foo")
        h.check(False, "no exception")
    except RPMException:
        h.cover("expansion failed")


def reinit(h):
    """Only macros of the configuration up to the level remain"""
    m = rpm.install(Stacks())
    for i in range(3):
        level = h.one_of("level%d" % i, LEVELS)
        d = [h.str("body%d" % i, 1, alphabet="ab"), level, None, h.bool("used%d" % i)]
        m.config["m%d" % i] = [d] * (1 + (i == 0 and h.bool("twice")))
    m.macros = {"left": [["x", -1, None, False]], "m0": [["y", 0, None, False]]}
    threshold = h.one_of("threshold", [None] + LEVELS)
    if threshold is None:
        Macros.reinit()
        threshold = -11
    else:
        Macros.reinit(MacroLevel(threshold))
    want = {k: v for k, v in m.config.items() if v[-1][1] <= threshold}
    h.check_eq(m.macros, want, "macros after reinit()")
    h.check(m.reloads == 1, "configuration was not loaded once")
    h.cover("reinit")


def dump(h):
    """Macros are read from the dump as they are"""
    m = rpm.install(Stacks())
    for i in range(h.cfg["n"]):
        level = h.one_of("level%d" % i, LEVELS[:: h.cfg.get("step", 1)])
        body = "".join(p if isinstance(p, str) else h.str("body%d" % i, p, exclude="\n\\\x00") for p in h.cfg["body"])
        m.macros["m%d" % i] = [[body, level, h.one_of("options%d" % i, [None, "-", "n:a", "a(b)"]), h.bool("used%d" % i)]]
    got = [(x.name, x.options, x.body, x.level, x.used) for x in Macros.dump()]
    want = [(k, "(" + v[0][2] + ")" if v[0][2] else None, v[0][0], v[0][1], v[0][3]) for k, v in sorted(m.macros.items())]
    h.check_eq(got, want, "dumped macros")
    h.cover("dump")


def harnesses(tier):
    deep = tier == "thorough"
    yield "define", define, {"depth": 2 + deep}
    yield "stubborn", stubborn, {}
    yield "failing", failing, {}
    yield "reinit", reinit, {}
    for n, b in ((1, [0]), (1, [1]), (1, [3 + deep]), (1, [2, "\n", 2]), (1, ["a\n", 2, "\n"]), (2, [1]), (2, ["x\n  y", 1, "\n\n"])):
        yield "dump", dump, {"n": n, "body": b, "step": 1 if n == 1 else 3}


COVERS_ALL = ["defined", "removed", "not removed", "expansion failed", "reinit", "dump"]
BOUNDS = {
    "quick": "up to 2 previous definitions of 2 macros, any of which can't be expanded, new bodies of 2 characters; up to 23 definitions that can't be expanded; 3 macros of 9 levels and 9 thresholds; dumps of up to 2 macros with bodies of up to 3 arbitrary characters on up to 3 lines, 4 kinds of options",
    "thorough": "3 previous definitions, bodies of 4 arbitrary characters",
}
ASSUMPTIONS = [
    "RPM is a stub: a stack of definitions per macro; the dump has RPM's format (level, = or :, name, options, tab, body)",
    "bodies in dumps contain no backslash (line continuation), don't begin with a newline and don't look like a line of the dump",
]
