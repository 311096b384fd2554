"""Conditions: which items are valid agrees with a reference evaluation of nested conditions."""
import rpm

from specfile.conditions import process_conditions
from specfile.macro_definitions import MacroDefinitions
from specfile.sections import Section
from specfile.sourcelist import Sourcelist
from specfile.tags import Tags

# what evaluating an expression may result in -> truth
OUTCOMES = [("1", True), ("0", False), ("2", True), ("-1", True), ("00", False), ("abc", True), (None, False), ("%{expr:x}", False), ("", False)]


class Model(rpm.Model):
    def __init__(self, h, outcomes):
        self.h = h
        self.outcomes = outcomes
        self.truth = {}
        self.aliases = {}
        self.asked = []
        self.cpu = "x86_64"
        self.os = "linux"

    def expand(self, text):
        if text.startswith("%{expr:"):
            e = text[len("%{expr:"):-1]
            self.asked.append(e)
            res, truth = self.outcomes[self.h.choice("outcome", len(self.outcomes))]
            self.truth[e] = truth
            if res is None:
                raise rpm.error("bad expression")
            return res
        if text == "%{_target_cpu}":
            return self.cpu
        if text == "%{_target_os}":
            return self.os
        return self.aliases.get(text, text)


class Context:
    """Stands for the spec file that defines the macro context."""

    def __init__(self, model):
        self.model = model

    def expand(self, expression, extra_macros=None, skip_parsing=False):
        return self.model.expand(expression)


ARCH = {"%ifarch": ("x86_64", False), "%ifnarch": ("x86_64", True), "%ifos": ("linux", False), "%ifnos": ("linux", True), "%elifarch": ("x86_64", False), "%elifos": ("linux", False)}
LISTS = ["{t}", "other", "other {t}", "{t}_64 other", "", "other  {t}\tx"]


def evaluate(keywords, truth_of):
    """Reference: validity of a probe placed after each keyword (and before the first)."""
    stack = []  # (parent valid, taken so far, current)
    cur = True
    out = [cur]
    for i, kw in enumerate(keywords):
        if kw.startswith("%if"):
            t = cur and truth_of(i)
            stack.append((cur, t))
            cur = t
        elif kw.startswith("%elif"):
            parent, taken = stack[-1]
            t = parent and not taken and truth_of(i)
            stack[-1] = (parent, taken or t)
            cur = t
        elif kw == "%else":
            parent, taken = stack[-1]
            cur = parent and not taken
            stack[-1] = (parent, True)
        elif kw == "%endif":
            parent, taken = stack.pop()
            cur = parent
        out.append(cur)
    return out


def choose_keywords(h, k, openers, branches):
    kws = []
    stack = []
    for i in range(k):
        opts = list(openers)
        if stack:
            opts.append("%endif")
            if not stack[-1]:
                opts += branches
                opts.append("%else")
        kw = h.one_of("kw", opts)
        if kw == "%endif":
            stack.pop()
        elif kw == "%else":
            stack[-1] = True
        elif kw.startswith("%if"):
            stack.append(False)
        kws.append(kw)
    return kws


def build(h, kws, view, ws):
    """Lines with a probe item before, between and after the keywords."""
    items = []
    lines = []
    lists = {}

    def probe(n):
        lines.append({"tags": "Source%d: a" % n, "macros": "%%global m%d 1" % n, "list": "file%d" % n}[view])

    probe(0)
    for i, kw in enumerate(kws):
        pre = h.str("pre", ws, alphabet=" \t")
        post = h.str("post", ws, alphabet=" \t")
        if kw in ARCH:
            t, neg = ARCH[kw]
            lst = h.one_of("arg", LISTS).replace("{t}", t)
            lists[i] = (t in lst.split()) != neg
            line = pre + kw + " " + lst + post
        elif kw.startswith("%if") or kw.startswith("%elif"):
            line = pre + kw + " E%d" % i + post
        else:
            line = pre + kw + post
        lines.append(line)
        probe(i + 1)
    return lines, lists


def items_of(h, lines, view, context):
    if view == "tags":
        return Tags.parse(Section("package", data=list(lines)), context=context)
    if view == "macros":
        return MacroDefinitions.parse(list(lines), with_conditions=True, context=context)
    sl = Sourcelist.parse(Section("sourcelist", data=list(lines)), context=context)
    return [e for e in sl if e.location.startswith("file")]


def structure(h):
    c = h.cfg
    model = rpm.install(Model(h, OUTCOMES if c.get("all") else OUTCOMES[:2]))
    kws = choose_keywords(h, c["k"], c["open"], c["branch"])
    lines, lists = build(h, kws, c["view"], c.get("ws", 0))
    context = Context(model) if c.get("context") else None
    items = items_of(h, lines, c["view"], context)
    expected = evaluate(kws, lambda i: lists[i] if i in lists else model.truth.get("E%d" % i, False))
    h.check_eq(len(items), len(expected), "number of items")
    got = [bool(t.valid) for t in items]
    h.check_eq(got, expected, "validity of items")
    if "%else" in kws:
        h.cover("else")
    if "%elif" in kws:
        h.cover("elif")
    if True in got and False in got:
        h.cover("mixed")
    if lists:
        h.cover("arch")


def continuation(h):
    """An expression continued on following lines is evaluated as a whole, its lines are no conditions."""
    c = h.cfg
    model = rpm.install(Model(h, OUTCOMES[:2]))
    n = h.choice("lines", 2) + 1
    a = h.str("a", 1, alphabet="xy")
    parts = [a + " \\"] + ["%else \\"] * (n - 1) + ["z"]
    lines = ["Name: a", "%if " + parts[0]] + parts[1:] + ["Version: 1", "%else", "Release: 1", "%endif", "Epoch: 1"]
    tags = Tags.parse(Section("package", data=list(lines)))
    expr = a + " " + "%else " * (n - 1) + "z"
    h.check_eq(model.asked, [expr], "evaluated expression")
    t = model.truth[expr]
    h.check_eq([x.valid for x in tags], [True, t, not t, True], "validity of items")


def in_macro_body(h):
    """Condition lines inside a macro body do not count."""
    model = rpm.install(Model(h, OUTCOMES[:2]))
    inner = h.one_of("inner", ["%if 1", "%endif", "%else", "%elif 0", "%ifarch foo"])
    form = h.choice("form", 5)
    pre = h.str("pre", h.choice("prelen", 2), alphabet=" \t")
    if form == 0:
        body = ["%global m \\", inner + "\\", " 1"]
    elif form == 1:
        body = ["%global m %{expand:", pre + inner, "}"]
    elif form == 2:
        body = ["%define m() %{lua:", inner, inner, "}"]
    elif form == 3:
        body = ["%global m x\\", inner]
    else:
        body = ["%define m \\", " x\\", inner]
    first = h.bool("first")
    lines = (body if first else []) + ["%if E", "Name: a"] + ([] if first else body) + ["Version: 1", "%else", "Release: 1", "%endif", "Epoch: 1"]
    tags = Tags.parse(Section("package", data=list(lines)))
    t = model.truth["E"]
    h.check_eq([x.valid for x in tags], [t, t, not t, True], "validity of items")


def expanded(h):
    """A line that expands to a condition is one."""
    model = rpm.install(Model(h, OUTCOMES[:2]))
    kws = choose_keywords(h, h.cfg["k"], ["%if"], ["%elif"])
    lines, lists = build(h, kws, "tags", 0)
    for i, line in enumerate(lines):
        if line.startswith("%") and h.bool("alias"):
            lines[i] = "%%{alias%d}" % i
            model.aliases[lines[i]] = line
    tags = Tags.parse(Section("package", data=list(lines)))
    expected = evaluate(kws, lambda i: model.truth.get("E%d" % i, False))
    h.check_eq([bool(t.valid) for t in tags], expected, "validity of items")


def targets(h):
    """A list of architectures or systems matches only if one of its items is the target."""
    c = h.cfg
    model = rpm.install(Model(h, OUTCOMES[:1]))
    kw = h.one_of("kw", list(ARCH))
    alpha = "ax_6"
    target = h.str("target", c["target"], alphabet=alpha)
    if ARCH[kw][0] == "linux":
        model.os = target
    else:
        model.cpu = target
    toks = [h.str("t%d" % i, n, alphabet=alpha) for i, n in enumerate(c["toks"])]
    match = any([h.eq(t, target) for t in toks])
    want = match != ARCH[kw][1]
    if want:
        h.cover("target")
    line = kw + " " + " ".join(toks)
    if kw.startswith("%el"):
        model.outcomes = OUTCOMES[1:2]
        lines = ["%if E", "Name: a", line, "Version: 1", "%endif", "Release: 1"]
        expected = [False, want, True]
    else:
        lines = ["Name: a", line, "Version: 1", "%else", "Release: 1", "%endif"]
        expected = [True, want, not want]
    tags = Tags.parse(Section("package", data=lines))
    h.check_eq([bool(t.valid) for t in tags], expected, "validity of items")


def partial(h):
    """Branches or ends of conditions opened elsewhere never fail and leave the lines valid."""
    rpm.install(Model(h, OUTCOMES[:1]))
    kws = [h.one_of("kw", ["%endif", "%else", "%elif E", "%endif  "]) for _ in range(h.cfg["k"])]
    lines = ["Name: a"]
    for k in kws:
        lines += [k, "Name: a"]
    tags = Tags.parse(Section("package", data=lines))
    h.check_eq([t.valid for t in tags], [True] * (len(kws) + 1), "validity of items")


def lines(h):
    """Validity of all lines that are no conditions; processing them changes no macros."""
    model = rpm.install(Undefine(h, OUTCOMES[:2]))
    kws = choose_keywords(h, h.cfg["k"], ["%if"], ["%elif"])
    ls = []
    at = []

    def probe():
        at.append(len(ls))
        ls.append(h.one_of("probe", ["text", pre + "%undefine m", "%undefine\tm ", "%global n 1"]))

    pre = h.str("pre", h.choice("prelen", 3), alphabet=" \t")
    probe()
    for i, kw in enumerate(kws):
        ls.append(kw + (" E%d" % i if "if" in kw[:5] and kw != "%endif" else ""))
        probe()
    definitions = MacroDefinitions.parse(list(ls)) if h.bool("definitions") else None
    got = process_conditions(list(ls), definitions, Context(model) if h.bool("context") else None)
    h.check_eq([l for l, _ in got], ls, "lines")
    expected = evaluate(kws, lambda i: model.truth.get("E%d" % i, False))
    h.check_eq([bool(got[i][1]) for i in at], expected, "validity of lines")
    h.check(not model.undefined, "a macro was undefined")
    h.cover("lines")


class Undefine(Model):
    undefined = False

    def expand(self, text):
        if text.split() and text.split()[0] == "%undefine":
            self.undefined = True
            return ""
        return super().expand(text)


def similar(h):
    """Lines that only resemble conditions are none."""
    rpm.install(Model(h, OUTCOMES[:2]))
    kw = h.one_of("kw", ["%if", "%endif", "%else", "%elif", "%ifarch"])
    c = h.str("c", 1, alphabet="abcdefghijklmnopqrstuvwxyz_0123456789")
    h.assume(not (kw + c in ("%ifa",)))
    pre = h.one_of("pre", ["", "#", "x", "%%", "# "])
    if not pre:
        line = kw + c + " 0"
    else:
        line = pre + kw + " 0"
    tags = Tags.parse(Section("package", data=["%if 1", line, "Name: a", "%endif", "Version: 1"]))
    model_true = rpm.MODEL.truth["1"]
    h.check_eq([t.valid for t in tags], [model_true, True], "validity of items")


def harnesses(tier):
    deep = tier == "thorough"
    for k in range(0, 8 if deep else 7):
        yield "structure", structure, {"k": k, "open": ["%if"], "branch": ["%elif"], "view": "tags"}
    for k in range(0, 6 if deep else 5):
        for view in ("macros", "list"):
            yield "structure", structure, {"k": k, "open": ["%if"], "branch": ["%elif"], "view": view}
        yield "structure", structure, {"k": k, "open": ["%if"], "branch": ["%elif"], "view": "tags", "context": 1}
    for k in range(1, 4 if deep else 3):
        yield "structure", structure, {"k": k, "open": ["%if"], "branch": ["%elif"], "view": "tags", "all": 1}
        for view in ("tags", "macros", "list"):
            yield "structure", structure, {
                "k": k, "open": ["%if", "%ifarch", "%ifnarch", "%ifos", "%ifnos"], "branch": ["%elif", "%elifarch", "%elifos"],
                "view": view, "context": k == 1,
            }
        yield "structure", structure, {"k": k, "open": ["%if"], "branch": ["%elif"], "view": "tags", "ws": 1}
    yield "structure", structure, {"k": 3, "open": ["%if"], "branch": ["%elif"], "view": "tags", "ws": 1}
    yield "continuation", continuation, {}
    yield "in_macro_body", in_macro_body, {}
    for k in (1, 2, 3):
        yield "expanded", expanded, {"k": k}
        yield "partial", partial, {"k": k}
        yield "lines", lines, {"k": k - 1}
    yield "similar", similar, {}
    for target in (1, 2, 3):
        for n in (1, 2, 3):
            yield "targets", targets, {"target": target, "toks": [n]}
        yield "targets", targets, {"target": target, "toks": [1, target]}


COVERS_ALL = ["else", "elif", "mixed", "arch", "target", "lines"]
BOUNDS = {
    "quick": "condition structures of up to 6 keywords (%if/%elif/%else/%endif), up to 2 with the arch and os variants, every truth assignment, every kind of evaluation result for up to 2 keywords; one character of whitespace around keywords",
    "thorough": "condition structures of up to 7 keywords, up to 3 with the arch and os variants",
}
ASSUMPTIONS = [
    "macro expansion and expression evaluation by RPM are a stub whose result is an arbitrary choice among: 0, 1, 2, -1, 00, a string, an empty string, an error, an unexpanded expression",
    "conditions are properly nested (except in the `partial` harness)",
]
