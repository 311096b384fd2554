"""
Differential self-test of the engine: operations on symbolic strings, all paths
explored; on every path the result under a model must equal what CPython's own
str/re computes on the model's string.
"""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import core, ops, rewrite, symre  # noqa: E402

E = core.ENGINE
AL = "a bB%{\\\n\t1_-\x85\u2028é"


def explore(fn, limit=100000):
    E.fresh_solver()
    stack = [[]]
    n = 0
    while stack:
        p = stack.pop()
        E.start_path(p)
        try:
            fn()
        except core.Infeasible:
            pass
        finally:
            E.end_path()
        stack.extend(E.pending)
        n += 1
        if n > limit:
            raise SystemExit("too many paths")
    return n


def ev(m, x):
    if isinstance(x, str):
        return E.eval_str(m, x)
    if isinstance(x, (list, tuple)):
        return type(x)(ev(m, y) for y in x)
    if isinstance(x, core.SInt):
        return m.eval(x.e, model_completion=True).as_long()
    if isinstance(x, core.SBool):
        return bool(x)
    return x


ops_name = rewrite.HOOK
# code with statements and operators that are turned into calls of the engine
SOURCES = [
    """
import itertools, functools, operator
from collections import Counter, OrderedDict
def f(s):
    chars = list(s)
    groups = [(k, list(g)) for k, g in itertools.groupby(chars)]
    head = list(itertools.takewhile(lambda c: c == "a", chars))
    tail = list(itertools.dropwhile("ab".__contains__, chars))
    even = functools.reduce(lambda n, c: n + (c == "%"), chars, 0)
    return groups, head, tail, even, list(itertools.accumulate(chars))
""",
    """
import functools, operator, itertools
def f(s):
    starts = functools.partial(str.startswith, s)
    chars = sorted(s, key=operator.methodcaller("upper"))
    a = list(itertools.filterfalse(operator.methodcaller("isalpha"), s))
    b = list(itertools.starmap(str.startswith, [(s, "a"), (s, "b%")]))
    c = [list(g) for k, g in itertools.groupby(s, key=str.isalpha)]
    return starts("a"), starts("b"), chars, a, b, c, operator.itemgetter(0)(s) if s else 0
""",
    """
from collections import Counter, OrderedDict
def f(s):
    c = Counter(s)
    d = OrderedDict((x, i) for i, x in enumerate(s))
    e = dict.fromkeys(s)
    return c["a"], len(c), c.most_common(1)[0][1] if s else 0, list(d), d.get("b"), list(e)
""",
    """
def f(s):
    match s:
        case "ab%{" | "ba%{":
            return 1
        case x if x.startswith("a"):
            return "a" + x
        case str(y):
            return y[1:]
""",
    """
class P:
    __match_args__ = ("x", "y")
    def __init__(self, x, y):
        self.x, self.y = x, y
def f(s):
    r = []
    for v in ([s[0], s[1:]], (s[0], s[1], s[2]), {s[0]: s[1], "k": s[2]}, P(s[0], s[1]), s, 3, None):
        match v:
            case ["a", rest]:
                r.append(rest)
            case [x, *_, "b"]:
                r.append(x)
            case {"a": z, **rest}:
                r.append(z + str(len(rest)))
            case P("a", y="b"):
                r.append("P")
            case P(x="b" as q):
                r.append(q)
            case None:
                r.append("none")
            case int():
                r.append("int")
            case _:
                r.append("other")
    return r
""",
    """
def f(s):
    a, b = set(s[:2]), set(s[2:])
    r = [sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), a <= b, a < b, a >= b, a > b, a == b, a.isdisjoint(b)]
    r += [len(a.union(b)), len(a.intersection(s)), len(a.difference("ab")), a.issubset("ab%"), b.issuperset("a")]
    c = a
    c |= b
    r.append(sorted(a))
    c -= {"a"}
    r.append(sorted(a))
    a.intersection_update("a%")
    r.append(sorted(c))
    return r
""",
    """
def f(s):
    d = {s[0]: 1} | {s[1]: 2}
    d |= {s[2]: 3}
    e = {(s[0], s[1]): 1, (s[2], s[3]): 2}
    return [sorted(d.items()), len(e), (s[1], s[0]) in e, e.get(("a", "b")), len({(c, 1) for c in s}), len(d.keys() & {"a"})]
""",
    """
import io
def f(s):
    b = io.StringIO()
    b.write(s)
    print(s[0], s[1], sep="", file=b)
    return b.getvalue()
""",
]
total = 0


def diff(label, sym_fn, native_fn, n, alphabet=AL):
    """sym_fn/native_fn: str -> value"""
    global total

    def run():
        s = "".join(E.new_cell(core.mask_of(alphabet)) for _ in range(n))
        try:
            r = sym_fn(s)
        except (ValueError, IndexError) as e:
            r = type(e)
        m = E.model()
        c = E.eval_str(m, s)
        try:
            want = native_fn(c)
        except (ValueError, IndexError) as e:
            want = type(e)
        got = ev(m, r)
        if got != want:
            print("MISMATCH", label, repr(c), "got", got, "want", want)
            raise SystemExit(1)

    k = explore(run)
    total += k
    return k


def main():
    N = 4
    for name, args in [
        ("split", ()), ("split", (None, 1)), ("split", ("%",)), ("split", ("%", 1)),
        ("rsplit", ("a", 1)), ("rsplit", (None, 1)), ("strip", ()), ("lstrip", ()), ("rstrip", ()),
        ("strip", (" %",)), ("lstrip", ("a",)), ("rstrip", ("\n",)), ("splitlines", ()), ("splitlines", (True,)),
        ("partition", ("%{",)), ("rpartition", ("a",)), ("find", ("%{",)), ("rfind", ("a",)), ("count", ("aa",)),
        ("replace", ("aa", "x")), ("replace", ("a", "")), ("startswith", ("%",)), ("startswith", (("%", "a"),)),
        ("endswith", ("\\\n",)), ("lower", ()), ("upper", ()), ("isspace", ()), ("isdigit", ()), ("isnumeric", ()), ("isalnum", ()),
        ("isidentifier", ()), ("zfill", (6,)), ("index", ("B",)), ("islower", ()), ("title", ()), ("casefold", ()), ("swapcase", ()), ("expandtabs", ()), ("removeprefix", ("a",)), ("removesuffix", ("a",)), ("capitalize", ()),
    ]:
        n = 3 if name in ("title", "expandtabs", "swapcase", "capitalize", "casefold") else N
        al = AL if n == N else "aB \t"
        diff(name, lambda s: ops.cm(s, name, *args), lambda s: getattr(s, name)(*args), n, al)
    diff("int", lambda s: ops.call(int, s), int, 3, "12 -_a")
    diff("eq", lambda s: ops.eq(s, "aab"), lambda s: s == "aab", 3)
    diff("lt", lambda s: ops.lt(s, "aab"), lambda s: s < "aab", 3)
    diff("in", lambda s: ops.contains("a%", s), lambda s: "a%" in s, 4)
    pats = [
        (r"^(\s*)(.*?)(\s*)$", 0), (r"\s+", 0), (r"(a|ab)(b|%)?", 0), (r"(?P<x>\w+)\s*(?P<y>=)?", 0),
        (r"%(?!%)", 0), (r"(?<!a)b", 0), (r"(?<=a)[bB]", 0), (r"(a)?(?(1)b|B)", 0), (r"a*?b", 0), (r"(?:a|b)*\\$", 0),
        (r"\bB\b", 0), (r"\B", 0), (r"(.)\1", 0), (r"[^a%]+", 0), (r"A+", re.I), (r"^a", re.M), (r"b$", re.M), (r"b$", 0), (r".+", re.S), (r"(a*)*b", 0), (r"(a*?)*?b", 0), (r"(a|\s)*", 0), (r"(?:(a)|b)*", 0), (r"(?>a+)a", 0), (r"a++b", 0), (r"(?i:B)a", 0), (r"", 0), (r"\d+", 0), (r"(\\.|[^\\])*", 0), (r"a{2,3}", 0), (r"a{1,2}?", 0), (r"(?=a)(\w+)", 0), (r"[\s%]*", 0), (r"\Aa|\Z", 0),
    ]

    def mt(m):
        return None if m is None else [list(m.span(i)) for i in range(m.re.groups + 1)]

    for p, f in pats:
        nat, sy = re.compile(p, f), symre.compile(p, f)
        for al in ("ab%B", "a\\ \nb"):
            for meth in ("match", "search", "fullmatch"):
                diff((p, meth), lambda s: mt(getattr(sy, meth)(s)), lambda s: mt(getattr(nat, meth)(s)), 4, al)
                # lazily resolved groups, last to first
                diff(
                    (p, meth, "rev"),
                    lambda s: (lambda m: m and [m.span(i) for i in reversed(range(m.re.groups + 1))])(getattr(sy, meth)(s)),
                    lambda s: (lambda m: m and [m.span(i) for i in reversed(range(m.re.groups + 1))])(getattr(nat, meth)(s)),
                    3, al)
            diff((p, "findall"), lambda s: sy.findall(s), lambda s: nat.findall(s), 3, al)
            diff((p, "split"), lambda s: sy.split(s), lambda s: nat.split(s), 3, al)
            diff((p, "split1"), lambda s: sy.split(s, 1), lambda s: nat.split(s, 1), 3, al)
            diff((p, "sub"), lambda s: sy.sub("<\\g<0>>", s), lambda s: nat.sub("<\\g<0>>", s), 3, al)
    for source in SOURCES:
        native, rewritten = {}, {ops_name: ops}
        exec(source, native)
        exec(rewrite.compile_rewritten(source, "<selftest>"), rewritten)
        diff(source, rewritten["f"], native["f"], 4, "ab%{")
    print("engine self-test ok: %d paths, %d queries" % (total, E.stats.queries))


if __name__ == "__main__":
    main()
