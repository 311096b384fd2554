"""Scanning of macros in values follows RPM's scanner."""
import rpm

from specfile.exceptions import UnterminatedMacroException
from specfile.macro_definitions import MacroDefinitions
from specfile.sections import Section
from specfile.tags import Tags
from specfile.utils import count_brackets, split_conditional_macro_expansion
from specfile.value_parser import (
    BuiltinMacro,
    ConditionalMacroExpansion,
    EnclosedMacroSubstitution,
    ExpressionExpansion,
    MacroSubstitution,
    ShellExpansion,
    StringLiteral,
    ValueParser,
)

OPEN = "({["
CLOSE = ")}]"
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def ref_scan(s):
    """
    Reference: [(kind, text, body nodes or None)], or None if a macro does not end.
    Written from expandMacro()/matchchar() of RPM.
    """
    out = []
    i = lit = 0
    n = len(s)
    while i < n:
        if s[i] != "%":
            i += 1
            continue
        if i + 1 == n:
            return None
        c = s[i + 1]
        if c == "%":
            i += 2
            continue
        j = i + 1
        if c in OPEN:
            k = OPEN.index(c)
            depth = 0
            while True:
                if j >= n:
                    return None
                x = s[j]
                if x == "\\":
                    j += 2
                    continue
                j += 1
                if x == OPEN[k]:
                    depth += 1
                elif x == CLOSE[k]:
                    depth -= 1
                    if depth == 0:
                        break
            inner = s[i + 2 : j - 1]
            body = None
            if k == 0:
                kind = ShellExpansion
            elif k == 2:
                kind = ExpressionExpansion
            elif ":" not in inner:
                kind = EnclosedMacroSubstitution
            else:
                cond, rest = inner.split(":", 1)
                p = 0
                while p < len(cond) and cond[p] in "?!":
                    p += 1
                if "?" in cond[:p]:
                    kind = ConditionalMacroExpansion
                    body = ref_scan(rest)
                    if body is None:
                        return None
                else:
                    kind = BuiltinMacro
        else:
            kind = MacroSubstitution
            body = None
            while j < n and s[j] in "?!":
                j += 1
            if j < n and s[j] == "-":
                j += 1
            while j < n and s[j] in NAME:
                j += 1
            if j < n and s[j] == "*":
                j += 1
                if j < n and s[j] == "*":
                    j += 1
            elif j < n and s[j] == "#":
                j += 1
        if i > lit:
            out.append((StringLiteral, s[lit:i], None))
        out.append((kind, s[i:j], body))
        i = lit = j
    if lit < n:
        out.append((StringLiteral, s[lit:], None))
    return out


def compare(h, nodes, ref):
    h.check(len(nodes) == len(ref), "different number of nodes than RPM would see")
    for node, (kind, text, body) in zip(nodes, ref):
        h.check(type(node) is kind, "%s is parsed as %s" % (kind.__name__, type(node).__name__))
        h.check_eq(str(node), text, "text of a node differs from the text it was parsed from")
        if body is not None:
            compare(h, node.body, body)


def scan(h):
    s = "".join(p if isinstance(p, str) else h.str("s", p) for p in h.cfg["s"])
    ref = ref_scan(s)
    try:
        nodes = ValueParser.parse(s)
    except UnterminatedMacroException:
        h.cover("unterminated")
        h.check(ref is None, "well-formed value is reported as unterminated")
        return
    h.cover("parsed")
    h.check(ref is not None, "unterminated macro is accepted")
    h.check_eq("".join(str(n) for n in nodes), s, "nodes do not make up the value")
    compare(h, nodes, ref)
    if any(r[0] is ConditionalMacroExpansion for r in ref):
        h.cover("conditional")


def split_conditional(h):
    """A line that is one conditional expansion is split into prefix, body and suffix, any other is untouched."""
    s = "".join(p if isinstance(p, str) else h.str("s", p) for p in h.cfg["s"])
    body, prefix, suffix = split_conditional_macro_expansion(s)
    h.check_eq(prefix + body + suffix, s, "parts do not make up the line")
    ref = ref_scan(s)
    if ref is not None and len(ref) == 1 and ref[0][0] is ConditionalMacroExpansion:
        h.cover("split")
        h.check_eq(body, s[s.index(":") + 1 : -1], "wrong body of a conditional expansion")
        h.check_eq(suffix, "}", "wrong suffix")
    else:
        h.check_eq(body, s, "a line that is not a conditional expansion is split")


def ref_counts(s):
    """How many %{ and %( opened in s are not closed (a backslash escapes the next character)."""
    b = p = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 2
            continue
        if c == "%" and i + 1 < len(s):
            if s[i + 1] == "{":
                b += 1
            elif s[i + 1] == "(":
                p += 1
            i += 2
            continue
        if b > 0:
            if c == "{":
                b += 1
            elif c == "}":
                b -= 1
        if p > 0:
            if c == "(":
                p += 1
            elif c == ")":
                p -= 1
        i += 1
    return b, p


def ref_open(s):
    return ref_counts(s) != (0, 0)


def brackets(h):
    s = "".join(p if isinstance(p, str) else h.str("s", p) for p in h.cfg["s"])
    h.check_eq(tuple(count_brackets(s)), ref_counts(s), "number of open brackets")


def continuation(h):
    """A tag value continues on the following lines exactly while a macro in it is open."""
    rpm.install(rpm.Model())
    c = h.cfg
    v = c["head"] + h.str("a", c["n"], exclude="\n \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000") + "x"
    nxt = [h.str("n%d" % i, k, exclude="\n:") + "y" for i, k in enumerate(c["next"])]
    exp = v
    k = 0
    while ref_open(exp) and k < len(nxt):
        exp += "\n" + nxt[k]
        k += 1
    if k:
        h.cover("continued")
    lines = ["Version: " + v] + nxt
    tags = Tags.parse(Section("package", data=lines))
    h.check(len(tags) == 1, "number of tags")
    h.check_eq(tags[0].value, exp, "value of a multiline tag")


def md_continuation(h):
    """A macro body continues while a macro in it is open or the line ends with a backslash."""
    c = h.cfg
    v = c["head"] + h.str("a", c["n"], exclude="\n \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000")
    nxt = [h.str("n%d" % i, k, exclude="\n#%\r\t \x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000") for i, k in enumerate(c["next"])]
    exp = v
    k = 0
    while (ref_open(exp) or exp.endswith("\\")) and k < len(nxt):
        exp += "\n" + nxt[k]
        k += 1
    mds = MacroDefinitions.parse(["%global m " + v] + nxt)
    h.check(len(mds) == 1, "number of macro definitions")
    h.check_eq(mds[0].body, exp, "body of a multiline macro definition")


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    for n in range(0, 6 + d):
        yield "scan", scan, {"s": [n]}
    for n in range(0, 5 + d):
        yield "scan", scan, {"s": ["%{", n, "}", 1]}
        yield "scan", scan, {"s": ["%{?a:", n, "}"]}
        yield "scan", scan, {"s": ["x%%", n]}
        yield "scan", scan, {"s": ["%(", n, ")"]}
    for n in range(0, 4 + d):
        yield "scan", scan, {"s": ["%a%%", n, "%b"]}
        yield "scan", scan, {"s": ["1.%{b}", n, "%%c%", 1]}
        yield "scan", scan, {"s": ["%", n, "%{!?x:%{y}", 1, "}"]}
        yield "scan", scan, {"s": ["%[", n, "]%", 1]}
    for n in range(0, 5):
        yield "split_conditional", split_conditional, {"s": [n]}
    for n in range(0, 4 + d):
        yield "split_conditional", split_conditional, {"s": ["%{?", n, ":x", 1, "}"]}
        yield "split_conditional", split_conditional, {"s": ["%{", n, "x:", 1, "}", 1]}
    for n in range(0, 5 + d):
        yield "brackets", brackets, {"s": [n]}
    for head in ("%{", "%(", "%(%{", "%{%("):
        for n in range(1, 4 + d):
            yield "brackets", brackets, {"s": [head, n]}
    for head in ("%{", "%(", "a%{(", "%%{", "%(%{", "%{%("):
        for n in range(0, 3 + d):
            yield "continuation", continuation, {"head": head, "n": n, "next": [1, 1]}
            yield "md_continuation", md_continuation, {"head": head, "n": n, "next": [1, 1]}
    yield "md_continuation", md_continuation, {"head": "b", "n": 2, "next": [2, 1]}


COVERS_ALL = ["unterminated", "parsed", "conditional", "split", "continued"]
BOUNDS = {
    "quick": 'values of up to 5 arbitrary characters, templates with nested, conditional and escaped macros with up to 4 arbitrary characters, values and bodies continued on up to 2 lines',
    "thorough": 'values of up to 6 arbitrary characters, templates with nested, conditional and escaped macros with up to 5 arbitrary characters, values and bodies continued on up to 2 lines',
}
ASSUMPTIONS = ["the reference is a scanner written from expandMacro(), matchchar() and the line continuation of readLine() in RPM's sources (not RPM itself, which is a C library)"]
