"""Equality of parts of a spec file agrees with their contents."""
import copy

import rpm

from specfile.exceptions import UnterminatedMacroException
from specfile.macros import Macro, MacroLevel
from specfile.options import Options
from specfile.sources import Sources
from specfile.specfile import Specfile
from specfile.tags import Comment
from specfile.value_parser import Node, ValueParser

from props import _spec
from props._lists import CHARS, KINDS, setup
from props.c11 import EDITS, edit_item, observe, undo


def equal(h, a, b, want, what):
    h.check((a == b) == want, what + ": ==")
    h.check((b == a) == want, what + ": == (reversed)")
    h.check((a != b) == (not want), what + ": !=")


def edited(h):
    kind, items, tail, lines, container, off = setup(h)
    other = kind.parse(list(lines)) if h.bool("parsed again") else copy.deepcopy(container)
    equal(h, container, other, True, "lists with the same content")
    i = h.choice("i", len(items))
    for foreign in (None, "x", 1, object()):
        h.check((container[i + off] == foreign) is False, "an item equals something else")
    y = h.str("y", 1, alphabet=CHARS)
    what = h.one_of("edit", EDITS[kind.name])
    before = observe(kind, container[i + off])
    style = getattr(container[i + off], "comment_out_style", None)
    if not edit_item(h, kind, container, i, container[i + off], what, y, observe(kind, container[i + off]), items):
        return
    got = kind.render(container)
    if got != lines and (kind.name != "prep" or observe(kind, container[i + off]) != before):
        equal(h, container[i + off], other[i + off], False, "items with different contents")
        equal(h, container, other, False, "lists with different contents")
        h.cover(kind.name + " different")
    elif got == lines:
        if kind.name != "macro definitions" or container[i + off].comment_out_style == style:
            equal(h, container[i + off], other[i + off], True, "items with the same contents")
            equal(h, container, other, True, "lists with the same contents")
            h.cover("the same")
    if undo(kind, container[i + off], what, before, style):
        equal(h, container, other, kind.render(container) == lines, "lists after changing an item back")
        h.cover("undone")


def items(h):
    """Two items of a list"""
    kind, items, tail, lines, container, off = setup(h)
    a, b = container[off], container[off + 1]
    equal(h, a, b, False, "different items")
    again = kind.parse(list(lines))
    if kind.name in ("sourcelist", "changelog"):
        # the others look for names
        h.check(b in again, "item is not in the list")
    h.check_eq(again.index(b), off + 1, "index of an item")
    h.check_eq(again.count(b), 1, "number of items")
    del container[off]
    equal(h, container, again, False, "a list with an item missing")
    h.cover("items")


PAIRS = {
    "tags": ["Name: a", "name: a", "Name:  a", "Name: b", "%{?x:Name: a}", "%{?y:Name: a}", "%{?x:Name: a} ", "Name: a ", "# c\nName: a", "#c\nName: a", "# d\nName: a", "Version: a"],
    "macro definitions": [
        "%global a 1", "%define a 1", "%global a 2", "%global b 1", "%global  a 1", "%global a  1", " %global a 1", "%dnl %global a 1", "#global a 1", "%dnl  %global a 1",
        "%global a() 1", "%global a 1 ", "x\n%global a 1", "%global a 1\\\n2", "%global a {1\n}",
    ],
    "sections": ["%package a", "%package  a", "%package -n a", "%files a", "%package a\nx", "%package a ", "%PACKAGE a"],
    "sourcelist": ["a", "b", "# c\na", "#c\na", "# d\na", "aa"],
    "changelog": ["* a\n- b", "* b\n- b", "* a\n- c", "* a\n- b\n", "* a\n- b\n- b"],
    "prep": ["%setup -q", "%setup  -q", "%setup -n a", "%autosetup -q", "%{?x:%setup -q}", "%{?y:%setup -q}", "%{?x:%setup -q} ", "%patch1", "%patch 1", "%patch -P 1", "%patch -P 2", "x\n%patch1", "%setup"],
}


def pairs(h):
    """Items that differ in nothing but one detail"""
    kind = KINDS[h.cfg["kind"]]
    rpm.install(_spec.SpecModel())
    texts = [h.one_of("text%d" % i, PAIRS[kind.name]) for i in range(2)]
    off = 1 if kind.name == "sections" else 0
    a, b = [kind.parse((["Name: n"] if off else []) + t.split("\n")) for t in texts]
    h.check(len(a) == off + 1 and len(b) == off + 1, "number of items")
    equal(h, a[off], b[off], texts[0] == texts[1], "items")
    equal(h, a, b, texts[0] == texts[1], "lists")
    h.cover("pairs")


def comments(h):
    """Looking up comments by text or as objects"""
    n = h.choice("n", 3)
    texts = [h.str("c%d" % i, 1, alphabet="ab") for i in range(n)]
    tags = KINDS["tags"].parse(["# " + t for t in texts] + ["Name: a"])
    c = tags[0].comments
    x = h.str("x", 1, alphabet="abc")
    h.check_eq(c.raw, texts, "texts of comments")
    h.check((x in c) == (x in texts), "text in comments")
    h.check((Comment(x, "# ") in c) == (x in texts), "comment in comments")
    h.check(Comment(x, "#") not in c, "comment with another prefix is in comments")
    h.check_eq(c.count(Comment(x, "# ")), texts.count(x), "number of comments")
    if x in texts:
        h.check_eq(c.index(Comment(x, "# ")), texts.index(x), "index of a comment")
        h.check_eq(c.index(x), texts.index(x), "index of a text")
    h.cover("comments")


def sources(h):
    """Sources are equal exactly if their contents and settings are"""
    rpm.install(_spec.SpecModel())

    def make(i):
        tags = KINDS["tags"].parse(["Source0: " + h.str("t%d" % i, 1, alphabet="ab")])
        lists = [KINDS["sourcelist"].parse([h.str("l%d" % i, 1, alphabet="ab")])]
        flags = [h.bool("duplicates%d" % i), h.bool("implicit%d" % i), 1 + h.choice("digits%d" % i, 2)]
        return Sources(tags, lists, *flags), [tags[0].value, lists[0][0].location] + flags

    (a, ka), (b, kb) = make(0), make(1)
    equal(h, a, b, ka == kb, "sources")
    equal(h, a[0], b[0], ka[0] == kb[0], "tag sources")
    equal(h, a[1], b[1], ka[1] == kb[1], "list sources")
    equal(h, a[0], b[1], False, "different kinds of sources")
    h.cover("sources")


def nodes(h):
    c = h.cfg
    texts = []
    for i in range(2):
        texts.append("".join(p if isinstance(p, str) else h.str("s%d" % i, p, exclude=" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000") for p in c["t%d" % i]))
    try:
        a, b = [ValueParser.parse(t) for t in texts]
    except UnterminatedMacroException:
        return
    same = texts[0] == texts[1]
    h.check((a == b) == same, "equality of parsed values differs from equality of their texts")
    h.check((a != b) == (not same), "inequality of parsed values")
    if len(a) == 1 and len(b) == 1:
        equal(h, a[0], b[0], same, "nodes")
        h.cover("equal nodes" if same else "different nodes")


def options(h):
    """Options are equal exactly if they mean the same"""
    def gen(i):
        items = []
        for k in range(h.cfg["n"]):
            items.append(h.one_of("o%d.%d" % (i, k), ["-q", "-T", "-n a", "-na", "-n 'a'", "-n b", "a", "b", '"b"', "-p1", "-p2", "1"]))
        return items

    a, b = gen(0), gen(1)
    for x in (a, b):
        kinds = [t[:2] for t in x if t.startswith("-")]
        h.assume(len(set(kinds)) == len(kinds))

    def meaning(items):
        opts = sorted(t.replace("'", "").replace(" ", "") for t in items if t.startswith("-"))
        pos = [t.replace('"', "") for t in items if not t.startswith("-")]
        return opts, pos

    oa, ob = [Options(Options.tokenize(" ".join(x)), "qTn:p:") for x in (a, b)]
    same = meaning(a) == meaning(b)
    equal(h, oa, ob, same, "options")
    h.cover("equal options" if same else "different options")


def simple(h):
    """Macro, Comment"""
    f = [h.str("f%d" % i, 1, alphabet="ab") for i in range(4)]
    k = [h.choice("k%d" % i, 3) for i in range(2)]
    m = [Macro("n" + f[2 * i], [None, "", "(x)"][k[i]], f[2 * i + 1], MacroLevel.SPEC if i == 0 or h.bool("level") else MacroLevel.GLOBAL, i == 0 or h.bool("used")) for i in range(2)]
    same = (m[0].name, m[0].options, m[0].body, m[0].level, m[0].used) == (m[1].name, m[1].options, m[1].body, m[1].level, m[1].used)
    equal(h, m[0], m[1], same, "macros")
    if same:
        h.cover("equal macros")
        h.check(hash(m[0]) == hash(m[1]), "hashes of equal macros")
    c = [Comment(f[2 * i], f[2 * i + 1]) for i in range(2)]
    equal(h, c[0], c[1], f[0] == f[2] and f[1] == f[3], "comments")


def specfiles(h):
    """Instances are equal exactly if their files, contents and settings are"""
    rpm.install(_spec.SpecModel())
    text = ["Name: ", "\nVersion: 1\n"]
    values = [h.str("v%d" % i, 1, alphabet=CHARS) for i in range(2)]
    with _spec.spec(text[0] + values[0] + text[1]) as (a, path):
        b = copy.deepcopy(a)
        equal(h, a, b, True, "copies")
        diff = h.one_of("difference", ["none", "value", "autosave", "macros", "force", "sourcedir", "path", "final newline"])
        same = diff == "none"
        if diff == "value":
            b.name = values[1]
            same = values[0] == values[1]
        elif diff == "autosave":
            b.autosave = not a.autosave
        elif diff == "macros":
            b.macros.append(("m", "1"))
        elif diff == "force":
            b.force_parse = not a.force_parse
        elif diff == "sourcedir":
            b.sourcedir = path.parent / "x"
        elif diff == "path":
            b.path = path.parent / "other.spec"
        elif diff == "final newline":
            _spec.write(path, text[0] + values[0] + text[1].rstrip("\n"))
            b = Specfile(path)
        equal(h, a, b, same, "instances, different: " + diff)
        h.check((a == str(a)) is False, "an instance equals a string")
        h.cover("specfile")


def harnesses(tier):
    deep = tier == "thorough"
    for k in KINDS:
        for n in (1, 2) if deep or k != "tags" else (1,):
            yield "edited", edited, {"kind": k, "n": n, "before": None if deep or n < 2 else 2}
        yield "items", items, {"kind": k, "n": 2, "before": None if deep else 3}
    for i in range(0, 3 + deep):
        for j in range(0, i + 1):
            yield "nodes", nodes, {"t0": [i], "t1": [j]}
    T = [["%{", 2, "}"], ["%", 2], ["%[", 2, "]"], ["%(", 2, ")"], ["%{?", 2, ":a}"], ["%{?a:", 2, "}"], ["%{a:", 2, "}"]]
    for i, t in enumerate(T):
        for u in T[i:]:
            yield "nodes", nodes, {"t0": t, "t1": u}
    for n in (1, 2) + ((3,) if deep else ()):
        yield "options", options, {"n": n}
    for k in KINDS:
        yield "pairs", pairs, {"kind": k}
    yield "comments", comments, {}
    yield "sources", sources, {}
    yield "simple", simple, {}
    yield "specfiles", specfiles, {}


COVERS_ALL = [k + " different" for k in KINDS] + ["the same", "undone", "items", "equal nodes", "different nodes", "equal options", "different options", "equal macros", "specfile", "pairs", "comments", "sources"]
BOUNDS = {
    "quick": "lists of 1 or 2 items of all 6 kinds with 33 kinds of changes; pairs of 5 to 15 forms of a single item; sources; comments; pairs of parsed values of 2 arbitrary characters, also inside of 7 kinds of macros; pairs of options of up to 2 items of 12; macros and comments with 2 different values of each attribute; Specfile with 6 kinds of differences",
    "thorough": "as quick with all kinds of lines in between, values of 3 characters and options of 3 items",
}
ASSUMPTIONS = [
    "lines after the last item of a list and validity of items are not part of equality",
    "options are equal if they mean the same, regardless of quoting and order",
    "whitespace in macro references is not considered",
]
