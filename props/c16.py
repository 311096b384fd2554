"""Views (context managers): nesting, sharing, write-back, exceptions, autosave, several instances."""
import contextlib

import rpm

from specfile.context_management import ContextManager

from props import _spec

TEXT = """# comment
%global m body
%if 1
%global n other
%endif
Name: a
Version: 1
Release: 2%{?dist}
URL: url
Source0: src
Patch0: pat

%description
text

%package sub
Summary: sum

%description sub
text of sub

%sourcelist
src1

%patchlist
pat1

%sourcelist
two

%patchlist
two

%prep
%setup -q -n dir

%changelog
* Mon Jan 01 2024 A <a@b> - 1-2
- change
"""


class Boom(Exception):
    pass


def section(s, name):
    return lambda: s.tags(next(x for x in s.sections().content if x.id == name))


# view: (how to open it, what to change, the text that changes, part of the file it may be combined with)
def e_lines(v, x):
    v[0] = "#" + x


def e_macros(v, x):
    v.m.body = x


def e_sections(v, x):
    v.description[0] = x


def e_tags(v, x):
    v.url.value = x


def e_sub(v, x):
    v.summary.value = x


def e_changelog(v, x):
    v[0].content[0] = "-" + x


def e_prep(v, x):
    v.macros[0].options.n = x


def e_sources(v, x):
    v[0].location = x


def e_sources_list(v, x):
    v[1].location = x


def e_patches(v, x):
    v[0].location = x


def e_patches_list(v, x):
    v[1].location = x


VIEWS = {
    "lines": (lambda s: s.lines(), e_lines, "# comment", "#"),
    "macro_definitions": (lambda s: s.macro_definitions(), e_macros, "%global m body", "%global m "),
    "sections": (lambda s: s.sections(), e_sections, "text", ""),
    "tags": (lambda s: s.tags(), e_tags, "URL: url", "URL: "),
    "sub": (lambda s: s.tags("package sub"), e_sub, "Summary: sum", "Summary: "),
    "changelog": (lambda s: s.changelog(), e_changelog, "- change", "-"),
    "prep": (lambda s: s.prep(), e_prep, "%setup -q -n dir", "%setup -q -n "),
    "sources": (lambda s: s.sources(), e_sources, "Source0: src", "Source0: "),
    "sources 1": (lambda s: s.sources(), e_sources_list, "src1", ""),
    "patches": (lambda s: s.patches(), e_patches, "Patch0: pat", "Patch0: "),
    "patches 1": (lambda s: s.patches(allow_duplicates=True), e_patches_list, "pat1", ""),
}
LEAVES = ["tags", "sub", "changelog", "prep", "sources", "sources 1", "patches", "patches 1"]
# what may be opened (and changed) inside of what; the rest would be two independent editors of the same lines
INSIDE = {
    "": list(VIEWS),
    "lines": list(VIEWS),
    "macro_definitions": ["macro_definitions"],
    "sections": ["sections"] + LEAVES,
    "tags": LEAVES,
    "sub": LEAVES,
    "changelog": LEAVES,
    "prep": LEAVES,
    "sources": [x for x in LEAVES if x != "sources 1"],
    "sources 1": LEAVES,
    "patches": [x for x in LEAVES if x != "patches 1"],
    "patches 1": [x for x in LEAVES if x != "patches"],
}
CHARS = "0123456789abcdefghijklmnopqrstuvwxyz"


class Run:
    def __init__(self, h, s):
        self.h = h
        self.s = s
        self.expected = {}
        self.n = 0
        self.open = {}

    def edit(self, view, value):
        self.n += 1
        x = str(self.n) + self.h.str("v%d" % self.n, 1, alphabet=CHARS)
        VIEWS[view][1](value, x)
        self.expected[view] = VIEWS[view][3] + x

    def level(self, outer, depth, views=None):
        h = self.h
        allowed = [v for v in INSIDE[outer] if views is None or v in views]
        # no second editor of the same lines further out
        for o in self.open:
            allowed = [v for v in allowed if v in INSIDE[o]]
        if not allowed:
            return
        view = h.one_of("view", allowed)
        key = "sources" if view == "sources 1" else view
        when = 3 if h.cfg.get("light") else h.choice("edit", 4)
        boom = Boom() if h.bool("raise") else None
        fresh = key not in self.open
        caught = None
        try:
            with VIEWS[view][0](self.s) as value:
                if fresh:
                    self.open[key] = value
                else:
                    h.check(value is self.open[key], "nested use of a view yields another object")
                    h.cover("same")
                try:
                    if when & 1:
                        self.edit(view, value)
                    if depth > 1:
                        self.level(view, depth - 1)
                        h.check(self.open[key] is value, "value of a view changed")
                    if when & 2:
                        self.edit(view, value)
                    if boom:
                        raise boom
                finally:
                    if fresh:
                        del self.open[key]
        except Boom as e:
            caught = e
        h.check(caught is boom, "an exception was lost or replaced")
        if boom:
            h.cover("exception")

    def text(self):
        lines = TEXT.split("\n")
        for view, line in self.expected.items():
            lines[TEXT.split("\n").index(VIEWS[view][2])] = line
        return "\n".join(lines)


def model():
    return _spec.SpecModel({"%{expr:1}": "1"})


def nested(h):
    """Any legitimate nesting of views: every edit is there in the end, nothing else changed."""
    c = h.cfg
    with _spec.spec(TEXT, model(), autosave=bool(c["autosave"])) as (s, path):
        r = Run(h, s)
        for i in range(c.get("times", 1)):
            r.level("", c["depth"], c.get("views"))
        h.check_eq(str(s), r.text(), "content after closing all views")
        h.check_eq(_spec.read(path), r.text() if c["autosave"] else TEXT, "content of the file")
        s.save()
        h.check_eq(_spec.read(path), r.text(), "content of the file after saving")
        s.reload()
        h.check_eq(str(s), r.text(), "content after reload")
        h.cover("nested")


def instances(h):
    """Two instances never share a view, even of the same file."""
    c = h.cfg
    with _spec.scratch() as d:
        rpm.install(model())
        from specfile.specfile import Specfile

        for n in ("a", "b"):
            _spec.write(d / n, TEXT)
        same = h.bool("same file")
        s = [Specfile(d / "a"), Specfile(d / ("a" if same else "b"))]
        r = [Run(h, x) for x in s]
        for x, y in zip(r, r[1:] + r[:1]):
            x.n = 10 * len(x.expected)
        v = h.one_of("v", c["views"])
        w = h.one_of("w", c["views"])
        with VIEWS[v][0](s[0]) as a:
            with VIEWS[w][0](s[1]) as b:
                h.check(a is not b, "two instances share a view")
                if h.bool("e0"):
                    r[0].edit(v, a)
                if h.bool("e1"):
                    r[1].n = 100
                    r[1].edit(w, b)
            h.check_eq(str(s[1]), r[1].text(), "content of the second instance")
            if h.bool("e2"):
                r[0].n = 200
                r[0].edit(v, a)
        h.check_eq(str(s[0]), r[0].text(), "content of the first instance")
        h.check_eq(str(s[1]), r[1].text(), "content of the second instance")
        h.cover("instances")


def content(h):
    """`content` and dropped contexts leave nothing open."""
    c = h.cfg
    view = c["view"]
    with _spec.spec(TEXT, model(), autosave=True) as (s, path):
        r = Run(h, s)
        how = h.choice("how", 5)
        kept = None
        if how == 0:
            value = VIEWS[view][0](s).content
        elif how == 4:
            kept = VIEWS[view][0](s)
            value = kept.content
        elif how == 1:
            VIEWS[view][0](s)
            value = None
        elif how == 2:
            with VIEWS[view][0](s) as outer:
                value = VIEWS[view][0](s).content
                h.check(value is outer, "content inside a view is another object")
                VIEWS[view][0](s)
                r.edit(view, value)
            h.check_eq(str(s), r.text(), "content after closing the view")
        else:
            ctx = VIEWS[view][0](s)
            with ctx as value:
                with VIEWS[view][0](s) as inner:
                    h.check(inner is value, "nested use of a view yields another object")
                    ctx2 = VIEWS[view][0](s)
                r.edit(view, value)
            # a context created earlier and used only now
            del ctx2
        h.check_eq(str(s), r.text(), "content after using a view without changes")
        with VIEWS[view][0](s) as again:
            if view != "lines":
                h.check(again is not value, "a view was left open")
            r.n = 5
            r.edit(view, again)
            h.check(str(s) != r.text() or view == "lines", "a view is written back before it is closed")
        h.check_eq(str(s), r.text(), "content after the next use")
        h.check_eq(_spec.read(path), r.text(), "content of the file")
        h.cover("content")


def setters(h):
    """Properties of Specfile used inside of an open view work with that view."""
    c = h.cfg
    x = "7" + h.str("x", 1, alphabet=CHARS)
    y = "8" + h.str("y", 1, alphabet=CHARS)
    with _spec.spec(TEXT, model()) as (s, path):
        r = Run(h, s)
        with VIEWS[c["view"]][0](s) as v:
            s.version = x
            h.check_eq(s.version, x, "version inside of a view")
            if c["view"] != "sections":
                s.url = y
            else:
                with s.tags() as t:
                    t.url.value = y
            if c["view"] == "tags":
                h.check_eq(v.version.value, x, "open view doesn't see the change")
                h.check_eq(v.url.value, y, "open view doesn't see the change")
            elif h.bool("edit"):
                r.edit(c["view"], v)
        want = r.text().replace("Version: 1\n", "Version: " + x + "\n").replace("URL: url\n", "URL: " + y + "\n")
        h.check_eq(str(s), want, "content after closing the view")
        h.check_eq(s.url, y, "URL")
        h.cover("setters")


def equal_sections(h):
    """Views of distinct sections are distinct even if the sections are equal."""
    a = h.str("a", 1, alphabet=CHARS)
    b = a if h.bool("equal") else h.str("b", 1, alphabet=CHARS)
    lines = ["Name: a", "%package x", "Summary: " + a, "%package x", "Summary: " + b, "%changelog", "* x", "-" + a, "%changelog", "* x", "-" + b]
    with _spec.spec("\n".join(lines) + "\n", model()) as (s, path):
        tags = h.bool("tags")
        lo, hi = (1, 2) if tags else (3, 4)
        with s.sections() as sections:
            fn = s.tags if tags else s.changelog
            with fn(sections[lo]) as t, fn(sections[hi]) as u:
                h.check(t is not u, "distinct sections share a view")
                with fn(sections[lo]) as again:
                    h.check(again is t, "nested use of a view yields another object")
                if tags:
                    u.summary.value = "new"
                    lines[4] = "Summary: new"
                else:
                    u[0].content[0] = "-new"
                    lines[10] = "-new"
                with fn(sections[hi]) as again:
                    h.check(again is u, "nested use of a view yields another object")
                if h.bool("first"):
                    if tags:
                        t.summary.value = "old"
                        lines[2] = "Summary: old"
                    else:
                        t[0].content[0] = "-old"
                        lines[7] = "-old"
        h.check_eq(str(s), "\n".join(lines) + "\n", "content after closing all views")
        h.cover("equal sections")


def missing(h):
    """Views of sections that don't exist: None or an error, and nothing is left open."""
    x = h.str("x", 1, alphabet=CHARS)
    text = "Name: " + x + "\n%description\n"
    with _spec.spec(text, model(), autosave=h.bool("autosave")) as (s, path):
        with s.changelog() as c:
            h.check(c is None, "changelog of a spec file without one")
            with s.prep() as p:
                h.check(p is None, "prep of a spec file without one")
        error = None
        try:
            with s.tags("package nonexistent"):
                pass
        except AttributeError as e:
            error = e
        h.check(error is not None, "no error for a section that doesn't exist")
        with s.sections() as sections:
            try:
                with s.tags("package nonexistent"):
                    pass
            except AttributeError:
                pass
            sections.description.append("line")
        with s.tags() as t:
            t.name.value = "n"
        h.check_eq(str(s), "Name: n\n%description\nline\n", "content")
        h.cover("missing")


class Viewed:
    @ContextManager
    def view(self, arg=0, *, key=0):
        self.log.append(("open", self.n, arg, key))
        try:
            yield [self.n, arg, key]
        finally:
            self.log.append(("close", self.n, arg, key))


def generic(h):
    """The decorator itself, on any function: set up once, torn down once, in the right order."""
    c = h.cfg
    log = []

    objs = []
    for i in range(2):
        o = Viewed()
        o.n = i
        o.log = log
        objs.append(o)
    open_ = []
    expected = []

    def go(depth):
        n = h.choice("obj", 2)
        arg = h.choice("arg", 2)
        key = h.choice("key", 2)
        boom = Boom() if h.bool("raise") else None
        ident = (n, arg, key)
        known = [v for k, v in open_ if k == ident]
        if not known:
            expected.append(("open",) + ident)
        caught = None
        try:
            with objs[n].view(arg, key=key) as v:
                if known:
                    h.check(v is known[0], "nested use yields another object")
                else:
                    h.check(all(v is not o for _, o in open_), "different arguments share a value")
                h.check_eq(v, list(ident), "value")
                open_.append((ident, v))
                try:
                    if depth > 1:
                        go(depth - 1)
                    if boom:
                        raise boom
                finally:
                    open_.pop()
        except Boom as e:
            caught = e
        h.check(caught is boom, "an exception was lost or replaced")
        if not known:
            expected.append(("close",) + ident)
        h.check_eq(log, expected, "order of opening and closing")

    for i in range(c["times"]):
        go(c["depth"])
    h.cover("generic")


def harnesses(tier):
    deep = tier == "thorough"
    for autosave in (0, 1):
        for v in VIEWS:
            yield "nested", nested, {"depth": 2, "autosave": autosave, "views": [v]}
            yield "nested", nested, {"depth": 1, "times": 2, "autosave": autosave, "views": [v, "lines", "tags"]}
    for v in ["lines", "sections"] + (LEAVES if deep else ["tags", "sources"]):
        yield "nested", nested, {"depth": 3, "autosave": 0, "views": [v], "light": not deep}
    views = list(VIEWS) if deep else ["lines", "macro_definitions", "sections", "tags", "sources", "changelog"]
    yield "instances", instances, {"views": views}
    for v in VIEWS:
        yield "content", content, {"view": v}
    for v in ("tags", "sections", "changelog", "prep", "sub"):
        yield "setters", setters, {"view": v}
    yield "equal_sections", equal_sections, {}
    yield "missing", missing, {}
    yield "generic", generic, {"depth": 2, "times": 1}
    yield "generic", generic, {"depth": 1, "times": 2}
    if deep:
        yield "generic", generic, {"depth": 3, "times": 1}


COVERS_ALL = ["nested", "same", "exception", "instances", "content", "setters", "equal sections", "missing", "generic"]
BOUNDS = {
    "quick": "every nesting of two of the 11 views (three, with all of the edits, for lines, sections, tags and sources), an edit before and after the inner view or none, exceptions at every level, autosave on and off; sequences of two views; two instances with any two of 6 views; values of two characters",
    "thorough": "three levels of nesting for all of the views",
}
ASSUMPTIONS = [
    "views are closed in the reverse order of opening (with statements)",
    "an inner view doesn't edit the lines that another open view (not lines or sections around it) edits independently, e.g. macro definitions inside of sections",
    "RPM is a stub that expands nothing",
]
