"""Copies are equal and independent."""
import copy

import rpm

from specfile.changelog import Changelog
from specfile.options import Options
from specfile.sections import Section
from specfile.tags import Comments, Tag, Tags
from specfile.sourcelist import Sourcelist, SourcelistEntry

from props import _spec
from props._lists import CHARS, KINDS, setup
from props.c11 import EDITS, edit_item, observe
from props.c13 import new_item


def change(h, kind, container, items, off):
    """Changes the container in one way or another, returns what was done"""
    how = h.one_of("how", ["edit", "insert", "delete", "append"])
    n = len(items)
    if how == "edit":
        i = h.choice("i", n)
        y = h.str("y", 1, alphabet=CHARS)
        edit = h.one_of("edit", EDITS[kind.name])
        edit_item(h, kind, container, i, container[i + off], edit, y, observe(kind, container[i + off]), items)
    elif how == "delete":
        del container[h.choice("i", n) + off]
    else:
        item, own = new_item(h, kind, 8, 0)
        if how == "insert":
            container.insert(h.choice("i", n) + off, item)
        else:
            container.append(item)
    return how


def deep(h):
    kind, items, tail, lines, container, off = setup(h)
    clone = copy.deepcopy(container)
    h.check_eq(kind.render(clone), lines, "lines of the copy")
    h.check_eq([observe(kind, x) for x in clone], [observe(kind, x) for x in container], "items of the copy")
    h.check(clone == container, "copy is not equal")
    changed, other = (clone, container) if h.bool("change the copy") else (container, clone)
    before = [observe(kind, x) for x in other]
    how = change(h, kind, changed, items, off)
    h.check_eq(kind.render(other), lines, "lines of the other one after " + how)
    h.check_eq([observe(kind, x) for x in other], before, "items of the other one after " + how)
    h.cover(kind.name)
    h.cover(how)


def shallow(h):
    """A shallow copy is another list of the same items."""
    kind, items, tail, lines, container, off = setup(h)
    clone = container.copy() if h.bool("method") else copy.copy(container)
    h.check(type(clone) is type(container), "class of the copy")
    h.check_eq(len(clone), len(container), "number of items of the copy")
    h.check(all(x is y for x, y in zip(clone, container)), "items of the copy")
    h.check_eq(kind.render(clone), lines, "lines of the copy")
    item, own = new_item(h, kind, 8, 0)
    changed, other = (clone, container) if h.bool("change the copy") else (container, clone)
    n = len(other)
    last = container[n - 1]
    if h.bool("delete"):
        # there is no following item to change
        del changed[n - 1]
        h.check_eq(len(changed), n - 1, "number of items")
        h.check_eq(kind.render(other), lines, "lines of the other one")
        changed.append(last)
    changed.append(item)
    h.check_eq(len(other), n, "number of items of the other one")
    h.check(other[n - 1] is last, "last item of the other one")
    h.check_eq(len(changed), n + 1, "number of items")
    if kind.name == "sections":
        section = container[len(items) - 1 + off]
        twin = section.copy() if h.bool("method2") else copy.copy(section)
        content = list(section)
        twin.append("new")
        h.check_eq(list(section), content, "lines of a section after a change of its copy")
        h.check_eq(list(twin), content + ["new"], "lines of the copy of a section")
        h.check_eq(twin.id, section.id, "ID of the copy of a section")
    h.cover("shallow")


def shallow_changelog(h):
    """Texts before entries are not shared either."""
    lines = ["text", "* a", "- b", h.str("x", 1, alphabet=" \t"), h.str("y", 1, alphabet=" x"), "", "* c", "- d"]
    container = Changelog.parse(Section("changelog", data=list(lines)))
    clone = container.copy() if h.bool("method") else copy.copy(container)
    changed, other = (clone, container) if h.bool("change the copy") else (container, clone)
    del changed[len(changed) - 1]
    h.check_eq(other.get_raw_section_data(), lines, "lines of the other one")
    h.check_eq(len(other), 2, "number of items of the other one")
    h.cover("shallow changelog")


def source(h):
    """What a container is made of is not changed with it."""
    kind, items, tail, lines, _, off = setup(h)
    given = list(lines)
    container = kind.parse(given)
    how = change(h, kind, container, items, off)
    h.check_eq(list(given), lines, "lines that were parsed after " + how)
    again = kind.parse(list(given))
    h.check_eq(kind.render(again), lines, "lines parsed again")


def comments(h):
    """Items made with the same comments don't share them."""
    x = h.str("x", 1, alphabet=CHARS)
    common = Comments.parse(h.one_of("lines", [[], ["# a"], ["text", "", "# a"]]))
    if h.bool("tags"):
        a, b = Tag("Source1", x, ": ", common), Tag("Source2", x, ": ", common)
        container = Tags([Tag("Name", x, ": ", Comments([], ["%if 1", "text"])), a])
        render = container.get_raw_section_data
        mine = lambda: b.comments.get_raw_data()
    else:
        a, b = SourcelistEntry("a" + x, common), SourcelistEntry("b" + x, common)
        container = Sourcelist([SourcelistEntry("n", Comments([], ["", "# c"])), a])
        render = container.get_raw_section_data
        mine = lambda: b.comments.get_raw_data()
    before = list(mine())
    how = h.one_of("how", ["delete previous", "append", "clear", "insert"])
    if how == "delete previous":
        del container[0]
    elif how == "append":
        a.comments.append(x)
    elif how == "clear":
        a.comments.clear()
    else:
        a.comments.insert(0, x)
    h.check_eq(mine(), before, "comments of the other item after " + how)
    h.check_eq(common.get_raw_data(), before, "comments both were made with after " + how)
    h.cover("comments")


def options(h):
    tokens = Options.tokenize(h.one_of("options", ["-p1 -b x", "a b", "-b 'q w'  z"]))
    a = Options(tokens, "p:b:R")
    b = Options(tokens, "p:b:R") if h.bool("same tokens") else copy.deepcopy(a)
    before = str(b)
    x = h.str("x", 1, alphabet=CHARS)
    how = h.one_of("how", ["set", "positional", "new", "delete", "replace"])
    if how == "set":
        h.assume(a.b is not None)
        a.b = x
    elif how == "positional":
        a.positional.append(x)
    elif how == "new":
        a.R = True
    elif how == "delete":
        del a.b
    else:
        if not a.positional:
            return
        a.positional[0] = x
    h.check_eq(str(b), before, "other options after " + how)
    h.cover("options")


def made(h):
    """Sections don't share what they were made with."""
    x = h.str("x", 1, alphabet=CHARS)
    data = ["a", x]
    common = Options(Options.tokenize("-n q w"), "n:")
    a = Section("package", common, " ", data=data)
    b = Section("package", common, " ", data=data) if h.bool("made") else a[:]
    how = h.one_of("how", ["lines", "given lines", "option", "positional", "given options"])
    if how == "lines":
        a.append("new")
        h.check_eq(list(a), ["a", x, "new"], "lines that were changed")
    elif how == "given lines":
        data.append("new")
        h.check_eq(list(a), ["a", x], "lines after changing the ones it was made with")
    elif how == "option":
        a.options.n = x
    elif how == "positional":
        a.options.positional.append(x)
    else:
        common.n = x
        h.check_eq(a.id, "package -n q w", "ID after changing options it was made with")
    h.check_eq(list(b), ["a", x], "lines of the other section after " + how)
    h.check_eq(b.id, "package -n q w", "ID of the other section after " + how)
    if how != "given lines":
        h.check_eq(data, ["a", x], "lines it was made with after " + how)
    if how != "given options":
        h.check_eq(str(common), "-n q w", "options it was made with after " + how)
    h.cover("made")


def specfile(h):
    x = h.str("x", 1, alphabet=CHARS)
    text = "%global m " + x + "\nName: a\nVersion: %{m}\nRelease: 1\nSource0: s\n\n%description\n\n%prep\n%autosetup\n\n%changelog\n* head\n- a\n"
    with _spec.spec(text, macros=[("e", "1")]) as (spec, path):
        if h.bool("parse first"):
            spec.expand("%m")
        clone = copy.deepcopy(spec) if h.bool("deep") else None
        if clone is None:
            clone = copy.deepcopy(copy.deepcopy(spec))
        h.check_eq(str(clone), text, "text of the copy")
        h.check(clone == spec, "copy is not equal")
        changed, other = (clone, spec) if h.bool("change the copy") else (spec, clone)
        how = h.one_of("how", ["version", "macro", "lines", "changelog", "source", "section", "macros", "sourcedir"])
        if how == "version":
            changed.version = "2"
        elif how == "macro":
            with changed.macro_definitions() as mds:
                mds.m.body = "55"
        elif how == "lines":
            with changed.lines() as lines:
                del lines[0]
        elif how == "changelog":
            with changed.changelog() as changelog:
                changelog[0].content.append("- b")
        elif how == "source":
            with changed.sources() as sources:
                sources.append("t")
        elif how == "section":
            with changed.sections() as sections:
                sections.prep.append("x")
        elif how == "macros":
            changed.macros.append(("f", "2"))
        else:
            changed.sourcedir = path.parent / "other"
        h.check_eq(str(other), text, "text of the other one after " + how)
        h.check_eq(list(other.macros), [("e", "1")], "macros of the other one after " + how)
        h.check_eq(str(other.sourcedir), str(path.parent), "source directory of the other one after " + how)
        if how not in ("macros", "sourcedir"):
            h.check(str(changed) != text, "nothing was changed")
        h.cover("specfile: " + how)


def harnesses(tier):
    more = tier == "thorough"
    for k in KINDS:
        for n in (1, 2):
            yield "deep", deep, {"kind": k, "n": n, "before": None if more else 2}
            yield "shallow", shallow, {"kind": k, "n": n, "before": 2}
            if k in ("macro definitions", "sections"):
                # other kinds are made of sections, which are written back only when a view is closed (C16)
                yield "source", source, {"kind": k, "n": n, "before": None if more else 2}
    yield "shallow_changelog", shallow_changelog, {}
    yield "comments", comments, {}
    yield "made", made, {}
    yield "options", options, {}
    yield "specfile", specfile, {}


COVERS_ALL = list(KINDS) + ["edit", "insert", "delete", "append", "comments", "options", "made", "shallow"] + ["specfile: " + x for x in ["version", "macro", "lines", "changelog", "source", "section", "macros", "sourcedir"]]
BOUNDS = {
    "quick": "deep and shallow copies of lists of 1 or 2 items of all 6 kinds (2 to 4 forms each, 2 kinds of lines in between), 35 kinds of changes of either of both; two items made with the same comments; options; Specfile with 8 kinds of changes",
    "thorough": "all kinds of lines in between",
}
ASSUMPTIONS = ["shallow copies of containers share their items, hence they are only checked to be lists of their own"]
