"""The list-like parts of a spec file, described by the lines their items consist of."""
import rpm

from specfile.changelog import Changelog, ChangelogEntry
from specfile.macro_definitions import CommentOutStyle, MacroDefinition, MacroDefinitions
from specfile.prep import PatchMacro, Prep
from specfile.options import Options
from specfile.sections import Section, Sections
from specfile.sourcelist import Sourcelist, SourcelistEntry
from specfile.tags import Comments, Tag, Tags

from props import _spec

CHARS = "0123456789abcdefghijklmnopqrstuvwxyz"


class Kind:
    """
    own: lines of an item that belong to it
    before: lines that may come before an item and don't belong to any
    """

    before = [[], ["", "text"], ["%endif"], ["%if 1"], ["%endif", "", "%if 0"], [""], ["text"]]
    exact = True

    def text(self, items, tail):
        """items: list of (lines before, own lines)"""
        lines = []
        for pre, own in items:
            lines += pre + own
        return lines + tail


class MacroDefinitionsKind(Kind):
    name = "macro definitions"

    def own(self, i, x, form=0):
        return [
            ["%global m" + str(i) + " " + x],
            ["%define m" + str(i) + " {\\", x + "}"],
            ["%dnl %global m" + str(i) + " " + x],
            ["#global m" + str(i) + " " + x],
        ][form]

    forms = 4

    def parse(self, lines):
        return MacroDefinitions.parse(lines)

    def render(self, c):
        return c.get_raw_data()

    def label(self, item):
        return item.name

    def label_of(self, i):
        return "m" + str(i)

    def new(self, i, x):
        return MacroDefinition("m" + str(i), x, True, False, CommentOutStyle.DNL, ("", " ", " ", ""))


class TagsKind(Kind):
    name = "tags"
    exact = False
    forms = 4

    def own(self, i, x, form=0):
        return [
            ["Source" + str(i) + ": " + x],
            ["# comment", "Source" + str(i) + ":  " + x],
            ["%{?y:Source" + str(i) + ": " + x + "}"],
            ["# a", "#b", "Source" + str(i) + ": %{expand:", x + "}"],
        ][form]

    def parse(self, lines):
        return Tags.parse(Section("package", data=lines))

    def render(self, c):
        return c.get_raw_section_data()

    def label(self, item):
        return item.name

    def label_of(self, i):
        return "Source" + str(i)

    def new(self, i, x):
        return Tag("Source" + str(i), x, ": ", Comments())


class SourcelistKind(Kind):
    name = "sourcelist"
    forms = 2
    before = [[], [""], ["", ""], ["# c", ""]]

    def own(self, i, x, form=0):
        return [[str(i) + x], ["# comment", " #b", str(i) + x]][form]

    def parse(self, lines):
        return Sourcelist.parse(Section("sourcelist", data=lines))

    def render(self, c):
        return c.get_raw_section_data()

    def label(self, item):
        return item.location[0]

    def label_of(self, i):
        return str(i)

    def new(self, i, x):
        return SourcelistEntry(str(i) + x, Comments())


class PrepKind(Kind):
    name = "prep"
    forms = 3

    def own(self, i, x, form=0):
        return [["%patch" + str(i) + " -b " + x], ["%patch " + str(i) + "  -b '" + x + "'"], ["%{?y:%patch -P " + str(i) + " -b " + x + "}"]][form]

    def parse(self, lines):
        return Prep.parse(Section("prep", data=lines)).macros

    def render(self, c):
        return c.get_raw_data()

    def label(self, item):
        return item.number

    def label_of(self, i):
        return i

    def new(self, i, x):
        return PatchMacro("%patch" + str(i), Options([], PatchMacro.OPTSTRING, PatchMacro.DEFAULTS), " ")


class SectionsKind(Kind):
    name = "sections"
    forms = 3
    before = [[]]

    def text(self, items, tail):
        return ["Name: a"] + super().text(items, tail)

    def own(self, i, x, form=0):
        return [["%package p" + str(i), x], ["%files  p" + str(i), "", x, ""], ["%description p" + str(i)]][form]

    def parse(self, lines):
        rpm.install(_spec.SpecModel())
        return Sections.parse(lines)

    def render(self, c):
        return c.get_raw_data()

    def label(self, item):
        return item.id.split()[-1]

    def label_of(self, i):
        return "p" + str(i)

    def new(self, i, x):
        return Section("package", Options(Options.tokenize("p" + str(i))), " ", data=[x])


class ChangelogKind(Kind):
    """The last item comes first in the text."""

    name = "changelog"
    forms = 2
    before = [[], [""], ["", ""]]

    def text(self, items, tail):
        lines = list(tail)
        for pre, own in reversed(items):
            lines += own + pre
        return lines

    def own(self, i, x, form=0):
        return [["* head " + str(i), "- " + x], ["* head " + str(i), "- " + x, "", "  more"]][form]

    def parse(self, lines):
        return Changelog.parse(Section("changelog", data=lines))

    def render(self, c):
        return c.get_raw_section_data()

    def label(self, item):
        return item.header

    def label_of(self, i):
        return "* head " + str(i)

    def new(self, i, x):
        return ChangelogEntry("* head " + str(i), ["- " + x])


KINDS = {k.name: k for k in (MacroDefinitionsKind(), TagsKind(), SourcelistKind(), PrepKind(), SectionsKind(), ChangelogKind())}


def setup(h):
    """An instance of the list with n items; returns (kind, items, tail, container)"""
    c = h.cfg
    kind = KINDS[c["kind"]]
    rpm.install(_spec.SpecModel({"%{expr:1}": "1", "%{expr:0}": "0"}))
    items = []
    for i in range(c["n"]):
        x = h.str("x%d" % i, 1, alphabet=CHARS)
        form = h.choice("form%d" % i, kind.forms)
        pre = h.one_of("before%d" % i, kind.before[: c.get("before")])
        items.append((list(pre), kind.own(i, x, form)))
    tail = h.one_of("tail", [[], [""], ["text"]][: c.get("before")]) if kind.name not in ("sourcelist", "sections") else []
    lines = kind.text(items, list(tail))
    container = kind.parse(list(lines))
    offset = 1 if kind.name == "sections" else 0
    h.check_eq(len(container), c["n"] + offset, "number of items")
    h.check_eq(kind.render(container), lines, "lines of an unchanged list")
    return kind, items, list(tail), lines, container, offset


def nonblank(lines):
    return [x for x in lines if x != ""]
