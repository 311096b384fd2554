"""Inserting items adds exactly their lines at the requested place of the list."""
from specfile.macro_definitions import CommentOutStyle, MacroDefinition
from specfile.prep import PatchMacro, Prep
from specfile.sections import Section
from specfile.sourcelist import SourcelistEntry
from specfile.changelog import ChangelogEntry
from specfile.options import Options
from specfile.tags import Comments, Tag

from props._lists import KINDS, setup


def new_item(h, kind, i, k):
    """Returns a new item number i and its lines."""
    x = h.str("new" + str(k), 1, alphabet="0123456789abcdefghijklmnopqrstuvwxyz")
    form = h.choice("newform" + str(k), 2)
    n = str(i)
    if kind.name == "macro definitions":
        if form:
            return MacroDefinition("m" + n, "{\\\n" + x + "}", False, False, CommentOutStyle.DNL, ("", " ", " ", "")), ["%define m" + n + " {\\", x + "}"]
        return MacroDefinition("m" + n, x, True, True, CommentOutStyle.DNL, ("", " ", " ", "")), ["%dnl%global m" + n + " " + x]
    if kind.name == "tags":
        if form:
            return Tag("Source" + n, x, ":   ", Comments.parse(["# new", "#2"])), ["# new", "#2", "Source" + n + ":   " + x]
        return Tag("Source" + n, x, ": ", Comments()), ["Source" + n + ": " + x]
    if kind.name == "sourcelist":
        if form:
            return SourcelistEntry(n + x, Comments.parse(["# new"])), ["# new", n + x]
        return SourcelistEntry(n + x, Comments()), [n + x]
    if kind.name == "prep":
        options = Options(Options.tokenize("-b " + x), PatchMacro.OPTSTRING, PatchMacro.DEFAULTS)
        if form:
            return PatchMacro("%patch" + n, Options([], PatchMacro.OPTSTRING, PatchMacro.DEFAULTS), ""), ["%patch" + n]
        return PatchMacro("%patch" + n, options, " "), ["%patch" + n + " -b " + x]
    if kind.name == "sections":
        if form:
            return Section("description", Options(Options.tokenize("p" + n)), " ", data=[]), ["%description p" + n]
        return Section("package", Options(Options.tokenize("p" + n)), " ", data=[x, ""]), ["%package p" + n, x, ""]
    if form:
        return ChangelogEntry("* head " + n, ["- " + x]), ["* head " + n, "- " + x]
    return ChangelogEntry("* head " + n, ["- " + x, "", "- b"], [""]), ["* head " + n, "- " + x, "", "- b", ""]


def depths(lines):
    """Depth of conditions after each line"""
    d = 0
    result = [0]
    for line in lines:
        if line.lstrip().startswith("%if"):
            d += 1
        elif line.lstrip().startswith("%endif"):
            d -= 1
        result.append(d)
    return result


def own_spans(kind, items, off):
    """Positions of own lines of items in the text"""
    spans = []
    pos = off
    for pre, own in items:
        pos += len(pre)
        spans.append((pos, pos + len(own)))
        pos += len(own)
    return spans


def insert(h):
    kind, items, tail, lines, container, off = setup(h)
    n = len(items)
    how = h.one_of("how", ["insert", "append", "extend", "iadd", "extend other"])
    item, own = new_item(h, kind, 8, 0)
    news = [(item, own)]
    order = list(range(n))
    if how == "insert":
        i = h.one_of("i", list(range(-n - off - 1, n + off + 2)))
        full = list(range(-off, n))
        full.insert(i, 8)
        if off and full[0] != -1:
            return
        order = full[off:]
        container.insert(i, item)
    elif how == "append":
        container.append(item)
        order.append(8)
    else:
        item2, own2 = new_item(h, kind, 9, 1)
        news.append((item2, own2))
        order += [8, 9]
        if how == "extend":
            container.extend([item, item2])
        elif how == "iadd":
            container += [item, item2]
        else:
            other = kind.parse(kind.text([], [])) if not off else None
            if other is None:
                return
            other.append(item)
            other.append(item2)
            container.extend(other)
    h.check_eq(len(container), n + off + len(news), "number of items")
    got = kind.render(container)
    again = kind.parse(list(got))
    h.check_eq([kind.label(x) for x in again][off:], [kind.label_of(i) for i in order], "order of items")
    rest = list(got)
    for item, own in news:
        head = next(l for l in own if not l.startswith("# new") and not l == "#2")
        at = rest.index(head) - own.index(head)
        h.check_eq(rest[at : at + len(own)], own, "lines of the new item")
        del rest[at : at + len(own)]
    h.check_eq(rest, lines, "lines other than those of the new items")
    if kind.name == "tags":
        spans = own_spans(kind, items, off)
        where = order.index(8)
        start = spans[where - 1][1] if where else 0
        end = spans[where][0] if where < n else len(lines)
        lowest = min(depths(lines)[start : end + 1])
        h.check_eq(depths(got)[got.index(news[0][1][-1])], lowest, "depth of conditions around the new tag")
    if kind.exact and how == "insert":
        # and deleting it again
        del container[order.index(8) + off]
        if kind.name != "changelog":
            h.check_eq(kind.render(container), lines, "lines after deleting the new item again")
    h.cover(how)
    h.cover(kind.name)


def patch_macro(h):
    """Prep.add_patch_macro() and remove_patch_macro()"""
    lines = []
    few = 1 if h.cfg["n"] > 1 and not h.cfg.get("deep") else 4
    numbers = []
    for i in range(h.cfg["n"]):
        lines += h.one_of("before%d" % i, [[], ["%endif"], ["%if 1", ""]][: few])
        number = h.one_of("number%d" % i, [0, 2, 10, 1, 5][: few + 1])
        lines.append(h.one_of("form%d" % i, ["%%patch%d -p1", "%%patch -P %d", " %%patch %d  -b .x", "%%{?y:%%patch -P%d}"][: few + 1]) % number)
        numbers.append(number)
    lines += h.one_of("after", [[], ["make", "%autosetup -N"]])
    autosetup = h.bool("autosetup first")
    if autosetup:
        lines.insert(0, "%autosetup -N")
    prep = Prep.parse(Section("prep", data=lines))

    def read(prep):
        return [m.number for m in prep.macros if isinstance(m, PatchMacro)]

    h.check_eq(read(prep), numbers, "numbers before")
    if h.bool("remove"):
        number = h.one_of("number", [0, 1, 2, 3])
        prep.remove_patch_macro(number)
        want = list(numbers)
        want_lines = list(lines)
        if number in numbers:
            at = numbers.index(number)
            del want[at]
            del want_lines[[j for j, l in enumerate(lines) if "patch" in l][at]]
        h.check_eq(prep.get_raw_section_data(), want_lines, "lines after removal")
        h.check_eq(read(Prep.parse(Section("prep", data=prep.get_raw_section_data()))), want, "numbers after removal")
        h.cover("remove_patch_macro")
        return
    number = h.one_of("number", [None, 0, 1, 3, 9, 12])
    old = number is not None and h.bool("old style")
    x = h.str("x", 1, alphabet="0123456789abcdefghijklmnopqrstuvwxyz")
    kwargs = h.one_of("options", [{}, {"p": 1}, {"p": 2, "b": "." + x, "R": True}])
    prep.add_patch_macro(number, old, **kwargs)
    got = prep.get_raw_section_data()
    again = Prep.parse(Section("prep", data=got))
    h.check_eq(read(again), read(prep), "numbers when read again")
    value = number or 0
    h.check_eq(sorted(read(again)), sorted(numbers + [value]), "numbers after adding")
    if numbers == sorted(set(numbers)):
        h.check_eq(read(again), sorted(numbers + [value]), "order of numbers")
    new = [i for i, l in enumerate(got) if got[:i] + got[i + 1 :] == lines]
    h.check(bool(new), "other lines changed")
    # the lines around may be equal to the new one
    added = [m for l in [got[new[0]]] for m in Prep.parse(Section("prep", data=[l])).macros]
    h.check_eq(len(added), 1, "number of macros on the new line")
    h.check_eq(added[0].number, value, "number of the new macro")
    h.check_eq(dict(added[0].options), kwargs, "options of the new macro")
    h.check_eq(added[0].name, "%patch" + str(number) if old else "%patch", "name of the new macro")
    h.cover("add_patch_macro")


def harnesses(tier):
    deep = tier == "thorough"
    for k in KINDS:
        small = k in ("sourcelist", "sections")
        for n in (0, 1, 2) + ((3,) if deep or small else ()):
            yield "insert", insert, {"kind": k, "n": n, "before": None if deep or n < 2 else 5 if k == "tags" else 3}
    for n in (0, 1, 2) + ((3,) if deep else ()):
        yield "patch_macro", patch_macro, {"n": n, "deep": deep}


COVERS_ALL = list(KINDS) + ["add_patch_macro", "remove_patch_macro", "insert", "append", "extend", "iadd", "extend other"]
BOUNDS = {
    "quick": "lists of up to 2 (list entries and sections: 3) items of all 6 kinds, 2 to 4 forms of an item, up to 7 kinds of lines in between (conditions, comments, empty lines, text), 2 forms of each new item, all indices (also negative and out of range), insert, append, extend with a list or another container, +=; add_patch_macro() and remove_patch_macro() with up to 2 %patch macros in 4 forms",
    "thorough": "up to 3 items of all kinds",
}
ASSUMPTIONS = [
    "texts of items are one arbitrary alphanumeric character (the way contents are parsed is covered by C02 to C07)",
    "only tags are kept out of condition blocks, other items follow the previous item immediately",
]
