"""Numbers of sources and patches and operations with them."""
import re

import rpm

from specfile.exceptions import DuplicateSourceException
from specfile.sections import Section
from specfile.sourcelist import Sourcelist
from specfile.sources import Patches, Sources
from specfile.tags import Tags

from props import _spec

CHARS = "abcdefghijklmnopqrstuvwxyz"
OTHER = [[], ["%endif", "", "# c"], ["SourceLicense: u"], ["", "%if 1"], ["# c"], ["Epoch: 1", "", "# c"]]


def rpm_numbers(names, prefix, listed):
    """Numbers as assigned by RPM"""
    last = -1
    result = []
    for name in names:
        digits = name[len(prefix) :]
        last = int(digits) if digits else last + 1
        result.append(last)
    for _ in range(listed):
        last += 1
        result.append(last)
    return result


def document(h):
    """Returns (class, other prefix, tag lines, list of lists of lines)"""
    c = h.cfg
    cls = (Sources, Patches)[c["patches"]]
    prefix = cls.prefix
    lines = []
    last = -1
    names = []
    for i in range(c["tags"]):
        lines += h.one_of("other%d" % i, OTHER[: c["other"]])
        digits = h.one_of("digits%d" % i, [1, 0, 2][: c["digits"]])
        if digits:
            last += h.one_of("gap%d" % i, [1, 9, 8][: c["digits"]])
            name = "%s%0*d" % (prefix, digits, last)
        else:
            last += 1
            name = prefix
        if h.cfg["case"] and i == 0:
            name = name.lower()
        x = h.str("x%d" % i, 1, alphabet=CHARS)
        names.append(name)
        lines.append(name + h.one_of("separator%d" % i, [": ", "  :", ":        "][: c["separators"]]) + x)
    lines += h.one_of("after", OTHER[: c["other"]])
    lines += h.one_of("others", [["Patch3: p" if not c["patches"] else "Source3: s"], []][: c["other"] // 2 or 1])
    lists = []
    for i in range(c["lists"]):
        n = h.choice("listed%d" % i, 3)
        data = []
        for j in range(n):
            data += h.one_of("before%d%d" % (i, j), [[], ["", "# c"]][: c["digits"]])
            data.append(h.str("y%d%d" % (i, j), 1, alphabet=CHARS))
        lists.append(data)
    return cls, lines, lists, names


def is_list_comment(line):
    return line == "" or line.startswith("#")


def read(cls, lines, lists, **kwargs):
    tags = Tags.parse(Section("package", data=list(lines)))
    sourcelists = [Sourcelist.parse(Section("sourcelist", data=list(l))) for l in lists]
    return tags, sourcelists, cls(tags, sourcelists, **kwargs)


def observe(h, cls, lines, lists, what):
    """Reads it again and checks numbers, returns the list of (name or None, number, location)"""
    tags, sourcelists, sources = read(cls, lines, lists)
    names = []
    locations = []
    for line in lines:
        m = re.match(r"(?i)^(%s\d*)\s*:\s*(.*)$" % cls.prefix, line)
        if m:
            names.append(m.group(1))
            locations.append(m.group(2))
    listed = [l for data in lists for l in data if not is_list_comment(l)]
    numbers = rpm_numbers(names, cls.prefix, len(listed))
    locations += listed
    h.check_eq([s.location for s in sources], locations, "locations of sources (%s)" % what)
    h.check_eq([s.number for s in sources], numbers, "numbers of sources (%s)" % what)
    return [(n, i, l) for n, i, l in zip(names + [None] * len(listed), numbers, locations)]


def rest(cls, lines):
    """Lines that are not sources"""
    return [l for l in lines if not re.match(r"(?i)^%s\d*\s*:" % cls.prefix, l)]


def pushed(numbers, items, start):
    """Numbers after numbers[start] was inserted: the rest is increased only when necessary"""
    result = numbers[: start + 1]
    for (name, prefix), n in zip(items[start + 1 :], numbers[start + 1 :]):
        last = result[-1]
        if name is None or name[len(prefix) :] == "":
            result.append(last + 1)
        else:
            result.append(max(n, last + 1))
    return result


def value_column(line):
    return len(re.match(r"^[^:]*:\s*", line).group(0))


def operation(h):
    rpm.install(_spec.SpecModel({"%{expr:1}": "1"}))
    cls, lines, lists, names = document(h)
    before = observe(h, cls, lines, lists, "before")
    allow = h.bool("allow") if h.cfg["other"] > 2 else True
    tags, sourcelists, sources = read(cls, lines, lists, allow_duplicates=allow)
    n = len(before)
    locations = [l for _, _, l in before]
    numbers = [i for _, i, _ in before]
    how = h.one_of("how", h.cfg["how"])
    new = h.str("new", 1, alphabet=CHARS)
    want = list(locations)
    want_numbers = None
    if how in ("insert", "append", "insert_numbered"):
        duplicate = new in locations
        at = None
        try:
            if how == "insert":
                i = h.one_of("i", list(range(-n - 1, n + 2)))
                sources.insert(i, new)
                want.insert(i, new)
                at = slice(i, None).indices(n)[0]
            elif how == "append":
                sources.append(new)
                want.append(new)
                at = n
            else:
                number = h.one_of("number", [0, 1, 2, 5, 9, 10, 12, 100])
                at = sources.insert_numbered(number, new)
                want.insert(at, new)
        except DuplicateSourceException:
            h.check(duplicate and not allow, "duplicate reported although there is none or it is allowed")
            h.check_eq(tags.get_raw_section_data(), lines, "lines after a refused duplicate")
            h.check_eq([l.get_raw_section_data() for l in sourcelists], lists, "lists after a refused duplicate")
            h.cover("duplicate")
            return
        h.check(not duplicate or allow, "duplicate was not reported")
        if n == 0:
            number = number if how == "insert_numbered" else 0
        elif how != "insert_numbered":
            number = numbers[at] if at < n else numbers[-1] + 1
        new_tag = how == "insert_numbered" or (before[at if at < n else -1][0] is not None if n else not lists)
        after = [(a, cls.prefix) for a, _, _ in before]
        after.insert(at, (cls.prefix + "1" if new_tag else None, cls.prefix))
        want_numbers = list(numbers)
        want_numbers.insert(at, number)
        want_numbers = pushed(want_numbers, after, at)
    elif how == "del":
        if not n:
            return
        i = h.one_of("i", list(range(-n, n)))
        del sources[i]
        del want[i]
    elif how == "del slice":
        a = h.one_of("a", [None] + list(range(-n, n + 1)))
        b = h.one_of("b", [None] + list(range(-n, n + 1)))
        step = h.one_of("step", [None, 2, -1])
        h.check_eq([s.location for s in sources[a:b:step]], want[a:b:step], "slice")
        del sources[a:b:step]
        del want[a:b:step]
    elif how == "remove":
        h.check_eq(sources.count(new), want.count(new), "count")
        h.check_eq(new in sources, new in want, "contains")
        sources.remove(new)
        want = [l for l in want if l != new]
    elif how == "remove_numbered":
        number = h.one_of("number", [0, 1, 2, 8, 9, 10])
        sources.remove_numbered(number)
        if number in numbers:
            del want[numbers.index(number)]
    elif how == "set":
        if not n:
            return
        i = h.one_of("i", list(range(-n, n)))
        sources[i] = new
        want[i] = new
        want_numbers = numbers
    h.check_eq([s.location for s in sources], want, "locations")
    h.check_eq(len(sources), len(want), "number of sources")
    lines2 = tags.get_raw_section_data()
    lists2 = [l.get_raw_section_data() for l in sourcelists]
    after = observe(h, cls, lines2, lists2, "after")
    h.check_eq([l for _, _, l in after], want, "locations when read again")
    h.check_eq([s.number for s in sources], [i for _, i, _ in after], "numbers when read again")
    if want_numbers is not None:
        h.check_eq([i for _, i, _ in after], want_numbers, "numbers of sources after the operation")
        if all(x < y for x, y in zip(numbers, numbers[1:])):
            h.check(all(x < y for x, y in zip(want_numbers, want_numbers[1:])), "numbers are not unique")
    def keep(ls):
        return [l for l in rest(cls, ls) if l != "" and not l.startswith("#")]
    if how.startswith("del") or how.startswith("remove"):
        h.check_eq(keep(lines2), keep(lines), "other lines")
    else:
        h.check_eq(rest(cls, lines2), rest(cls, lines), "other lines")
    h.cover(how)


def add_patch(h):
    """Specfile.add_patch() in a whole spec file"""
    c = h.cfg
    lines = ["Name: a", "Version: 1"] + h.one_of("sources", [[], ["Source: s"], ["Source0:  s", "Source01: t"]])
    numbers = []
    last = -1
    for i in range(c["tags"]):
        lines += h.one_of("other%d" % i, OTHER[: c["other"]])
        digits = h.one_of("digits%d" % i, [1, 0, 4][: c["digits"]])
        last += h.one_of("gap%d" % i, [1, 9, 50][: c["digits"]]) if digits else 1
        numbers.append(last)
        lines.append(("Patch%0*d: " % (digits, last) if digits else "Patch:  ") + h.str("x%d" % i, 1, alphabet=CHARS))
    lines += h.one_of("after", [[], ["%endif"], ["", "%if 1", "URL: u", "%endif"]][: c["other"]])
    lines += ["", "%description", "", "%prep", "%autosetup"]
    listed = []
    for i in range(c["lists"]):
        lines.append("%patchlist")
        for j in range(h.choice("listed%d" % i, 3)):
            lines.append(h.str("y%d%d" % (i, j), 1, alphabet=CHARS))
            last += 1
            numbers.append(last)
            listed.append(last)
    highest = max(numbers, default=-1)
    number = h.one_of("number", [None, 0, highest, highest + 1, highest + 7])
    few = c["tags"] + c["lists"] and c["other"] < 6
    initial = h.one_of("initial", [0, 100, 1][: 2 if few else 3])
    digits = h.one_of("number digits", [4, 1][: 1 if few else 2])
    comment = h.one_of("comment", [None, "one\ntwo", "one"][: 2 if few else 3])
    new = h.str("new", 1, alphabet=CHARS)
    text = "\n".join(lines) + "\n"
    with _spec.spec(text, _spec.SpecModel({"%{expr:1}": "1"})) as (spec, path):
        with spec.patches() as patches:
            old = [(p.number, p.location) for p in patches]
        h.check_eq([n for n, _ in old], numbers, "numbers before")
        error = None
        try:
            spec.add_patch(new, number, comment, initial, digits)
        except Exception as e:
            error = type(e).__name__
        if number is not None and number <= highest:
            h.check_eq(error, "SourceNumberException", "number that is not higher than existing ones")
            h.check_eq(str(spec), text, "text after refusal")
            h.cover("refused")
            return
        if new in [l for _, l in old]:
            h.check_eq(error, "DuplicateSourceException", "duplicate")
            h.check_eq(str(spec), text, "text after a duplicate")
            return
        h.check_eq(error, None, "error")
        want = number if number is not None else max(highest + 1, initial)
        if listed and want != highest + 1:
            # tags come before lists, so patches in lists are numbered from the new one
            h.cover("renumbered")
            with spec.patches() as patches:
                h.check_eq([p.number for p in patches if p.location == new], [want], "number of the new patch")
                h.check_eq([p.location for p in patches if p.location != new], [l for _, l in old], "other patches")
            return
        with spec.patches() as patches:
            got = [(p.number, p.location) for p in patches]
            h.check_eq(got, old + [(want, new)], "patches")
            h.check_eq(list(patches[-1].comments.raw), comment.split("\n") if comment else [], "comments")
        result = str(spec).split("\n")[:-1]
        at = next(k for k, l in enumerate(result) if k >= len(lines) or l != lines[k])
        count = 1 + (len(comment.split("\n")) if comment else 0)
        # equal lines around may shift the place
        h.check(any(result[:k] + result[k + count :] == lines for k in range(at, -1, -1)), "other lines changed")
        h.cover("added")


def add_unordered(h):
    """The highest patch doesn't have to be the last one"""
    numbers = []
    for i in range(h.cfg["n"]):
        numbers.append(h.one_of("number%d" % i, [x for x in (7, 2, 0, 12) if x not in numbers]))
    text = "Name: a\n" + "".join("Patch%d: p%d\n" % (x, i) for i, x in enumerate(numbers)) + "\n%description\n"
    number = h.one_of("number", [None] + [x + i for x in numbers for i in (0, 1)])
    new = h.str("new", 1, alphabet=CHARS)
    with _spec.spec(text, _spec.SpecModel({"%{expr:1}": "1"})) as (spec, path):
        error = None
        try:
            spec.add_patch(new, number)
        except Exception as e:
            error = type(e).__name__
        if number is not None and number <= max(numbers):
            h.check_eq(error, "SourceNumberException", "number that is not higher than existing ones")
            h.check_eq(str(spec), text, "text after refusal")
            return
        h.check_eq(error, None, "error")
        with spec.patches() as patches:
            got = [(p.number, p.location) for p in patches]
        want = max(numbers) + 1 if number is None else number
        h.check_eq([n for n, l in got if l == new], [want], "number of the new patch")
        h.check_eq([x for x in got if x[1] != new], [(x, "p%d" % i) for i, x in enumerate(numbers)], "other patches")
    h.cover("added unordered")


def views(h):
    """Sources of all lists of a spec file are there and are written back"""
    names = [["%sourcelist", "%SourceList  "], ["%patchlist", "%PATCHLIST"]]
    x = h.str("x", 1, alphabet=CHARS)
    lines = ["Name: a", "Source1: s", "Patch1: p", "", "%description", ""]
    places = [[1], [2]]
    for i in range(2):
        for k in (0, 1):
            lines.append(names[k][i])
            for j in range(2):
                places[k].append(len(lines))
                lines.append("%s%d%d" % ("qr"[k], i, j) + (x if j == 0 else ""))
            lines.append("# c%d%d" % (i, k))
    text = "\n".join(lines) + "\n"
    k = h.choice("kind", 2)
    n = len(places[k])
    with _spec.spec(text, _spec.SpecModel({"%{expr:1}": "1"})) as (spec, path):
        with (spec.patches() if k else spec.sources()) as view:
            h.check_eq([s.number for s in view], list(range(1, n + 1)), "numbers")
            h.check_eq([s.location for s in view][1:], [lines[p] for p in places[k]][1:], "locations")
            i = h.choice("i", n)
            how = h.one_of("how", ["edit", "delete", "insert"])
            p = places[k][i]
            tag = lines[p].partition(":")[0] + ": " if i == 0 else ""
            if how == "edit":
                view[i].location = "new"
                want = [lines[:p] + [tag + "new"] + lines[p + 1 :]]
            elif how == "delete":
                del view[i]
                want = [lines[:p] + lines[p + 1 :]]
            else:
                view.insert(i, "new")
                want = [lines[:p] + ["new"] + lines[p:]]
                if i == 0:
                    want = [lines[:p] + [tag + "new", tag.replace("1", "2") + lines[p].partition(" ")[2]] + lines[p + 1 :]]
        h.check_eq(str(spec).split("\n")[:-1], want[0], "lines after " + how)
    h.cover("view")


def first(h):
    """The first patch follows the last source"""
    rpm.install(_spec.SpecModel())
    others = ["SourceLicense: l", "Requires: r", "NoSource: 0", "BuildRequires: p"]
    lines = ["Name: a"]
    last = None
    for i in range(h.cfg["n"]):
        line = h.one_of("line%d" % i, ["Source%d:   s%d" % (i, i), "source: s%d" % i] + others)
        if line.lower().startswith("source") and not line.startswith("SourceL"):
            last = len(lines)
        lines.append(line)
    new = h.str("new", 1, alphabet=CHARS)
    implicit = h.bool("implicit")
    digits = h.one_of("digits", [1, 0, 4])
    tags, _, patches = read(Patches, lines, [], default_to_implicit_numbering=implicit, default_source_number_digits=digits)
    how = h.one_of("how", ["append", "insert", "insert_numbered"])
    number = 0
    if how == "append":
        patches.append(new)
    elif how == "insert":
        patches.insert(h.one_of("i", [0, 1, -1]), new)
    else:
        number = h.one_of("number", [0, 7, 12])
        patches.insert_numbered(number, new)
    result = tags.get_raw_section_data()
    at = len(lines) if last is None else last + 1
    h.check_eq(result[:at] + result[at + 1 :], lines, "other lines")
    m = re.match(r"^(Patch(\d*))(: *)(.*)$", result[at])
    h.check(bool(m), "new patch")
    h.check_eq(m.group(4), new, "location")
    if implicit or digits == 0:
        h.check(m.group(2) == "" or number and m.group(2) == str(number), "implicit number")
    else:
        h.check_eq(m.group(2), "%0*d" % (digits, number), "number in the name")
    h.check_eq([(p.location, p.number) for p in patches], [(new, int(m.group(2) or 0))], "patches")
    h.cover("first")


def unordered(h):
    """Numbers of tags don't have to increase"""
    rpm.install(_spec.SpecModel({"%{expr:1}": "1"}))
    cls = (Sources, Patches)[h.cfg["patches"]]
    numbers = []
    for i in range(h.cfg["n"]):
        numbers.append(h.one_of("number%d" % i, [x for x in (7, 2, 0, 3, 12) if x not in numbers]))
    lines = ["%s%d: l%d" % (cls.prefix, x, i) for i, x in enumerate(numbers)]
    lines.insert(h.choice("text", 2), "Epoch: 1")
    lists = [["m" + h.str("x", 1, alphabet=CHARS)]][: h.choice("lists", 2)]
    before = observe(h, cls, lines, lists, "before")
    tags, sourcelists, sources = read(cls, lines, lists)
    n = len(numbers)
    locations = [l for _, _, l in before]
    how = h.one_of("how", ["insert", "insert_numbered", "remove_numbered", "del"])
    if how == "insert":
        i = h.choice("i", n if lists else n + 1)
        sources.insert(i, "new")
        locations.insert(i, "new")
        want = numbers[:i] + [numbers[i] if i < n else numbers[-1] + 1]
        for x in numbers[i:]:
            want.append(x + 1 if x == want[-1] else x)
        # numbers of preceding sources may be the same then
        h.assume(len(set(want)) == n + 1)
    elif how == "insert_numbered":
        x = h.one_of("x", [x for x in range(14) if x not in numbers])
        i = sources.insert_numbered(x, "new")
        locations.insert(i, "new")
        want = numbers[:i] + [x] + numbers[i:]
    else:
        i = h.choice("i", n)
        if how == "del":
            del sources[i]
        else:
            sources.remove_numbered(numbers[i])
        del locations[i]
        want = numbers[:i] + numbers[i + 1 :]
    after = observe(
        h, cls, tags.get_raw_section_data(), [l.get_raw_section_data() for l in sourcelists], "after " + how
    )
    h.check_eq([l for _, _, l in after], locations, "locations after " + how)
    h.check_eq([x for _, x, _ in after][: len(want)], want, "numbers of tags after " + how)
    h.cover("unordered")


INS = ["insert", "append", "insert_numbered"]
DEL = ["del", "remove", "remove_numbered", "set"]


def harnesses(tier):
    deep = tier == "thorough"
    for patches in (0, 1):
        for how in (INS, DEL, ["del slice"]):
            for tags, lists in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0)):
                if patches and not deep and ((tags, lists) in ((0, 2), (2, 1), (3, 0)) or how[0] == "del slice"):
                    continue
                if how[0] == "del slice" and not deep and (tags, lists) == (2, 1):
                    continue
                size = 0 if deep else tags + lists
                yield "operation", operation, {
                    "patches": patches, "how": how, "tags": tags, "lists": lists,
                    "other": 1 if size > 2 or how[0] == "del slice" else 2 if size == 2 else 3,
                    "separators": 1 if how is not INS or size > 1 else 3 - patches,
                    "digits": 1 if how[0] == "del slice" and not deep else 3 if size < 2 else 2,
                    "case": int(tags == 1),
                }
        for n in (2, 3):
            if n == 2 or deep or not patches:
                yield "unordered", unordered, {"patches": patches, "n": n}
    for n in (2, 3):
        yield "add_unordered", add_unordered, {"n": n}
    yield "views", views, {}
    for n in range(0, 4 if deep else 3):
        yield "first", first, {"n": n}
    for tags, lists in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)) + (((0, 2), (2, 1)) if deep else ()):
        yield "add_patch", add_patch, {"tags": tags, "lists": lists, "other": 6 if deep else 2 if tags < 2 else 1, "digits": 3 if deep or tags + lists < 2 else 2}


COVERS_ALL = INS + DEL + ["del slice", "duplicate", "added", "refused", "renumbered", "first", "unordered", "added unordered", "view"]
BOUNDS = {
    "quick": "up to 3 tags (numbered with 1 or 2 digits, implicitly, with gaps), up to 2 lists of up to 2 entries, up to 6 kinds of lines in between, 3 kinds of separators; arbitrary locations of one letter (so any may be equal); 8 operations with all indices, up to 27 slices and 8 numbers; the first patch in up to 2 lines of 6 kinds; add_patch() with up to 2 tags and 2 list entries, 5 choices of number, 3 initial numbers, 2 numbers of digits, 3 comments; 2 or 3 tags with any 5 numbers in any order; a change of any source or patch in a spec file with 2 lists of both",
    "thorough": "all variations of lines, separators, digits and gaps for 3 tags and 2 lists, too",
}
ASSUMPTIONS = [
    "numbers of sources in the document increase, or no number resulting from the operation is the one of a preceding tag",
    "numbers are those RPM assigns when all conditions hold",
    "adding a patch tag with a number other than the next one to a spec file with %patchlist renumbers patches in the list, as there is no way to express it",
]
