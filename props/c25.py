"""Looking things up by name."""
import rpm

from specfile.macro_definitions import MacroDefinitions
from specfile.options import Options
from specfile.sections import Section, Sections
from specfile.tags import Tags

from props import _spec

TAG_NAMES = ["Version", "version", "VERSION", "Source0", "source0", "Source00", "Epoch"]
MACRO_NAMES = ["v", "V", "vv", "data"]
SECTION_IDS = ["prep", "PREP", "package a", "package A", "package  a", "description a", "package -n a"]


def conditional(h, i, line, conditions):
    """Lines of an item and whether it is valid"""
    c = h.one_of("condition%d" % i, conditions)
    if c is None:
        return [line], True
    return ["%if " + c, line, "%endif"], c == "1"


def pick(h, kind, container, names, matches, valid):
    """Index of the item that is found, None if there is none"""
    found = [i for i, m in enumerate(matches) if m]
    for i in found:
        if valid[i]:
            return i
    return found[0] if found else None


def lookup_tags(h):
    rpm.install(_spec.SpecModel({"%{expr:1}": "1", "%{expr:0}": "0"}))
    lines = []
    names = []
    valid = []
    for i in range(h.cfg["n"]):
        name = h.one_of("name%d" % i, TAG_NAMES)
        l, v = conditional(h, i, name + ": " + h.str("x%d" % i, 1, alphabet="abcxyz"), [None, "1", "0"])
        lines += l
        names.append(name)
        valid.append(v)
    tags = Tags.parse(Section("package", data=lines))
    h.check_eq([t.valid for t in tags], valid, "validity")
    asked = h.one_of("asked", TAG_NAMES)
    index = pick(h, "tags", tags, names, [n.lower() == asked.lower() for n in names], valid)
    check_found(h, tags, asked, index, "value")
    if index is not None:
        before = [t.value for t in tags]
        how = h.one_of("how", ["set", "del", "nothing"])
        if how == "set":
            setattr(tags, asked, "new")
            before[index] = "new"
        elif how == "del":
            delattr(tags, asked)
            del before[index]
        h.check_eq([t.value for t in tags], before, "values after " + how)


def check_found(h, container, asked, index, attribute):
    h.check_eq(asked in container, index is not None, "contains")
    if index is None:
        try:
            container.find(asked)
        except ValueError:
            pass
        else:
            h.check(False, "something was found")
        try:
            container.get(asked)
        except ValueError:
            pass
        else:
            h.check(False, "something was gotten")
        if asked != "data":
            h.check(not hasattr(container, asked), "there is an attribute")
        h.cover("not found")
        return
    h.check_eq(container.find(asked), index, "index found")
    h.check(container.get(asked) is container[index], "another item was gotten")
    if asked != "data":
        h.check(getattr(container, asked) is container[index], "another item as attribute")
    h.cover("found")


def lookup_macros(h):
    rpm.install(_spec.SpecModel({"%{expr:1}": "1", "%{expr:0}": "0"}))
    lines = []
    names = []
    valid = []
    for i in range(h.cfg["n"]):
        name = h.one_of("name%d" % i, MACRO_NAMES)
        l, v = conditional(h, i, "%global " + name + " " + h.str("x%d" % i, 1, alphabet="abcxyz"), [None, "1", "0"])
        lines += l
        names.append(name)
        valid.append(v)
    macros = MacroDefinitions.parse(lines, with_conditions=True)
    h.check_eq([m.valid for m in macros], valid, "validity")
    asked = h.one_of("asked", MACRO_NAMES)
    index = pick(h, "macros", macros, names, [n == asked for n in names], valid)
    check_found(h, macros, asked, index, "body")
    if index is not None and asked != "data":
        before = [t.body for t in macros]
        how = h.one_of("how", ["set", "del", "nothing"])
        if how == "set":
            setattr(macros, asked, "new")
            before[index] = "new"
        elif how == "del":
            delattr(macros, asked)
            del before[index]
        h.check_eq([t.body for t in macros], before, "bodies after " + how)


def lookup_sections(h):
    rpm.install(_spec.SpecModel())
    lines = []
    ids = []
    for i in range(h.cfg["n"]):
        id = h.one_of("id%d" % i, SECTION_IDS)
        lines += ["%" + id, h.str("x%d" % i, 1, alphabet="abcxyz")]
        ids.append(id)
    sections = Sections.parse(lines)
    asked = h.one_of("asked", SECTION_IDS)

    def normal(id):
        name, space, rest = id.partition(" ")
        return name.lower() + space + rest

    index = next((i + 1 for i, x in enumerate(ids) if normal(x) == normal(asked)), None)
    check_found(h, sections, asked, index, "data")
    if index is not None:
        before = [list(s) for s in sections]
        how = h.one_of("how", ["set", "replace", "del", "nothing"])
        headers = [""] + ["%" + x for x in ids]
        if how == "set":
            setattr(sections, asked, ["new", ""])
            before[index] = ["new", ""]
        elif how == "replace":
            section = Section("check", data=["new"])
            setattr(sections, asked, section)
            h.check(sections[index] is section, "another section was set")
            before[index] = ["new"]
            headers[index] = "%check"
        elif how == "del":
            delattr(sections, asked)
            del before[index], headers[index]
        h.check_eq([list(s) for s in sections], before, "contents after " + how)
        lines = [l for t, b in zip(headers, before) for l in ([t] if t else []) + b]
        h.check_eq(sections.get_raw_data(), lines, "lines after " + how)


def made_sections(h):
    """Sections made with options, or options added to sections"""
    rpm.install(_spec.SpecModel())
    x = h.str("x", 1, alphabet="abcxyz")
    name = h.one_of("name", ["package", "Description", "files"])
    rest = h.one_of("options", ["a", "-n a", "-n  'a b'", ""])
    other = h.one_of("other", ["description", "files -f l"])
    sections = Sections.parse(["Name: a", "%" + other, x])
    how = h.one_of("how", ["made", "assigned"])
    if how == "made":
        section = Section(name, Options(Options.tokenize(rest), OPTIONS[name.lower()]), data=[x])
        sections.append(section)
    else:
        section = Section(name, data=[x])
        sections.append(section)
        section.options = Options(Options.tokenize(rest), OPTIONS[name.lower()])
    id = (name + " " + rest).rstrip()
    if h.bool("name first"):
        h.check_eq(section.normalized_id, (name.lower() + " " + rest).rstrip(), "normalized ID")
    h.check_eq(section.normalized_name, name.lower(), "normalized name")
    if id.lower() != other and id.lower() != "package":
        h.check(id in sections, "section is not there")
        h.check_eq(sections.find(id), 2, "index found")
        h.check(sections.get(id) is section, "another section was gotten")
        h.check(getattr(sections, id) is section, "another section as attribute")
    h.check_eq(section.id, id, "ID")
    if id.lower() != "package":
        h.check_eq(sections.get_raw_data(), ["Name: a", "%" + other, x, "%" + id, x], "lines")
    h.cover("made")


OPTIONS = {"package": "n:", "description": "n:", "files": "n:f:"}
ATTRIBUTES = [("name", "Name"), ("version", "Version"), ("raw_release", "Release"), ("summary", "Summary"), ("license", "License"), ("epoch", "Epoch"), ("url", "URL")]


def attributes(h):
    """Attributes of Specfile and the tags they stand for"""
    attribute, tag = h.one_of("attribute", ATTRIBUTES)
    others = [t for _, t in ATTRIBUTES if t != tag]
    lines = [t + ": old" for t in others]
    cases = h.one_of("case", [tag, tag.upper(), tag.lower()])
    state = h.one_of("state", ["absent", "once", "twice", "false first", "false only", "subpackage"])
    x = h.str("x", 1, alphabet="abcxyz")
    line = cases + ":  " + x
    where = 3
    add = {
        "absent": [],
        "once": [line],
        "twice": [line, tag + ": second"],
        "false first": ["%if 0", tag + ": first", "%endif", line],
        "false only": ["%if 0", line, "%else", "%endif"],
        "subpackage": [],
    }[state]
    lines[where:where] = add
    lines += ["", "%description", ""] + (["%package sub", line] if state == "subpackage" else [])
    text = "\n".join(lines) + "\n"
    present = state not in ("absent", "subpackage")
    new = h.str("new", 2, alphabet="abcxyz%")
    with _spec.spec(text, _spec.SpecModel({"%{expr:0}": "0"})) as (spec, path):
        h.check_eq(getattr(spec, attribute), x if present else None, "value")
        h.check_eq(getattr(spec, "expanded_" + attribute), x if present else None, "expanded value")
        if present:
            setattr(spec, attribute, new)
            want = text.replace(line + "\n", cases + ":  " + new + "\n", 1)
            h.check_eq(getattr(spec, attribute), new, "value after setting it")
        else:
            try:
                setattr(spec, attribute, new)
            except AttributeError:
                pass
            else:
                h.check(False, "tag that does not exist was set")
            want = text
        h.check_eq(str(spec), want, "text after setting the attribute")
    h.cover("attribute")


def harnesses(tier):
    deep = tier == "thorough"
    for n in (0, 1, 2) + ((3,) if deep else ()):
        yield "tags", lookup_tags, {"n": n}
        yield "macro definitions", lookup_macros, {"n": n}
        yield "sections", lookup_sections, {"n": n}
    yield "macro definitions", lookup_macros, {"n": 3}
    yield "made sections", made_sections, {}
    yield "attributes", attributes, {}


COVERS_ALL = ["found", "not found", "attribute", "made"]
BOUNDS = {
    "quick": "up to 2 tags (7 names), 3 macro definitions (4 names), 2 sections (7 IDs), each tag or definition in no, a true or a false condition, all names asked; sections made with 4 kinds of options; 7 attributes of Specfile, 3 spellings and 6 arrangements of their tags, arbitrary values of one or two characters",
    "thorough": "up to 3 items",
}
ASSUMPTIONS = ["names are taken from the listed ones, which differ in case, length and white space"]
