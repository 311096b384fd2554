"""Sections and tags RPM knows are recognized, no others are."""
import rpm

from specfile.sections import Section, Sections
from specfile.tags import Tags

from props import _spec

# build/parseSpec.c
SECTIONS = """
package prep conf generate_buildrequires build install check clean preun postun pretrans posttrans preuntrans
postuntrans pre post files changelog description triggerpostun triggerprein triggerun triggerin trigger verifyscript
sepolicy filetriggerin filetrigger filetriggerun filetriggerpostun transfiletriggerin transfiletrigger
transfiletriggerun transfiletriggerpostun end patchlist sourcelist
""".split()
# build/parseScript.c, build/parseFiles.c and the like
SCRIPTLETS = [x for x in SECTIONS if x.startswith("p") and x not in ("package", "prep", "patchlist") or "trigger" in x or x == "verifyscript"]
BUILD_SCRIPTS = ["conf", "generate_buildrequires", "build", "install", "check", "clean"]
OTHERS = ["package", "files", "changelog", "description", "sepolicy", "end", "patchlist", "sourcelist"]
OPTIONS = {"description": "n:l:", "files": "n:f:", "package": "n:", "sepolicy": "n:"}
OPTIONS.update({x: "n:f:p:P:eq" for x in SCRIPTLETS})

# build/parsePreamble.c
TAGS = """
name version release epoch summary license sourcelicense distribution disturl vendor group packager url vcs source
patch nosource nopatch excludearch exclusivearch excludeos exclusiveos icon provides requires recommends suggests
supplements enhances prereq conflicts obsoletes prefixes prefix buildroot buildarchitectures buildarch buildconflicts
buildoption buildprereq buildrequires buildsystem autoreqprov autoreq autoprov docdir disttag bugurl translationurl
upstreamreleases orderwithrequires removepathpostfixes modularitylabel
""".split()
WITH_ARG = ["group", "summary", "requires", "prereq", "orderwithrequires"]
WITHOUT_ARG = [t for t in TAGS if t not in WITH_ARG and t != "buildoption"]
ASCII = "".join(chr(c) for c in range(9, 14)) + "".join(chr(c) for c in range(32, 127))


def cased(h, name):
    return [name, name.upper(), name.title(), name.swapcase()][h.choice("case", 3)]


def near(h, name):
    """The name with one of its characters arbitrary"""
    name = cased(h, name)
    i = h.choice("i", len(name))
    c = h.str("c", 1, alphabet="".join(x for x in ASCII if x not in "\n%:"))
    return name[:i] + c + name[i + 1 :]


def sections(h):
    """A line is a header exactly if its first word is the name of a section"""
    rpm.install(_spec.SpecModel())
    name = near(h, h.cfg["name"])
    rest = h.one_of("rest", ["", " -n x", "\tx"])
    h.assume(not name.endswith("\\") or rest)
    line = "%" + name + rest
    word = name.split()[0] if not name[0].isspace() and name.split() else ""
    known = any([word.lower() == s for s in SECTIONS])
    if known and word.lower() == "package":
        # the package has to have a name
        h.assume(rest)
    if name[len(name) - 1] in "\"'\\" or any([q in name for q in "\"'\\"]):
        h.assume(not known)
    result = Sections.parse(["Name: a", line, "text"])
    h.check_eq(len(result), 2 if known else 1, "number of sections")
    h.check_eq(result.get_raw_data(), ["Name: a", line, "text"], "lines")
    if known:
        h.check_eq(result[1].name, word, "name of a section")
        h.check_eq(result[1].normalized_name, word.lower(), "normalized name of a section")
        h.check_eq(list(result[1]), ["text"], "content")
        h.cover("section")
    else:
        h.check_eq(list(result[0]), ["Name: a", line, "text"], "content")
        h.cover("no section")


def bodies(h):
    """There are no headers in bodies of macros"""
    rpm.install(_spec.SpecModel())
    header = "%" + cased(h, h.cfg["name"])
    x = h.str("x", 1, alphabet="ab ")
    macro = h.one_of(
        "macro",
        [
            ["%global m \\", header],
            ["%global m " + x + "\\", "x\\", header],
            ["%define m \\", header + "\\", "x"],
            ["%define m() %{expand:", header, "}"],
        ],
    )
    lines = ["Name: a"] + macro + ["Version: 1", "%description", x]
    sections = Sections.parse(list(lines))
    h.check_eq([list(s) for s in sections], [lines[:-2], [x]], "contents of sections")
    h.cover("body")


def content(h):
    """Which sections are scripts, and the options they have"""
    rpm.install(_spec.SpecModel())
    name = h.cfg["name"]
    x = h.str("x", 1, alphabet="abcxyz019")
    header = "%" + cased(h, name)
    optstring = OPTIONS.get(name, "")
    letters = [(c, optstring[i + 1 : i + 2] == ":") for i, c in enumerate(optstring) if c != ":"]
    given = h.one_of("option", [(None, None)] + letters)
    text = ""
    if given[0]:
        text = " -" + given[0] + (" " + x if given[1] else "")
    elif name == "package":
        text = " sub"
    positional = given[0] and h.bool("positional")
    section = Sections.parse(["Name: a", header + text + (" p" if positional else ""), x])[1]
    if name in SCRIPTLETS or name in BUILD_SCRIPTS:
        h.check(section.is_script is True, "a script is not")
        h.cover("script")
    elif name in OTHERS:
        h.check(section.is_script is False, "something else is a script")
    if not letters:
        return
    for c, arg in letters:
        v = getattr(section.options, c)
        if c == given[0]:
            h.check_eq(v, (int(x) if x.isdecimal() else x) if arg else True, "option -" + c)
        elif arg:
            h.check(v is None, "option that isn't there")
        else:
            h.check(v is False, "flag that isn't there")
    h.check_eq(list(section.options.positional), ["p"] if positional else ["sub"] if text == " sub" else [], "positional arguments")
    # a section made afresh has the same options
    made = Section(name)
    for c, arg in letters:
        setattr(made.options, c, x if arg else True)
    again = Sections.parse(["Name: a"] + made.get_raw_data())[1]
    for c, arg in letters:
        h.check_eq(getattr(again.options, c), (int(x) if x.isdecimal() else x) if arg else True, "option -" + c + " that was set")
    h.cover("options")


def tags(h):
    """A line is a tag exactly if it starts with the name of a tag and a colon"""
    rpm.install(_spec.SpecModel())
    name = near(h, h.cfg["name"])
    separator = h.one_of("separator", [": ", ":", "\t:  "])
    line = name + separator + "v"
    word = name.rstrip()
    known = word.lower() in TAGS
    if h.cfg["name"] in ("source", "patch"):
        known = known or word[:-1].lower() in TAGS and word[-1:].isdecimal()
    h.assume("(" not in name)
    result = Tags.parse(Section("package", data=["# c", line, "Epoch: 7"]))
    h.check_eq([(t.name, t.value) for t in result], ([(word, "v")] if known else []) + [("Epoch", "7")], "tags")
    h.check_eq(result.get_raw_section_data(), ["# c", line, "Epoch: 7"], "lines")
    if known:
        h.cover("tag")
    else:
        h.cover("no tag")


def qualified(h):
    """Some of the tags can have an argument or a number"""
    rpm.install(_spec.SpecModel())
    name = h.cfg["name"]
    inner = h.str("inner", h.cfg["n"], alphabet="".join(x for x in ASCII if x not in "\n%:()#"))
    form = h.choice("form", 3)
    if form == 0:
        full = cased(h, name) + "(" + inner + ")"
        known = name in WITH_ARG and len(inner.split()) <= 1
    elif form == 1:
        full = cased(h, name) + " ( " + inner + " )"
        known = name in WITH_ARG and len(inner.split()) <= 1
    else:
        full = cased(h, name) + inner
        stem = full.rstrip()
        known = stem.lower() in TAGS or name in ("source", "patch") and all([c in "0123456789" for c in stem[len(name) :]])
    line = full + ": v"
    result = Tags.parse(Section("package", data=[line, "Epoch: 7"]))
    h.check_eq([(t.name, t.value) for t in result], ([(full.rstrip(), "v")] if known else []) + [("Epoch", "7")], "tags")
    h.check_eq(result.get_raw_section_data(), [line, "Epoch: 7"], "lines")
    h.cover("qualified" if known else "not qualified")


def harnesses(tier):
    deep = tier == "thorough"
    for name in SECTIONS:
        yield "sections", sections, {"name": name}
        yield "content", content, {"name": name}
        yield "bodies", bodies, {"name": name}
    for name in TAGS:
        yield "tags", tags, {"name": name}
    for name in WITH_ARG + WITHOUT_ARG:
        for n in (1, 2) if deep or name in WITH_ARG + ["source", "patch"] else (1,):
            yield "qualified", qualified, {"name": name, "n": n}


COVERS_ALL = ["section", "no section", "script", "options", "tag", "no tag", "qualified", "not qualified", "body"]
BOUNDS = {
    "quick": "all 37 names of sections and 53 names of tags in 3 spellings, with any one of their characters replaced by an arbitrary ASCII character; all options of all sections; headers in 4 forms of macro definitions; arguments of up to 2 arbitrary ASCII characters (1 for tags that have none)",
    "thorough": "arguments of up to 2 characters for all tags",
}
ASSUMPTIONS = [
    "the lists of names and options are those of RPM 4.20 (build/parseSpec.c, build/parsePreamble.c, build/parseScript.c), written down independently in the harness",
    "nothing is claimed about is_script of %prep and about arguments of BuildOption",
]
