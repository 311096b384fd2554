"""Macros of %prep: lookup by name, options and defaults, numbers of patches."""
import rpm

from specfile.exceptions import OptionsException
from specfile.prep import AutopatchMacro, AutosetupMacro, PatchMacro, Prep, SetupMacro
from specfile.sections import Section

from props import _spec
from props._lists import CHARS

# option strings of RPM
MACROS = {
    "%setup": (SetupMacro, "a:b:cDn:Tq", {"n": "%{name}-%{version}"}),
    "%autosetup": (AutosetupMacro, "a:b:cDn:TvNS:p:", {"n": "%{name}-%{version}", "S": "patch"}),
    "%patch": (PatchMacro, "P:p:REb:z:F:d:o:Z", {}),
    "%autopatch": (AutopatchMacro, "vp:m:M:", {}),
}


def letters(optstring):
    return [(c, optstring[i + 1 : i + 2] == ":") for i, c in enumerate(optstring) if c != ":"]


def norm(v):
    return int(v) if v.isdecimal() else v


def options(h):
    """Every option of every macro is read, set and deleted; others keep their values or defaults"""
    name = h.cfg["macro"]
    cls, optstring, defaults = MACROS[name]
    opts = letters(optstring)
    o, arg = h.one_of("option", [(None, False)] + opts)
    o2, arg2 = h.one_of("second", [(None, False)] + opts)
    h.assume(o != o2 if o else not o2)
    x = h.str("x", 1, alphabet=CHARS)
    line = name
    want = {c: defaults.get(c) if a else False for c, a in opts}
    for n, a in ((o, arg), (o2, arg2)):
        if n:
            line += " -" + n + ((h.one_of("sep" + n, ["", " "]) + x) if a else "")
            want[n] = norm(x) if a else True
    prep = Prep.parse(Section("prep", data=["text", line]))
    h.check(len(prep.macros) == 1 and type(prep.macros[0]) is cls, "macro is not recognized")
    m = prep.macros[0]

    def verify(m, what):
        h.check_eq({c: getattr(m.options, c) for c in want}, want, "options " + what)
        h.check_eq({c: m.options[c] for c in want}, want, "items " + what)
        h.check_eq(sorted(m.options), sorted(c for c, v in want.items() if c in present), "names " + what)

    present = {n for n in (o, o2) if n}
    verify(m, "as parsed")
    y = h.str("y", 1, alphabet=CHARS)
    t, targ = h.one_of("changed", opts)
    how = h.one_of("how", ["set", "delete", "none"])
    if how == "set":
        if targ:
            setattr(m.options, t, y)
            want[t] = norm(y)
        else:
            setattr(m.options, t, True)
            want[t] = True
        present.add(t)
    else:
        if how == "delete":
            delattr(m.options, t)
        else:
            setattr(m.options, t, None)
        want[t] = defaults.get(t) if targ else False
        present.discard(t)
    verify(m, "after the change")
    h.check_eq(prep.get_raw_section_data()[0], "text", "text before the macro")
    changed = prep.get_raw_section_data()[1]
    h.check(changed.startswith(name + " ") or not present and changed.rstrip() == name, "name of the macro")
    verify(Prep.parse(Section("prep", data=prep.get_raw_section_data())).macros[0], "when read again")
    for bad in "xXyY":
        if bad not in optstring:
            try:
                getattr(m.options, bad)
                h.check(False, "unknown option")
            except AttributeError:
                pass
    h.cover(name)


FORMS = ["%patch{}", "%patch {}", "%patch -P {}", "%patch -P{}", "%patch -p1 {}", "%patch {} -p1", "%patch -p1 -P{}", "%patch00{}", "%{{?x:%patch{} -p1}}", "%patch '{}'"]


def number(h):
    """Patch numbers in all spellings are read and set"""
    n = h.str("n", h.cfg["n"], alphabet="0123456789")
    form = h.one_of("form", FORMS + ["%patch", "%patch -p1"])
    pre, sep, post = form.replace("{{", "{").replace("}}", "}").partition("{}")
    line = pre + n + post if sep else form
    prep = Prep.parse(Section("prep", data=["a", line, "b"]))
    h.check(len(prep.macros) == 1, "macro is not recognized")
    m = prep.macros[0]
    h.check_eq(m.number, int(n) if sep else 0, "number")
    new = h.one_of("new", [0, 7, 12, 1234])
    p = m.options.p
    m.number = new
    h.check_eq(m.number, new, "number that was set")
    # RPM applies all patches there is a number of
    numbers = [x for x in (m.name[len("%patch") :], m.options.P) if x is not None and x != ""]
    h.check_eq([int(x) for x in numbers + list(m.options.positional)] or [0], [new], "patches the macro applies")
    lines = prep.get_raw_section_data()
    h.check_eq([lines[0], lines[-1], len(lines)], ["a", "b", 3], "other lines")
    again = Prep.parse(Section("prep", data=lines)).macros
    h.check_eq([(x.number, x.options.p) for x in again], [(new, p)], "number when read again")
    prep.remove_patch_macro(new + 1)
    h.check(len(prep.macros) == 1, "another patch was removed")
    prep.remove_patch_macro(new)
    h.check_eq(prep.get_raw_section_data(), ["a", "b"], "lines after removing the macro")
    h.cover("number")


NAMES = ["%setup", "%autosetup", "%autopatch", "%patch", "%patch1", "%patch2"]


def lookup(h):
    """Macros are found by their names"""
    names = []
    lines = []
    for i in range(h.cfg["n"]):
        lines.append("text%d" % i)
        names.append(h.one_of("name%d" % i, NAMES))
        lines.append(names[i] + " -p%d" % i if names[i] not in ("%setup",) else "%setup -a " + str(i))
    prep = Prep.parse(Section("prep", data=lines))
    obj = prep if h.bool("section") else prep.macros
    h.check_eq([m.name for m in prep.macros], names, "names")
    asked = h.one_of("asked", NAMES + ["%patch3"])
    found = asked in names
    h.check((asked in obj) == (found if asked != "%patch" else any(n.startswith("%patch") for n in names)), "in")
    for cls in (SetupMacro, AutosetupMacro, PatchMacro, AutopatchMacro):
        h.check((cls in obj) == any(n.rstrip("12") == cls.CANONICAL_NAME for n in names), "class in")
    attr = asked[1:]
    if found:
        first = names.index(asked)
        h.check(getattr(obj, attr) is prep.macros[first], "attribute is another macro")
        h.check_eq(prep.macros.find(asked), first, "index")
        delattr(obj, attr)
        h.check_eq(prep.get_raw_section_data(), lines[: 2 * first + 1] + lines[2 * first + 2 :], "lines after deleting by name")
        h.cover("found")
    else:
        h.check(getattr(obj, attr, None) is None, "attribute of a missing macro")
        for f in (lambda: getattr(obj, attr), lambda: delattr(obj, attr)):
            try:
                f()
                h.check(False, "no error for a missing macro")
            except AttributeError:
                pass
        try:
            prep.macros.find(asked)
            h.check(False, "missing macro was found")
        except ValueError:
            pass
        h.check_eq(prep.get_raw_section_data(), lines, "lines")
        h.cover("missing")


def incomplete(h):
    """An option without its argument does no harm"""
    tail = h.one_of("tail", ["-n", "-n ", "-n -q", "-n  -T", "-q -n", "x -n", "-b x -n"])
    lines = ["%setup " + tail]
    prep = Prep.parse(Section("prep", data=list(lines)))
    o = prep.macros[0].options
    h.check_eq(o.q, "-q" in tail, "flag")
    h.check_eq(o.T, "-T" in tail, "flag")
    h.check_eq(o.b, "x" if "-b x" in tail else None, "option")
    h.check_eq(list(o.positional), ["x"] if tail[0] == "x" else [], "positional arguments")
    h.check("n" in list(o), "option is missing")
    h.check_eq(prep.get_raw_section_data(), lines, "lines")
    o.c = True
    h.check_eq([o.q, o.T, o.c], ["-q" in tail, "-T" in tail, True], "flags after setting another one")
    x = h.str("x", 1, alphabet=CHARS) if h.bool("set") else None
    if x is None:
        del o.n
        h.check_eq(o.n, "%{name}-%{version}", "option after deleting it")
    else:
        o.n = x
        h.check_eq(str(o.n), x, "option after setting it")
    h.check_eq(o.b, "x" if "-b x" in tail else None, "other option after changing this one")
    h.check_eq([o.q, o.T, o.c], ["-q" in tail, "-T" in tail, True], "flags after changing the option")
    h.cover("incomplete")


def harnesses(tier):
    for m in MACROS:
        yield "options", options, {"macro": m}
    for n in (1, 2, 4) + ((3, 5) if tier == "thorough" else ()):
        yield "number", number, {"n": n}
    for n in (1, 2, 3):
        yield "lookup", lookup, {"n": n}
    yield "incomplete", incomplete, {}


COVERS_ALL = list(MACROS) + ["number", "found", "missing", "incomplete"]
BOUNDS = {
    "quick": "all options of the 4 macros in pairs, with arguments of one arbitrary alphanumeric character, one change of any option; numbers of 1, 2 and 4 arbitrary digits in 12 spellings; up to 3 macros of 6 names; 7 forms of options without an argument",
    "thorough": "numbers of up to 5 digits",
}
ASSUMPTIONS = ["options of the macros are those of RPM 4.18"]
