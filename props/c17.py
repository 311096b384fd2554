"""Macro expansion and rpm_spec always reflect the current state of the instance they are asked of."""
import copy
import os
import weakref

import rpm

from specfile.exceptions import RPMException
from specfile.spec_parser import SpecParser
from specfile.specfile import Specfile

from props import _spec

INCLUDED = "%{_sourcedir}/inc"

# ---------------------------------------------------------------- stand-in for RPM's global state


class Tables(rpm.spec_result):
    """Parsed spec; deleting any of them destroys the global Lua tables of RPM."""

    def __init__(self, model, content):
        self.model = model
        self.content = content

    def __del__(self):
        self.model.tables = False


class Model(rpm.Model):
    def __init__(self):
        self.macros = {}
        self.tables = False
        self.content = None
        self.interrupt = None
        self.parses = 0
        self.reload_config()

    def reload_config(self):
        # a macro defined on the command line survives
        self.macros = {"cli": [("c", -7)], "rc": [("r", -15)]}
        self.content = "(none)"

    def add_macro(self, name, body):
        self.macros.setdefault(name, []).append((body, -1))

    def del_macro(self, name):
        if name in self.macros:
            self.macros[name].pop()
            if not self.macros[name]:
                del self.macros[name]

    def dump(self):
        return ["%3d: %s\t%s\n" % (v[-1][1], k, v[-1][0]) for k, v in sorted(self.macros.items())]

    def state(self):
        return [(k, v[-1][0]) for k, v in sorted(self.macros.items())]

    def expand(self, text):
        if text.startswith("%{") and text.endswith("}") and text[2:-1] in self.macros:
            return self.macros[text[2:-1]][-1][0]
        if text == INCLUDED:
            return self.macros["_sourcedir"][-1][0] + "/inc"
        return text

    def parse_spec(self, path, flags):
        self.parses += 1
        with open(path, "rb") as f:
            content = f.read().decode("utf8", "surrogateescape")
        self.content = "(partial)"
        if self.interrupt:
            e, self.interrupt = self.interrupt, None
            raise e
        for line in content.split("\n"):
            if line.startswith("%global "):
                name, body = line[8:].split(" ")
                self.macros.setdefault(name, []).append((body, 0))
            if line == "%include " + INCLUDED and not os.path.exists(self.expand(INCLUDED)):
                os.write(2, b"error: Unable to open inc\n")
                raise ValueError("can't parse specfile")
            if line == "FAIL":
                os.write(2, b"error: line: FAIL\n")
                raise ValueError("can't parse specfile")
        self.content = content
        self.tables = True
        result = Tables(self, content)
        if "%include " + INCLUDED in content.split("\n"):
            result.sources = [("inc", 0, 1)]
        return result


# ---------------------------------------------------------------- ids are reused as soon as possible

_ids = []


def fake_id(self):
    global _ids
    _ids = [(r, n) for r, n in _ids if r() is not None]
    for r, n in _ids:
        if r() is self:
            return n
    used = [n for _, n in _ids]
    n = 0
    while n in used:
        n += 1
    _ids.append((weakref.ref(self), n))
    return n


class Ids:
    def __enter__(self):
        self.saved = SpecParser.__dict__.get("id")
        if self.saved is not None:
            SpecParser.id = fake_id

    def __exit__(self, *args):
        if self.saved is not None:
            SpecParser.id = self.saved


# ----------------------------------------------------------------


def missing(s):
    """Whether a file to be included doesn't exist"""
    with s.lines() as lines:
        return "%include " + INCLUDED in lines and not os.path.exists(s.sourcedir / "inc")


def fails(s):
    with s.lines() as lines:
        return any(x == "FAIL" for x in lines) or missing(s) and not s.force_parse


def expected(s, extra=()):
    macros = {"rc": "r"}
    for k, v in list(s.macros) + list(extra):
        if v is None:
            macros.pop(k, None)
        else:
            macros[k] = v
    macros["_sourcedir"] = str(s.sourcedir)
    for line in str(s).split("\n"):
        if line.startswith("%global "):
            name, body = line[8:].split(" ")
            macros[name] = body
    return sorted(macros.items())


def probe(h, model, s, how, extra=None):
    """Whatever happened before, the answer is that of the current state."""
    h.label = how
    try:
        if how == "expand":
            got = s.expand("%{v}", extra_macros=extra) if extra is not None else s.expand("%{v}")
        elif how == "rpm_spec":
            got = s.rpm_spec
        elif how == "active":
            got = s.get_active_macros()
        elif how == "tags":
            with s.tags() as tags:
                got = tags.version.expanded_value
        else:
            got = s.tainted
    except RPMException:
        h.check(fails(s), "a spec file that can be parsed fails to parse")
        h.cover("fails")
        return
    h.check(not fails(s), "a spec file that can't be parsed doesn't fail")
    want = expected(s, extra or ())
    h.check(model.tables, "state of RPM was destroyed and not initialized again")
    h.check_eq(model.content, str(s), "content that was parsed last")
    h.check_eq(model.state(), want, "macros defined")
    if how == "expand" or how == "tags":
        h.check_eq(got, dict(want)["v"], "expansion")
    elif how == "rpm_spec":
        h.check(got is not None, "no parsed spec file")
        h.check_eq(got.content, str(s), "content of rpm_spec")
    elif how == "active":
        h.check_eq([(m.name, m.body) for m in got], want, "active macros")
    else:
        h.check_eq(got, missing(s), "tainted")
        if got:
            h.cover("tainted")
    h.cover("probed")


OPS = ["edit", "macro", "unmacro", "sourcedir", "extra", "copy", "recreate", "fail", "interrupt", "force", "reload", "view", "drop"]


def history(h):
    c = h.cfg

    def one_of(name, options):
        return options[-1] if c.get("plain") else h.one_of(name, options)

    model = Model()
    rpm.install(model)
    SpecParser._last_parse_hash = None
    del _ids[:]
    with Ids(), _spec.scratch() as d:
        text = "%%global v %s\nName: a\nVersion: %%{v}\n"
        a = h.str("a", 1, alphabet="abc") if c.get("symbolic") else "a"
        (d / "other").mkdir()
        _spec.write(d / "s.spec", text % a)
        s = [Specfile(d / "s.spec"), None]
        s[1] = copy.deepcopy(s[0]) if h.bool("copied") else Specfile(d / "s.spec")
        for step in range(c["steps"]):
            i = h.choice("i", 2)
            x, y = s[i], s[1 - i]
            op = h.one_of("op", c["ops"])
            if op == "edit":
                with x.lines() as lines:
                    lines[0] = "%global v " + (h.str("b", 1, alphabet="abc") if c.get("symbolic") else one_of("b", ["a", "b"]))
                    if "FAIL" in lines:
                        lines.remove("FAIL")
            elif op == "macro":
                x.macros.append(("x", h.one_of("x", ["1", "2"])))
            elif op == "unmacro":
                if x.macros and h.bool("pop"):
                    x.macros.pop()
                else:
                    x.macros.append(("rc", None))
            elif op == "sourcedir":
                x.sourcedir = d / "other" if x.sourcedir == d else d
            elif op == "extra":
                probe(h, model, x, "expand", one_of("extra", [[], [("x", "9")], [("rc", None)]]))
            elif op == "copy":
                x = y = None
                s[1 - i] = None
                s[1 - i] = copy.deepcopy(s[i])
            elif op == "recreate":
                x = y = None
                s[i] = None
                s[i] = Specfile(d / "s.spec")
            elif op == "drop":
                # an instance that is gone must not affect the others
                t = copy.deepcopy(x)
                if one_of("parsed", [False, True]):
                    probe(h, model, t, "rpm_spec")
                del t
            elif op == "fail":
                with x.lines() as lines:
                    lines.append("FAIL")
                probe(h, model, x, one_of("how", ["expand", "rpm_spec"]))
            elif op == "interrupt":
                with x.lines() as lines:
                    lines.append("# changed")
                e = one_of("exc", [KeyboardInterrupt, MemoryError])
                model.interrupt = e()
                try:
                    x.expand("%{v}")
                except e:
                    h.cover("interrupted")
                model.interrupt = None
            elif op == "force":
                x.force_parse = not x.force_parse
            elif op == "reload":
                x.reload()
            elif op == "view":
                with x.macro_definitions() as md:
                    md.v.body = "c"
            x = y = None
            if not c.get("lazy") and h.bool("probe"):
                probe(h, model, s[h.choice("p", 2)], h.one_of("phow", c["probes"]))
        first = h.choice("first", 2)
        how = h.one_of("last", c["probes"])
        probe(h, model, s[first], how)
        probe(h, model, s[1 - first], how)
        probe(h, model, s[first], "rpm_spec")
        parses = model.parses
        probe(h, model, s[first], "expand")
        if not fails(s[first]):
            h.check_eq(model.parses, parses, "parsed again although nothing changed")


def tainting(h):
    """Files to be included which are missing in a source directory"""
    c = h.cfg
    model = Model()
    rpm.install(model)
    SpecParser._last_parse_hash = None
    del _ids[:]
    with Ids(), _spec.scratch() as d:
        (d / "other").mkdir()
        _spec.write(d / "other" / "inc", "x")
        a = h.str("a", 1, alphabet="abc")
        lines = ["%global v " + a, "Name: a", "Version: %{v}"]
        included = h.bool("included")
        _spec.write(d / "s.spec", "\n".join(lines + (["%include " + INCLUDED] if included else [])) + "\n")
        force = h.bool("force")
        given = h.one_of("sourcedir", [None, d / "other", str(d / "other"), d])
        try:
            s = Specfile(d / "s.spec", sourcedir=given, force_parse=force)
        except RPMException:
            h.check(included and not force and str(given or d) == str(d), "a spec file that can be parsed fails to parse")
            h.cover("not created")
            return
        h.check(not (included and not force and str(given or d) == str(d)), "a spec file that can't be parsed doesn't fail")
        h.check_eq(str(s.sourcedir), str(given or d), "source directory")
        t = copy.deepcopy(s)
        x = s
        for step in range(c["steps"]):
            op = h.one_of("op", ["force", "sourcedir", "include", "other instance", "reload"])
            if op == "force":
                x.force_parse = not x.force_parse
            elif op == "sourcedir":
                x.sourcedir = d / "other" if x.sourcedir == d else d
            elif op == "include":
                with x.lines() as ls:
                    if "%include " + INCLUDED in ls:
                        ls.remove("%include " + INCLUDED)
                    else:
                        ls.append("%include " + INCLUDED)
            elif op == "reload":
                x.reload()
            else:
                x = t if x is s else s
            probe(h, model, x, h.one_of("how", c["probes"]))
            h.check(not os.path.exists(d / "inc"), "a dummy source was left behind")
        probe(h, model, s, "tainted")
        probe(h, model, t, "tainted")


class Parsed(_spec.SpecModel):
    def __init__(self, text):
        super().__init__()
        self.text = text

    def parse_spec(self, path, flags):
        result = rpm.spec_result()
        result.parsed = self.text
        return result


def parsed(h):
    """Parsed sections are those of the text RPM has made of the spec file"""
    head = "Name: a\n\n%description" + h.one_of("space", ["", " "]) + "\n"
    body = "".join(p if isinstance(p, str) else h.str("t%d" % i, p, exclude="%") for i, p in enumerate(h.cfg["t"]))
    odd = h.one_of("odd", ["", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\r"])
    text = head + body + odd + h.one_of("end", ["", "\n", "\n%prep\nx", "\n%prep\nx\n"])
    with _spec.spec("Name: a\n", Parsed(text)) as (s, path):
        sections = s.parsed_sections
        want = text if text.endswith("\n") else text + "\n"
        h.check_eq("".join(l + "\n" for l in sections.get_raw_data()), want, "text of parsed sections")
        h.check_eq([x.name for x in sections], ["package", "description"] + (["prep"] if "%prep" in text else []), "names of parsed sections")
        h.check_eq(str(s), "Name: a\n", "content")
        h.cover("parsed")


EXTRAS = [None, [], [("x", "9")], [("x", "8")], [("w", "8")], [("x", "9"), ("w", "8")], [("rc", None)], [("x", "")], [("rc", "9")], [("x", "8"), ("x", "9")]]


def extras(h):
    """Extra macros are in effect for the expansion they are specified for and for no other."""
    model = Model()
    rpm.install(model)
    SpecParser._last_parse_hash = None
    with _spec.scratch() as d:
        x = h.str("x", 1, alphabet="abc")
        _spec.write(d / "s.spec", "%global v " + x + "\nName: a\nVersion: %{v}\n")
        macros = h.one_of("macros", [None, [("x", "1")], [("rc", None)], [("x", "")]])
        s = Specfile(d / "s.spec", macros=macros)
        given = []
        for i in range(h.cfg["n"]):
            if given and h.bool("same list"):
                # the list may be changed by the caller at any time
                given[-1][:] = list(h.one_of("extra", EXTRAS) or [])
                extra = given[-1]
            else:
                extra = h.one_of("extra", EXTRAS)
                extra = None if extra is None else list(extra)
                given.append(extra if extra is not None else [])
            before = None if extra is None else list(extra)
            probe(h, model, s, "expand", extra)
            h.check_eq(extra, before, "extra macros of the caller")
            h.check_eq(list(s.macros), list(macros or []), "macros of the instance")
        probe(h, model, s, "tags")
    h.cover("extras")


def harnesses(tier):
    deep = tier == "thorough"
    probes = ["expand", "rpm_spec", "active", "tags", "tainted"]
    for op in OPS:
        yield "history", history, {"steps": 1, "ops": [op], "probes": probes, "symbolic": 1}
    yield "tainting", tainting, {"steps": 1, "probes": probes}
    yield "tainting", tainting, {"steps": 2, "probes": ["expand", "tainted"] if deep else ["tainted"]}
    if deep:
        yield "tainting", tainting, {"steps": 3, "probes": ["tainted"]}
    for n in range(0, 3 + deep):
        yield "parsed", parsed, {"t": [n]}
        yield "parsed", parsed, {"t": ["a\n", n]}
    yield "extras", extras, {"n": 3 if deep else 2}
    yield "history", history, {"steps": 2, "ops": OPS, "probes": ["expand", "rpm_spec"], "lazy": not deep}
    yield "history", history, {"steps": 2, "ops": ["edit", "macro", "copy", "recreate", "interrupt", "fail"], "probes": ["expand"]}
    ops = ["edit", "copy", "recreate", "fail", "interrupt", "drop", "extra"]
    yield "history", history, {"steps": 3, "ops": OPS if deep else ops, "probes": ["rpm_spec"], "lazy": 1, "plain": not deep}


COVERS_ALL = ["extras", "probed", "fails", "interrupted", "tainted", "not created", "parsed"]
BOUNDS = {
    "quick": "two instances of the same file, one of them possibly a deep copy; histories of 1 step with 13 operations and 5 kinds of questions in between and at the end, 2 steps with 13 operations, 3 steps with 7 operations (edits, extra macros, copies, recreated and dropped instances, failed and interrupted parsing); 2 steps of switching forced parsing, source directories and including of a file that is missing in one of them; 2 subsequent expansions with 9 lists of extra macros and 3 of the instance",
    "thorough": "3 steps with all of the 13 operations; 3 steps of switching forced parsing, source directories and including",
}
ASSUMPTIONS = [
    "RPM is a stub with its global state: macros, the spec file that was parsed last, and Lua tables destroyed whenever a parsed spec is deleted",
    "object ids are reused as soon as possible",
    "the caller doesn't keep references to rpm_spec and doesn't change RPM's macros behind the library's back",
]
