"""Updating values: the tag expands to what was requested and nothing else is touched."""
import rpm

from props import _spec

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
EXTERNAL = {"ext": "7"}


def expand(env, s):
    """Expansion of macros the way RPM does it (macros without arguments)"""
    out = ""
    i = 0
    while True:
        j = s.find("%", i)
        if j < 0:
            return out + s[i:]
        out += s[i:j]
        if s[j + 1] == "%":
            out += "%"
            i = j + 2
            continue
        if s[j + 1] == "{":
            depth = 0
            k = j + 1
            while True:
                if s[k] == "{":
                    depth += 1
                elif s[k] == "}":
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            inner = s[j + 2 : k]
            i = k + 1
        else:
            k = j + 1
            while k < len(s) and s[k] in "?!":
                k += 1
            while k < len(s) and s[k] in NAME:
                k += 1
            inner = s[j + 1 : k]
            i = k
        k = 0
        while inner[k] in "?!":
            k += 1
        flags, rest = inner[:k], inner[k:]
        name, colon, body = rest.partition(":")
        defined = name in env
        if "?" in flags:
            if defined == (flags.count("!") % 2 == 0):
                out += expand(env, body) if colon else expand(env, env[name]) if defined else ""
        elif defined:
            out += expand(env, env[name])
        else:
            out += s[j:i]


def evaluate(text):
    """Macros and tags defined by a spec file, in the order RPM would see them"""
    env = dict(EXTERNAL)
    tags = {}
    for line in text.split("\n"):
        line = line.lstrip(" ")
        if line.startswith("%description"):
            break
        if line.startswith("%global "):
            name, body = line[8:].split(" ", 1)
            env[name] = expand(env, body)
        elif line.startswith("%define "):
            name, body = line[8:].split(" ", 1)
            env[name] = body
        elif line == "" or line.startswith("%dnl") or line.startswith("#"):
            pass
        else:
            name, value = line.split(": ", 1)
            value = expand(env, value)
            tags[name.lower()] = value
            env[name.lower()] = env[name.upper()] = value
    return env, tags


class Model(rpm.Model):
    def __init__(self):
        self.env = dict(EXTERNAL)

    def reload_config(self):
        self.env = dict(EXTERNAL)

    def add_macro(self, name, body):
        self.env[name] = body

    def del_macro(self, name):
        self.env.pop(name, None)

    def expand(self, text):
        return expand(self.env, text)

    def parse_spec(self, path, flags):
        with open(path, "rb") as f:
            content = f.read().decode("utf8", "surrogateescape")
        self.env, _ = evaluate(content)
        return rpm.spec_result()


def parts(names, small=False):
    result = ["1", "."]
    for n in names:
        result += ["%{" + n + "}", "%{?" + n + "}", "%{?" + n + ":~%{" + n + "}}"]
        if not small:
            result += ["%" + n, "%{!?" + n + ":2}", "%{?" + n + ":3}"]
    return result


def value(h, name, names, n):
    options = parts(names, h.cfg.get("small"))
    return "".join(h.one_of(name + str(i), options) for i in range(n))


def kept(line):
    """What must not change in a line: for definitions the name and kind, otherwise everything"""
    line = line.lstrip(" ")
    for dnl in ("", "%dnl ", "%dnl", "#"):
        for kind in ("%global ", "%define ", "global ", "define "):
            if line.startswith(dnl + kind):
                return (kind.strip("%"), line[len(dnl + kind) :].split(" ", 1)[0])
    if ": " in line:
        return ("tag", line.split(": ", 1)[0])
    return ("line", line)


def update(h):
    c = h.cfg
    lines = []
    names = []
    for i in range(c["macros"]):
        name = "m" + str(i)
        kind = h.one_of("kind" + str(i), ["%global ", "%dnl %global ", "%define "][: c.get("kinds", 3)])
        body = value(h, "body" + str(i), names + c.get("extra", []), 1 if i == 0 else c["body"])
        lines.append(kind + name + " " + body)
        names.append(name)
    lines += ["%global srcname foo", "Name: %{srcname}"]
    raw = value(h, "version", names + c.get("extra", []), c["version"])
    lines += ["Version: " + raw, "Release: 1", "%global after %{version}x", "Source0: http://x/%{version}/%{name}.tgz", "", "%description", "%{version} m0"]
    text = "\n".join(lines) + "\n"
    requested = h.str("requested", c["length"], alphabet="0123456789.~abr")
    model = Model()
    with _spec.spec(text, model) as (spec, path):
        how = h.one_of("how", ["update_tag", "update_version", "version"][: c.get("hows", 1)])
        if how == "update_tag":
            spec.update_tag("Version", requested)
        elif how == "update_version":
            spec.update_version(requested)
        else:
            spec.version = requested
        got = str(spec)
    new = got.split("\n")
    old = text.split("\n")
    h.check_eq([kept(l) for l in new], [kept(l) for l in old], "lines other than values of macro definitions and tags")
    env, tags = evaluate(got)
    h.check_eq(tags["version"], requested, "expanded value")
    for i, line in enumerate(old):
        if line.startswith("%global srcname") or line.startswith("Name:") or i > lines.index("Version: " + raw):
            h.check_eq(new[i], line, "unrelated or protected line")
    h.cover("updated")
    h.cover(how)


PRESERVED = {
    # definitions, raw version, (literal parts of the requested value), expected definitions, expected raw version
    "one": (["%global m0 1"], "%{m0}", ["A"], ["%global m0 {A}"], "%{m0}"),
    "define": (["%define m0 1.2"], "%{?m0}", ["A", ".", "B"], ["%define m0 {A}.{B}"], "%{?m0}"),
    "two": (["%global m0 1", "%global m1 2"], "%{m0}.%{m1}", ["A", ".", "B"], ["%global m0 {A}", "%global m1 {B}"], "%{m0}.%{m1}"),
    "nested": (["%global m0 1", "%global m1 2", "%global v %{m0}.%m1"], "%{v}", ["A", ".", "B"], ["%global m0 {A}", "%global m1 {B}", "%global v %{m0}.%m1"], "%{v}"),
    "same": (["%global m0 1"], "%{m0}.0.%{m0}", ["A", ".0.", "A"], ["%global m0 {A}"], "%{m0}.0.%{m0}"),
    "literal": (["%global m0 1"], "3.%{m0}", ["A", ".", "B"], ["%global m0 {B}"], "{A}.%{m0}"),
    "constant": (["%global m0 1"], "%{ext}.%{m0}", ["7.", "A"], ["%global m0 {A}"], "%{ext}.%{m0}"),
    "not constant": (["%global m0 1"], "%{ext}.%{m0}", ["8.", "A"], ["%global m0 1"], "8.{A}"),
    "enabled": (["%dnl %global m0 rc1"], "3%{?m0:~%{m0}}", ["A", "~", "B"], [" %global m0 {B}"], "{A}%{?m0:~%{m0}}"),
    "not disabled": (["%global m0 rc1"], "3%{?m0:~%{m0}}", ["A"], ["%global m0 rc1"], "{A}"),
    "still enabled": (["%global m0 rc1"], "3%{?m0:~%{m0}}", ["A", "~", "B"], ["%global m0 {B}"], "{A}%{?m0:~%{m0}}"),
    "still disabled": (["%dnl %global m0 rc1"], "3%{?m0:~%{m0}}", ["A"], ["%dnl %global m0 rc1"], "{A}%{?m0:~%{m0}}"),
    "redefined": (["%global m0 1", "%global m0 2"], "%{m0}", ["A"], ["%global m0 1", "%global m0 {A}"], "%{m0}"),
    "protected": (["%global m0name 1"], "%{m0name}", ["A", "B"], ["%global m0name 1"], "{A}{B}"),
    "protected constant": (["%global m0name 1", "%global m1 4"], "%{m0name}.%{m1}", ["1.", "A"], ["%global m0name 1", "%global m1 {A}"], "%{m0name}.%{m1}"),
    "invalid": (["%global m1 1", "%global m0() 5"], "%{m1}", ["A"], ["%global m1 {A}", "%global m0() 5"], "%{m1}"),
    "protected case": (["%global SrcName X"], "%{SrcName}.2", ["A", ".2"], ["%global SrcName X"], "{A}.2"),
    "protected pattern": (["%global BASE X", "%global xbase 2"], "%{BASE}.%{xbase}", ["A", ".", "B"], ["%global BASE X", "%global xbase 2"], "{A}.{B}", "base"),
    "not protected pattern": (["%global xbase 1", "%global xbase2 2"], "%{xbase}.%{xbase2}", ["A", ".", "B"], ["%global xbase {A}", "%global xbase2 {B}"], "%{xbase}.%{xbase2}", "base"),
    "nothing protected": (["%global m0name 1"], "%{m0name}", ["A"], ["%global m0name {A}"], "%{m0name}", None),
    "protected tag": ([], "%{NAME}.2", ["A", ".2"], [], "{A}.2"),
    "tag": ([], "%{epoch}", ["A"], [], "%{epoch}"),
    "upper-case tag": ([], "%{EPOCH}.2", ["A", ".2"], [], "%{EPOCH}.2"),
}


def preserve(h):
    """Substitutions of macros and tags are preserved, their values are updated instead."""
    definitions, raw, literals, new_definitions, new_raw, *protected = PRESERVED[h.cfg["case"]]
    n = h.cfg["length"]
    x = {k: h.str(k, n, alphabet="0123456789abr") for k in "AB"}
    # more than a character needs to change, otherwise there would be nothing to do
    requested = "".join(x.get(l, l) for l in literals)

    def fill(s):
        return "".join(x.get(t, t) for t in s.replace("{A}", "\0A\0").replace("{B}", "\0B\0").split("\0"))

    lines = definitions + ["Name: foo", "Epoch: 5", "Version: " + raw, "Release: 1", "%global after %{version}x", "Source0: http://x/%{version}/%{name}.tgz", "", "%description"]
    with _spec.spec("\n".join(lines) + "\n", Model()) as (spec, path):
        spec.update_tag("version", requested, *protected)
        got = str(spec)
    epoch = x["A"] if h.cfg["case"] in ("tag", "upper-case tag") else "5"
    want = [fill(d) for d in new_definitions] + ["Name: foo", "Epoch: " + epoch, "Version: " + fill(new_raw)] + lines[len(definitions) + 3 :]
    h.check_eq(got.split("\n")[:-1], want, "lines of the updated spec file")
    h.cover(h.cfg["case"])


PATTERN = r"([.\-_~^]?)((?:rc|b)\d+)"


def prerelease(h):
    """update_version() with a pattern of pre-releases"""
    state = h.one_of("macro", [None, "%global pre rc1", "%dnl %global pre rc1", "#global pre rc1"])
    raw = h.one_of("raw", ["1.0", "1.0%{?pre:~%{pre}}", "1.0~%{pre}"][: 2 if state != "%global pre rc1" else 3])
    if state is None:
        raw = "1.0"
    from specfile.macro_definitions import CommentOutStyle
    style = h.one_of("style", [CommentOutStyle.DNL, CommentOutStyle.HASH])
    base = h.str("base", h.cfg["length"], alphabet="0123456789.")
    h.assume(not base.endswith("."))
    delimiter = h.one_of("delimiter", ["", ".", "-", "~", "^"])
    kind = h.one_of("kind", ["", "rc", "b", "RC"])
    digit = h.str("digit", 1, alphabet="0123456789")
    suffix = kind + digit if kind else ""
    requested = base + delimiter + suffix if kind else base
    macro = h.bool("with macro")
    lines = ([state] if state else []) + ["Name: foo", "Version: " + raw, "Release: 1", "", "%description"]
    with _spec.spec("\n".join(lines) + "\n", Model()) as (spec, path):
        spec.update_version(requested, PATTERN, "pre" if macro else None, style)
        got = str(spec)
    env, tags = evaluate(got)
    h.check_eq(tags["version"], base + "~" + suffix if kind else base, "version")
    if macro and state:
        h.check_eq("pre" in env, bool(kind), "whether the pre-release macro is defined")
        if not kind:
            line = got.split("\n")[0].strip(" ")
            if state.startswith("%global"):
                h.check(line.startswith("%dnl" if style == CommentOutStyle.DNL else "#global"), "style of commenting out")
            else:
                h.check_eq(line, state, "definition that was commented out")
    h.check_eq(got.split("\n")[-4:], ["Release: 1", "", "%description", ""], "other lines")
    h.cover("prerelease" if kind else "release")


def harnesses(tier):
    deep = tier == "thorough"
    for case in PRESERVED:
        for n in (1, 2) + ((3,) if deep else ()):
            yield "preserve", preserve, {"case": case, "length": n}
    for n in (1, 2) + ((3,) if deep else ()):
        yield "prerelease", prerelease, {"length": n}
    for n in (3,) + ((1, 4) if deep else ()):
        yield "update", update, {"macros": 0, "version": 2, "body": 1, "length": n, "extra": ["ext"], "hows": 3}
        yield "update", update, {"macros": 1, "version": 2, "body": 1, "length": n, "extra": ["ext"]}
        yield "update", update, {"macros": 1, "version": 3, "body": 1, "length": n, "small": 1}
        yield "update", update, {"macros": 2, "version": 2, "body": 1, "length": n, "small": 1, "kinds": 3 if deep else 2}
        if deep:
            yield "update", update, {"macros": 2, "version": 2, "body": 2, "length": n, "small": 1}
            yield "update", update, {"macros": 2, "version": 3, "body": 1, "length": n, "small": 1}


COVERS_ALL = ["updated", "update_tag", "update_version", "version", "prerelease", "release"] + list(PRESERVED)
BOUNDS = {
    "quick": "versions composed of up to 3 parts (literals and 6 forms of references to macros), up to 2 preceding macro definitions of one part each (global, define, commented out; may refer to previous ones), a macro defined outside of the spec file; requested values of 3 arbitrary characters of 0-9.~abr; 23 cases of preserved substitutions with values of up to 2 arbitrary characters each; pre-releases: 4 states of the macro, 5 delimiters, 3 suffixes, 2 styles of commenting out, base versions of up to 2 arbitrary characters",
    "thorough": "definitions of up to 2 parts, requested values of up to 4 characters",
}
ASSUMPTIONS = [
    "RPM is replaced by a model of macro expansion (macros without arguments, conditional expansions, tags as macros, global/define); its agreement with RPM is not part of the check",
    "requested values contain no macros",
]
