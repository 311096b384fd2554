"""Release: reading, setting, bumping."""
import contextlib

import rpm

from specfile.specfile import Specfile

from props import _spec

DIST = ["%{?dist}", "%{dist}", "%dist"]
PLAIN = "0123456789abcdefghijklmnopqrstuvwxyzABC._+~^"


def literal(h, name, n):
    return h.str(name, n, alphabet=PLAIN)


def text_of(release, version="1"):
    return "Name: a\nVersion: %s\n# Release: 1\nRelease: %s\nEpoch: 2\n\n%%description\nRelease: 3\n" % (version, release)


def read(h):
    """release is the part before dist and minor bump."""
    c = h.cfg
    rel = h.str("rel", c["n"], exclude="\n%{}()[] \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000\\")
    dist = h.one_of("dist", DIST + [""])
    minor = "." + h.str("minor", c["m"], alphabet="0123456789") if dist and c["m"] else ""
    raw = rel + dist + minor
    new = h.str("new", c["k"], exclude="\n%{}()[] \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000\\")
    with _spec.spec(text_of(raw)) as (s, path):
        h.check_eq(s.raw_release, raw, "raw release")
        h.check_eq(s.release, rel, "release")
        h.check_eq(s.expanded_release, rel, "expanded release")
        if h.bool("both"):
            s.set_version_and_release("4", new)
            h.check_eq(str(s), text_of(new + dist, "4"), "content after set_version_and_release()")
        else:
            s.release = new
            h.check_eq(str(s), text_of(new + dist), "content after setting release")
        h.check_eq(s.release, new, "release after setting it")
        h.check_eq(s.raw_release, new + dist, "raw release after setting it")
        h.cover("dist" if dist else "no dist")
        if minor:
            h.cover("minor bump")


def set_raw(h):
    raw = h.str("raw", h.cfg["n"], exclude="\n%{}()[] \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000\\")
    with _spec.spec(text_of("1%{?dist}")) as (s, path):
        s.raw_release = raw + "%{?dist}.3"
        h.check_eq(str(s), text_of(raw + "%{?dist}.3"), "content after setting raw release")
        h.check_eq(s.release, raw, "release")
        s.set_version_and_release("7")
        h.check_eq(str(s), text_of("1%{?dist}", "7"), "content after resetting release")


def number(s):
    """Index of the first digit after a run of digits starting at 0."""
    i = 0
    while i < len(s) and s[i] in "0123456789":
        i += 1
    return i


def ref_bump(s):
    """rpmdev-bumpspec's rules on a literal release."""
    func = ""
    if s.startswith("%release_func "):
        func, s = s[:14], s[14:]
    pre = "0." if s.startswith("0.") and number(s[2:]) else ""
    body = s[len(pre) :]
    k = number(body)
    post = body[k:]
    if k and (pre or not ("alpha" in post or "beta" in post or "rc" in post)):
        return func + pre + str(int(body[:k]) + 1) + post
    s = func + s
    dot = s.rfind(".")
    if dot > 0 and dot + 1 < len(s) and number(s[dot + 1 :]) == len(s) - dot - 1:
        return s[: dot + 1] + str(int(s[dot + 1 :]) + 1)
    return s + ".1"


class Release(Specfile):
    """A spec file that is nothing but its Release."""

    raw_release = None
    has_autorelease = False

    def __init__(self, raw_release):
        self.raw_release = raw_release

    def __del__(self):
        pass

    @contextlib.contextmanager
    def macro_definitions(self):
        yield []


def bump_text(h):
    """The bumped release follows rpmdev-bumpspec and is newer than the original one."""
    s = "".join(p if isinstance(p, str) else literal(h, "s", p) for p in h.cfg["s"])
    spec = Release(s)
    spec.bump_release()
    new = spec.raw_release
    h.check_eq(new, ref_bump(s), "bumped release")
    if "%" not in s:
        h.check(rpm.labelCompare(("0", "1", new), ("0", "1", s)) > 0, "bumped release is not newer")
        h.cover("newer")


def bump(h):
    """Only the definition that sets the release is changed: a macro definition in effect, or the Release tag."""
    c = h.cfg
    num = literal(h, "num", 1)
    lines = ["Name: a", "Version: 1"]
    target = None
    for i, kind in enumerate(c["macros"]):
        name = h.one_of("name%d" % i, ["release", "baserelease", "Release", "BASERELEASE", "releases", "rel"])
        body = h.str("b%d" % i, 1, alphabet="0123456789")
        kw = h.one_of("kw%d" % i, ["%global", "%define"])
        active = name.lower() in ("release", "baserelease")
        if kind == "commented":
            lines.append("#" + kw[1:] + " " + name + " " + body)
            active = False
        elif kind == "dnl":
            lines.append("%dnl " + kw + " " + name + " " + body)
            active = False
        elif kind == "false":
            lines += ["%if 0", kw + " " + name + " " + body, "%endif"]
            active = False
        elif kind == "true":
            lines += ["%if 1", kw + " " + name + " " + body, "%endif"]
        else:
            lines.append(kw + " " + name + " " + body)
        at = len(lines) - (2 if kind in ("false", "true") else 1)
        if active and target is None:
            target = at, kw + " " + name + " " + str(int(body) + 1)
    rel = num + c["suffix"]
    lines.append("Release: " + rel)
    if target is None:
        h.cover("tag")
        target = len(lines) - 1, "Release: " + ref_bump(rel)
    else:
        h.cover("macro")
    lines += ["%description", "%global release 3"] if c.get("after") else ["%description"]
    model = _spec.SpecModel({"%{expr:0}": "0", "%{expr:1}": "1"})
    with _spec.spec("\n".join(lines) + "\n", model) as (s, path):
        s.bump_release()
        lines[target[0]] = target[1]
        h.check_eq(str(s), "\n".join(lines) + "\n", "content after bumping release")


def autorelease(h):
    """Nothing changes with %autorelease; an escaped one is none."""
    form = h.one_of("form", ["%autorelease", "%{autorelease}", "%autorelease -b 2", "%{?x:%autorelease}", "%{?autorelease}%{!?autorelease:1%{?dist}}", "%{autorelease -e 5}"])
    pre = h.str("pre", h.cfg["n"], alphabet="0123456789.a")
    with _spec.spec(text_of(pre + form)) as (s, path):
        before = str(s)
        if form == "%{autorelease -e 5}":
            return
        h.check(s.has_autorelease, "%autorelease is not recognized")
        s.bump_release()
        h.check_eq(str(s), before, "content after bumping release")
        h.cover("autorelease")
    for other in ("%%autorelease", "%autoreleases", "%{autorelease_x}", "autorelease", "%{x:autorelease}"):
        with _spec.spec(text_of("1" + other)) as (s, path):
            h.check(not s.has_autorelease, other + " is recognized as %autorelease")


def harnesses(tier):
    deep = tier == "thorough"
    for n in (0, 1, 2) + ((3,) if deep else ()):
        for m in (0, 1, 2):
            for k in (1, 2) if n else (1,):
                yield "read", read, {"n": n, "m": m, "k": k} if n else {"n": 1, "m": m, "k": 2}
        if n:
            yield "set_raw", set_raw, {"n": n}
    for k in range(1, 5 if deep else 4):
        yield "bump_text", bump_text, {"s": [k]}
        yield "bump_text", bump_text, {"s": ["0.", k]}
    for k in range(0, 3):
        for s in (["1", k, "%{?dist}"], ["%release_func ", k], ["1.rc", k], ["2", k, "beta"], ["x.", k], ["0.1.alpha", k], ["3.", k, "alpha.", 1], ["%{x}.", k]):
            yield "bump_text", bump_text, {"s": s}
    kinds = ["plain", "commented", "dnl", "false", "true"]
    for suffix in ("", "%{?dist}"):
        yield "bump", bump, {"macros": [], "suffix": suffix}
        for k in kinds:
            yield "bump", bump, {"macros": [k], "suffix": suffix}
    for a in kinds:
        for b in kinds if deep else ("plain", "commented"):
            yield "bump", bump, {"macros": [a, b], "suffix": ""}
    yield "autorelease", autorelease, {"n": 0}
    yield "autorelease", autorelease, {"n": 1}


COVERS_ALL = ["dist", "no dist", "minor bump", "newer", "tag", "macro", "autorelease"]
BOUNDS = {
    "quick": "releases of up to 2 arbitrary characters with or without a dist macro and a minor bump of up to 2 digits; bumped strings of up to 3 arbitrary characters (5 with fixed parts), spec files with up to 2 macro definitions (plain, commented out, in a true or false condition)",
    "thorough": "releases of 3, bumped strings of 4 arbitrary characters",
}
ASSUMPTIONS = ["releases consist of printable characters without whitespace and macros other than dist", "RPM is a stub that expands nothing", "rpm.labelCompare as in C19"]
