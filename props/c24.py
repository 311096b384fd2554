"""Changelog.filter selects exactly the entries between the bounds; entry headers are read correctly."""
import rpm

from specfile.changelog import Changelog, ChangelogEntry
from specfile.sections import Section
from specfile.utils import EVR

HEAD = "* Mon Jan 01 2024 Nikola <n@x.org>"


def parts(h, name, digits):
    """(text, key): an EVR made of single digits"""
    v = h.str(name + "v", 1, alphabet=digits)
    r = h.str(name + "r", 1, alphabet=digits)
    return v + "-" + r, (v, r)


def le(a, b):
    return a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])


def build(evrs):
    """Lines of a changelog, the newest (last) entry comes first."""
    lines = []
    for i, e in reversed(list(enumerate(evrs))):
        lines += [HEAD + (" - " + e[0] if e else ""), "- change %d" % i, ""]
    return lines


ZERO = ("0", "")


def key(e):
    return e[1] if e else ZERO


def filter_sorted(h):
    c = h.cfg
    evrs = []
    for i in range(c["n"]):
        if c.get("missing") and h.bool("missing%d" % i):
            evrs.append(None)
        else:
            evrs.append(parts(h, "e%d" % i, c["digits"]))
    for a, b in zip(evrs, evrs[1:]):
        h.assume(le(key(a), key(b)))
    lines = build(evrs)
    since = parts(h, "since", c["digits"]) if c["since"] else None
    until = parts(h, "until", c["digits"]) if c["until"] else None
    changelog = Changelog.parse(Section("changelog", data=list(lines)))
    h.check_eq(len(changelog), c["n"], "number of entries")
    for e, x in zip(changelog, evrs):
        h.check_eq(e.evr, x[0] if x else None, "EVR of an entry")
    kw = {}
    if since:
        kw["since"] = since[0]
    if until:
        kw["until"] = until[0]
    result = changelog.filter(**kw)
    want = [
        i
        for i, e in enumerate(evrs)
        if (not since or le(since[1], key(e))) and (not until or le(key(e), until[1]))
    ]
    h.check_eq([e.content for e in result], [["- change %d" % i] for i in want], "selected entries")
    h.check(all(any(e is x for x in changelog) for e in result), "entries are not those of the changelog")
    h.check_eq(changelog.get_raw_section_data(), lines, "the changelog was modified")
    h.cover("all" if len(want) == c["n"] else "none" if not want else "some")


def filter_rpm(h):
    """Bounds of any form, compared the way RPM does."""
    c = h.cfg
    vs = [h.str("e%d" % i, n, alphabet="01a~.") for i, n in enumerate(c["v"])]
    bound = h.str("b", c["b"], alphabet="01a~.")
    entries = [ChangelogEntry(HEAD + " - " + v + "-1", ["- %d" % i]) for i, v in enumerate(vs)]
    evrs = [EVR(version=v, release="1") for v in vs]
    for a, b in zip(evrs, evrs[1:]):
        h.assume(a <= b)
    lim = EVR(version=bound, release=c["r"])
    changelog = Changelog(entries)
    text = bound + ("-" + c["r"] if c["r"] else "")
    if h.bool("since"):
        got = changelog.filter(since=text)
        want = [e for e, v in zip(entries, evrs) if lim <= v]
    else:
        got = changelog.filter(until=text)
        want = [e for e, v in zip(entries, evrs) if v <= lim]
    h.check_eq([e.content for e in got], [e.content for e in want], "selected entries")
    h.cover("rpm order")


def evr_forms(h):
    """EVR is recognized at the end of a header in all of its usual forms."""
    c = h.cfg
    form = h.choice("form", 6)
    v = h.str("v", c["v"], exclude=" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000[]():-")
    r = h.str("r", c["r"], exclude=" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000[]():-")
    ep = h.one_of("epoch", ["", "1:", "12:"])
    evr = ep + v + "-" + r
    text = HEAD + [" - ", " ", " - [", " (", " - ", "  "][form] + evr + ["", "", "]", ")", ":", " "][form]
    h.check_eq(ChangelogEntry(text, []).evr, evr, "EVR")
    h.cover("form")


def no_evr(h):
    """A header without a dash in its last word has no EVR."""
    w = h.str("w", h.cfg["n"], exclude="-\n \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000")
    h.check_eq(ChangelogEntry("* Mon Jan 01 2024 Nikola " + w, []).evr, None, "EVR")


def harnesses(tier):
    deep = tier == "thorough"
    rpm.install(rpm.Model())
    for n in range(0, 4 if deep else 4):
        for since in (0, 1):
            for until in (0, 1):
                yield "filter_sorted", filter_sorted, {"n": n, "digits": "12" if n > 2 else "123", "since": since, "until": until}
                if n < 3 or deep:
                    yield "filter_sorted", filter_sorted, {"n": n, "digits": "12", "since": since, "until": until, "missing": 1}
    for r in ("", "1"):
        for v in ([1], [2], [1, 1], [1, 2], [2, 1]):
            for b in (1, 2):
                yield "filter_rpm", filter_rpm, {"v": v, "b": b, "r": r}
    for v in (1, 2):
        for r in (1, 2):
            yield "evr_forms", evr_forms, {"v": v, "r": r}
    for n in range(1, 4):
        yield "no_evr", no_evr, {"n": n}


COVERS_ALL = ["all", "none", "some", "rpm order", "form"]
BOUNDS = {
    "quick": "changelogs of up to 3 entries ordered by EVR, single-digit versions and releases (3 values up to 2 entries, 2 values for 3 entries), entries without EVR (up to 2 entries); versions of up to 2 characters of 5 classes compared RPM's way; headers with arbitrary 2-character versions and releases in 6 notations",
    "thorough": "as quick, entries without EVR in changelogs of 3 entries",
}
ASSUMPTIONS = ["entries are ordered by EVR from the oldest to the newest (filter() returns a contiguous part of the changelog)", "rpm.labelCompare as in C19"]
