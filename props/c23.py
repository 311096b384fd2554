"""Adding changelog entries: only the new entry appears, at the top of every changelog, in the right format."""
import calendar
import datetime
import os

import rpm

from specfile.changelog import Changelog, ChangelogEntry
from specfile.sections import Section

from props import _spec

WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000"
DAYS = [
    (2024, 2, 29, "Thu", "Feb"), (2024, 1, 1, "Mon", "Jan"), (2023, 12, 31, "Sun", "Dec"), (2024, 3, 10, "Sun", "Mar"),
    (2022, 10, 5, "Wed", "Oct"), (2021, 5, 22, "Sat", "May"), (2020, 9, 9, "Wed", "Sep"), (1999, 7, 30, "Fri", "Jul"),
]


class Model(_spec.SpecModel):
    """Expansion of EVR depends on dist being empty, the way it would with RPM."""

    def __init__(self):
        super().__init__()
        self.dist = "not set"

    def add_macro(self, name, body):
        if name == "dist":
            self.dist = body

    def reload_config(self):
        self.dist = "%{?dist}"

    def expand(self, text):
        if text == "%{?epoch:%{epoch}:}%{version}-%{release}":
            return "3:1.2-4" + self.dist
        return text.replace("%{?dist}", self.dist)


def date_text(h, padding, extended):
    y, m, d, wd, mon = h.one_of("date", DAYS[: h.cfg.get("dates", len(DAYS))])
    if padding.endswith("0"):
        day = padding[:-1] + ("%02d" % d)
    else:
        day = padding + str(d)
    if extended:
        ts = datetime.datetime(y, m, d, 23, 5, 9, tzinfo=datetime.timezone.utc)
        return ts, "%s %s %s 23:05:09 UTC %d" % (wd, mon, day, y)
    return datetime.date(y, m, d), "%s %s %s %d" % (wd, mon, day, y)


def assemble(h):
    padding = h.one_of("padding", ["", "0", " ", " 0", "  "])
    extended = h.bool("extended")
    naive = extended and h.bool("naive")
    ts, text = date_text(h, padding, extended)
    if naive:
        ts = ts.replace(tzinfo=None)
    author = h.str("author", h.cfg["a"], exclude="\n")
    evr = h.str("evr", 3, exclude="\n") if h.bool("with evr") else None
    newline = h.bool("newline")
    content = [h.str("line", h.cfg["c"], exclude="\n")]
    e = ChangelogEntry.assemble(ts, author, content, evr, day_of_month_padding=padding, append_newline=newline)
    h.check_eq(e.header, "* " + text + " " + author + (" - " + evr if evr is not None else ""), "header")
    h.check_eq(e.content, content, "content")
    h.check_eq(Changelog([e]).get_raw_section_data(), [e.header] + content + ([""] if newline else []), "lines")
    h.check_eq(e.extended_timestamp, extended, "extended timestamp")
    if ts.day < 10:
        # a day of two digits can't show zero padding
        h.check_eq(e.day_of_month_padding, padding, "padding of day of month")
    h.cover("assembled")


OLD = {
    "none": [],
    "zero": ["* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
    "space": ["* Tue Jan  2 2024 X <x@y> - 1-1", "- old"],
    "bare": ["* Tue Jan 2 2024 X <x@y> - 1-1", "- old"],
    "two": ["* Wed Jan 10 2024 X <x@y> - 1-2", "- newer", "", "* Tue Jan  2 2024 X <x@y> - 1-1", "- old"],
    "mixed zero": ["* Mon Jan 15 2024 X <x@y> - 1-2", "- newer", "", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
    "mixed newest": ["* Fri Jan 05 2024 X <x@y> - 1-2", "- newer", "* Tue Jan  2 2024 X <x@y> - 1-1", "- old"],
    "mixed oldest": ["* Fri Jan 5 2024 X <x@y> - 1-3", "- newer", "* Thu Jan  4 2024 X <x@y> - 1-2", "- newer", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
    "longest": ["* Fri Jan 05 2024 X <x@y> - 1-2", "- newer", "* Tue Jan   2 2024 X <x@y> - 1-1", "- old"],
    "extended": ["* Tue Jan 02 12:00:00 CET 2024 X <x@y> - 1-1", "- old"],
    "newly extended": ["* Wed Jan 03 12:00:00 CET 2024 X <x@y> - 1-2", "- newer", "", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
    "once extended": ["* Wed Jan 03 2024 X <x@y> - 1-2", "- newer", "", "* Tue Jan 02 12:00:00 CET 2024 X <x@y> - 1-1", "- old"],
    "text": ["some text", ""],
    "text and entry": ["# comment", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old", "", ""],
    "auto": ["%autochangelog"],
    "auto braces": ["%{autochangelog}"],
    "auto nested": ["", "%{?x:%autochangelog}"],
    "auto comment": ["# %autochangelog", " \t# %{autochangelog}", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
    "unterminated": ["%{x", "* Tue Jan 02 2024 X <x@y> - 1-1", "- old"],
}
PADDING = {"newly extended": "0", "once extended": "0", "mixed zero": "0", "mixed newest": "0", "mixed oldest": " ", "longest": "  ", "none": "0", "zero": "0", "space": " ", "bare": "", "two": " ", "extended": "0", "text": "0", "text and entry": "0", "auto comment": "0", "unterminated": "0"}
PREDECESSOR = {"text": 2, "text and entry": 1, "auto comment": 2, "unterminated": 1}


def add(h):
    """Only the new entry is added, on top of each changelog that is not automatic."""
    c = h.cfg
    lines = ["Name: a", "Version: 1", "Release: 1%{?dist}", "", "%description", "text"]
    expected = list(lines)
    author = h.str("author", 1, exclude=WS + "%") if c["author"] else None
    email = h.str("email", 1, exclude=WS + "%") if c["email"] else None
    entry = [h.str("line%d" % i, n, exclude=WS + "*%") for i, n in enumerate(c["entry"])]
    evr = h.str("evr", 1, exclude=WS + "%") + "-1" + h.one_of("dist", ["", "%{?dist}"]) if c["evr"] else None
    want_evr = evr.replace("%{?dist}", "") if c["evr"] else "3:1.2-4"
    stamp = h.one_of("date", DAYS[: c.get("dates", 2)])
    y, m, d, wd, mon = stamp
    extended = c.get("extended", False)
    if extended:
        timestamp = datetime.datetime(y, m, d, 1, 2, 3, tzinfo=datetime.timezone.utc)
    else:
        timestamp = datetime.date(y, m, d)
    who = "Env <e@n>" if not c["author"] else author + (" <" + email + ">" if c["email"] else "")
    for k in c["old"]:
        lines.append("%changelog")
        lines += OLD[k]
        expected.append("%changelog")
        if k.startswith("auto") and k != "auto comment":
            expected += OLD[k]
            h.cover("automatic")
            continue
        p = PADDING[k]
        day = p[:-1] + "%02d" % d if p.endswith("0") else p + str(d)
        at = PREDECESSOR.get(k, 0)
        expected += OLD[k][:at]
        expected.append("* %s %s %s %s%d " % (wd, mon, day, "01:02:03 UTC " if extended else "", y) + who + " - " + want_evr)
        expected += entry
        if len(OLD[k]) > at:
            expected.append("")
        expected += OLD[k][at:]
        h.cover("added")
    if c.get("tail"):
        lines += ["%files", "/x"]
        expected += ["%files", "/x"]
    with _spec.spec("\n".join(lines) + "\n", Model()) as (s, path):
        saved = os.environ.get("RPM_PACKAGER")
        os.environ["RPM_PACKAGER"] = "Env <e@n>"
        try:
            arg = entry[0] if len(entry) == 1 and h.bool("as string") else list(entry)
            s.add_changelog_entry(arg, author=author, email=email, timestamp=timestamp, evr=evr)
        finally:
            if saved is None:
                del os.environ["RPM_PACKAGER"]
            else:
                os.environ["RPM_PACKAGER"] = saved
        h.check_eq(str(s), "\n".join(expected) + "\n", "content after adding a changelog entry")
        if isinstance(arg, list):
            h.check_eq(arg, entry, "argument was modified")
        if len(c["old"]) == 1 and not c["old"][0].startswith("auto"):
            with s.changelog() as changelog:
                h.check_eq(changelog[-1].content, entry, "content of the newest entry")
                h.check_eq(changelog[-1].evr, want_evr, "EVR of the newest entry")


def now(h):
    """Without a timestamp, the format follows each changelog."""
    lines = ["Name: a", "Version: 1", "Release: 1"]
    for k in h.cfg["old"]:
        lines += ["%changelog"] + OLD[k]
    with _spec.spec("\n".join(lines) + "\n", Model()) as (s, path):
        s.add_changelog_entry("- new", author="A")
        with s.sections() as sections:
            found = [Changelog.parse(x) for x in sections if x.name == "changelog"]
        for k, c in zip(h.cfg["old"], found):
            h.check_eq(c[-1].content, ["- new"], "new entry")
            h.check_eq(c[-1].extended_timestamp, k in ("extended", "newly extended"), "format of the timestamp")
    h.cover("now")


def harnesses(tier):
    deep = tier == "thorough"
    for a in (1, 2):
        yield "assemble", assemble, {"a": a, "c": 2, "dates": 8 if deep else 5}
    base = {"author": 1, "email": 1, "evr": 1, "entry": [2]}
    for k in OLD:
        yield "add", add, dict(base, old=[k], dates=3)
        yield "add", add, dict(base, old=[k], email=0, tail=1, extended=True)
        yield "add", add, dict(base, old=[k], author=0, evr=0, entry=[1, 1])
    yield "add", add, dict(base, old=[])
    yield "add", add, dict(base, old=["zero"], author=0, email=1)
    kinds = list(OLD) if deep else ["none", "zero", "space", "auto", "text"]
    for a in kinds:
        for b in kinds:
            yield "add", add, dict(base, old=[a, b], entry=[1], dates=2)
            yield "add", add, dict(base, old=[a, b], author=0, evr=0, entry=[1], dates=1)
    for a in ("none", "zero", "extended", "newly extended", "once extended"):
        yield "now", now, {"old": [a]}
        for b in ("none", "zero", "extended", "newly extended", "once extended"):
            yield "now", now, {"old": [a, b]}


COVERS_ALL = ["assembled", "added", "automatic", "now"]
BOUNDS = {
    "quick": "8 dates, 5 paddings, authors of 2, entries of up to 2 lines of up to 2 arbitrary characters, EVR of 3; spec files with up to 2 changelogs of 19 kinds (pairs of 5 kinds)",
    "thorough": "pairs of all 19 kinds of changelog",
}
ASSUMPTIONS = ["RPM is a stub that knows the EVR of the package and the value of dist", "entry lines are not blank and do not start with an asterisk"]
