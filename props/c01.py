"""Opening and saving without edits keeps the bytes of the file."""
from specfile.exceptions import OptionsException, UnterminatedMacroException

from props import _spec

VIEWS = ["none", "lines", "macro_definitions", "sections", "tags", "changelog", "prep", "sources", "patches", "context", "reload", "properties"]


def use(s, view):
    if view == "none":
        return
    if view == "context":
        with s:
            pass
        return
    if view == "reload":
        s.reload()
        return
    if view == "properties":
        s.version, s.epoch, s.has_autorelease if s.raw_release else None, s.has_autochangelog
        return
    with getattr(s, view)() as x:
        pass


def text_of(h):
    out = []
    for i, p in enumerate(h.cfg["t"]):
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(h.str("t%d" % i, p, exclude="\r"))
    if "odd" in h.cfg:
        k = h.cfg["odd"]
        odd = h.one_of("odd", ["\r", "\r\n", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\udcff", "\ufeff", "\x00", "\u00e9", "\u20ac"])
        out.insert(k, odd)
    return "".join(out)


def run(h):
    text = text_of(h)
    with _spec.spec(text, autosave=h.cfg.get("autosave", False)) as (s, path):
        h.check_eq(str(s), text, "content")
        try:
            for view in h.cfg["views"]:
                use(s, view)
                h.cover(view)
                h.check_eq(str(s), text, "content after opening " + view)
        except (OptionsException, UnterminatedMacroException):
            return
        s.save()
        h.check_eq(_spec.read(path), text, "saved file")
        s.save()
        h.check_eq(_spec.read(path), text, "file saved again")
        s.reload()
        h.check_eq(str(s), text, "reloaded content")
        if text.endswith("\n"):
            h.cover("newline at the end")
        elif text:
            h.cover("no newline at the end")


def external(h):
    """The file changes on disk; a reload takes the new content, saving keeps it."""
    c = h.cfg
    before = "".join(p if isinstance(p, str) else h.str("b", p, exclude="\r") for p in c["before"])
    after = "".join(p if isinstance(p, str) else h.str("a", p, exclude="\r") for p in c["after"])
    with _spec.spec(before, autosave=c.get("autosave", False)) as (s, path):
        h.check_eq(str(s), before, "content")
        _spec.write(path, after)
        s.reload()
        h.check_eq(str(s), after, "reloaded content")
        for v in c["views"]:
            use(s, v)
        s.save()
        h.check_eq(_spec.read(path), after, "saved file")
        h.cover("external change")


def refused(h):
    """Content that can't be written leaves the file alone."""
    x = h.str("x", 1, exclude="\r\n")
    text = "Name: a" + x + "\nVersion: 1\n%description\n"
    odd = h.one_of("odd", ["\ud800", "\udfff", "\udc7f", "\udd00", "\udcff"])
    with _spec.spec(text, autosave=h.bool("autosave")) as (s, path):
        how = h.one_of("how", ["lines", "version", "section"])
        new = {"lines": text + odd + x + "\n", "version": text.replace(": 1", ": " + odd), "section": text + odd + "\n"}[how]
        try:
            if how == "lines":
                with s.lines() as lines:
                    lines.append(odd + x)
            elif how == "version":
                s.version = odd
            else:
                with s.sections() as sections:
                    sections.description.append(odd)
            h.check_eq(str(s), new, "content")
            s.save()
        except UnicodeEncodeError:
            h.check(odd != "\udcff", "file that can be encoded was not")
            h.check_eq(_spec.read(path), text, "file after a failure")
            h.cover("refused")
            s.reload()
            h.check_eq(str(s), text, "content after a reload")
            with s.lines() as lines:
                lines.append(x)
            s.save()
            h.check_eq(_spec.read(path), text + x + "\n", "file saved after the failure")
        else:
            h.check_eq(_spec.read(path), new, "saved file")
            h.cover("written")


def moved(h):
    """Saving under another name leaves the original file alone."""
    x = h.str("x", 2, exclude="\r")
    y = h.str("y", 1, exclude="\r\n")
    text = "Name: a" + x
    with _spec.spec(text, autosave=h.bool("autosave")) as (s, path):
        other = path.parent / "other.spec"
        if h.bool("exists"):
            _spec.write(other, "previous")
        s.path = other if h.bool("as path") else str(other)
        h.check_eq(str(s.path), str(other), "path")
        h.check_eq(str(s), text, "content")
        want = text
        if h.bool("change"):
            with s.lines() as lines:
                lines.insert(0, y)
            want = y + "\n" + text
        s.save()
        h.check_eq(_spec.read(other), want, "saved file")
        h.check_eq(_spec.read(path), text, "original file")
        h.cover("moved")


FULL = [
    "%global a 1\nName: a\n", 1, "Version: 1\nRelease: 1%{?dist}\nSource0: x\nPatch: y\n%description\n", 1,
    "\n%prep\n%autosetup\n", 1, "%sourcelist\nf\n\n%patchlist\ng\n%changelog\n* Mon Jan 01 2024 A <a@b> - 1-1\n- x\n", 1,
]


def harnesses(tier):
    deep = tier == "thorough"
    yield "refused", refused, {}
    yield "moved", moved, {}
    for v in VIEWS:
        for w in VIEWS:
            yield "run", run, {"t": FULL, "views": [v, w]}
            if deep:
                yield "run", run, {"t": FULL, "views": [v, w, v], "autosave": True}
    for n in range(0, 7 if deep else 6):
        yield "run", run, {"t": [n], "views": ["none"]}
        yield "run", run, {"t": [n, "\n"], "views": ["none", "lines", "reload"]}
    for v in VIEWS:
        if v not in ("none",):
            yield "run", run, {"t": [2 if deep else 1], "views": [v]}
            yield "run", run, {"t": [1, "\n", 1], "views": [v], "autosave": True}
            yield "run", run, {"t": FULL, "views": [v]}
            yield "run", run, {"t": ["Name: a\nVersion: 1\nRelease: 1\n%description\n\n%prep\n%changelog\n* x\n"], "views": [v], "odd": 0}
            yield "run", run, {"t": ["Name: a\nVersion: 1", "\nRelease: 1\n%description\n\n%prep\n%changelog\n* x\n"], "views": [v], "odd": 1}
            yield "run", run, {"t": ["Name: a\nVersion: 1\nRelease: 1\n%description", "\n%prep\n%changelog", "\n* x\n"], "views": [v], "odd": 2}
            yield "run", run, {"t": ["Name: a\nVersion: 1\nRelease: 1\n%description\n%prep\n%changelog\n* x\n- y"], "views": [v], "odd": 1, "autosave": True}
    for before, after in (([1], [2]), ([2], [1]), (["Name: a\n"], ["Name: b", 1]), (["Name: a", 1], ["Name: b\n"]), ([0], [1]), ([1], [0])):
        for views in ([], ["lines", "tags"], ["sections"], ["context"]):
            yield "external", external, {"before": before, "after": after, "views": views}
    for k in (0, 1, 2):
        yield "run", run, {"t": [1, 1], "views": ["none", "lines", "sections"], "odd": k}
        yield "run", run, {"t": [1, "\n"], "views": ["none", "lines", "tags"], "odd": k}


COVERS_ALL = VIEWS + ["newline at the end", "no newline at the end", "external change", "refused", "written", "moved"]
BOUNDS = {
    "quick": "files of up to 5 arbitrary characters (every class of character incl. undecodable bytes and Unicode line separators), and complete spec files with up to 4 arbitrary characters at line and section boundaries; pairs of views opened one after another; content that can't be encoded (4 kinds of characters)",
    "thorough": "files of up to 6 arbitrary characters",
}
ASSUMPTIONS = [
    "RPM is a stub that parses any content and expands nothing",
    "carriage returns are concrete characters placed at the boundaries of lines, sections and the file",
]
