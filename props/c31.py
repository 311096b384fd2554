"""File names of sources."""
import rpm

from specfile.utils import get_filename_from_location

from props import _spec


def ref_filename(location):
    """addSource() of RPM"""
    i = location.rfind("/")
    if i < 0:
        return location
    j = location.rfind("=")
    return location[(j if j > i else i) + 1 :]


def filename(h):
    s = h.str("s", h.cfg["n"], exclude="\n")
    h.check_eq(get_filename_from_location(s), ref_filename(s), "file name of a location")
    h.cover("name")


class Expansions(rpm.Model):
    """%a is replaced by a text"""

    def __init__(self, text):
        self.text = text

    def expand(self, text):
        return text.replace("%a", self.text)


REMOTE = {"https://x.org/": True, "ftp://h/": True, "file:///": False, "": False, "/": False, "http:/": False, "://": False, "//x/": False, "mailto:": False, "git+ssh://h/": True}


def sources(h):
    """Sources and patches given by tags and lists"""
    which = h.one_of("which", ["source", "patch"])
    prefix = h.one_of("prefix", sorted(REMOTE))
    a = h.str("a", 1, alphabet="/=#x")
    text = h.str("text", 2, alphabet="/=#x") if h.cfg["expand"] else "y"
    location = (prefix if not h.cfg["expand"] else "") + ("%a" if h.cfg["expand"] else "") + a + "b"
    h.assume(not location.startswith("#"))
    expanded = location.replace("%a", text if not h.cfg["expand"] else prefix + text)
    listed = h.bool("listed")
    title = which.capitalize()
    lines = "Name: n\n" + ("" if listed else title + "0: " + location + "\n") + "\n%prep\n" + ("\n%" + which + "list\n" + location + "\n" if listed else "")
    with _spec.spec(lines, Expansions(prefix + text)) as (spec, path):
        with (spec.sources() if which == "source" else spec.patches()) as items:
            h.check(len(items) == 1, "number of sources")
            s = items[0]
            h.check_eq(s.location, location, "location")
            h.check_eq(s.expanded_location, expanded, "expanded location")
            h.check_eq(s.filename, ref_filename(location), "file name")
            h.check_eq(s.expanded_filename, ref_filename(expanded), "expanded file name")
            if not h.cfg["expand"] and prefix not in ("/", "") and (prefix != "//x/"):
                h.check_eq(s.remote, REMOTE[prefix], "remote")
            h.cover("listed" if listed else "tag")
        h.check_eq(str(spec), lines, "text changed")


def harnesses(tier):
    for n in range(0, 5 + (tier == "thorough")):
        yield "filename", filename, {"n": n}
    yield "sources", sources, {"expand": False}
    yield "sources", sources, {"expand": True}


COVERS_ALL = ["name", "listed", "tag"]
BOUNDS = {
    "quick": "locations of up to 4 arbitrary characters; sources and patches, in tags and lists, with 10 prefixes and up to 3 arbitrary characters, possibly given by a macro",
    "thorough": "locations of up to 5 arbitrary characters",
}
ASSUMPTIONS = ["RPM is a stub that replaces one macro", "the reference is addSource() of RPM's sources"]
