"""%sourcelist/%patchlist: parsing into entries and rendering back is the identity."""
import rpm

from specfile.sections import Section
from specfile.sourcelist import Sourcelist


def template(h):
    rpm.install(rpm.Model())
    ls = []
    for i, parts in enumerate(h.cfg["lines"]):
        ls.append("".join(p if isinstance(p, str) else h.str("l%d" % i, p, exclude="\n") for p in parts))
    sl = Sourcelist.parse(Section("sourcelist", data=list(ls)))
    h.check_eq(sl.get_raw_section_data(), ls, "lines change when a source list is parsed and rendered back")
    if len(sl):
        h.cover("entry")
    if len(sl) and len(sl[-1].comments):
        h.cover("comment")


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    T = [[]]
    for n in range(0, 5 + d):
        T.append([[n]])
        T.append([[1, "#", n], ["x"]])
    for n in range(0, 3 + d):
        T.append([[n], ["#", n], ["a", 1], [1]])
        T.append([["%if ", n], ["a", 1], ["%e", 3], [1], ["%endif", 1]])
        T.append([["%global a ", n], [1], ["b", 1]])
        T.append([[n], [n], [1]])
    T.append([[1], [1], [1], [1]])
    for t in T:
        yield "template", template, {"lines": t}


COVERS_ALL = ["entry", "comment"]
BOUNDS = {
    "quick": 'single lines of up to 4 arbitrary characters and templates of lists of up to 5 lines (comments, conditions, macro definitions) with up to 2 arbitrary characters in a line',
    "thorough": 'single lines of up to 5 arbitrary characters and templates of lists of up to 5 lines (comments, conditions, macro definitions) with up to 3 arbitrary characters in a line',
}
ASSUMPTIONS = ['conditions of %if are evaluated by the stub of RPM']
