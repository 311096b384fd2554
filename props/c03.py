"""Sections: splitting a spec file into sections and joining it back is the identity."""
import rpm

from specfile.exceptions import OptionsException, UnterminatedMacroException
from specfile.sections import Sections


class Expand(rpm.Model):
    """The argument of a section header expands to: a text starting with a newline, any other text, an error."""

    def __init__(self, h):
        self.h = h

    def expand(self, text):
        k = self.h.choice("expansion", 3)
        if k == 0:
            return "\n" + self.h.str("expanded", 1)
        if k == 1:
            return "x"
        raise rpm.error("expansion failed")


def _run(h, lines):
    rpm.install(Expand(h))
    for l in lines:
        # a %package header that names no package is rejected by RPM
        w = l.split()
        if w and w[0].lower() == "%package":
            h.assume(len(w) > 2 or len(w) == 2 and not w[1].startswith("%"))
    try:
        s = Sections.parse(list(lines))
    except (OptionsException, UnterminatedMacroException):
        h.cover("invalid header")
        return
    if len(s) > 1:
        h.cover("sections")
    if len(s) > 2:
        h.cover("two sections")
    h.check_eq(s.get_raw_data(), lines, "lines change when sections are parsed and rendered back")
    h.check_eq(str(s), "".join(l + "\n" for l in lines), "text of sections differs from the spec file")


def template(h):
    lines = []
    for i, parts in enumerate(h.cfg["lines"]):
        lines.append("".join(p if isinstance(p, str) else h.str("l%d" % i, p, exclude="\n") for p in parts))
    _run(h, lines)


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    T = []
    for n in range(0, 6):
        T.append([[n]])
    for n in range(0, 4 + 2 * d):
        T.append([["%prep", n], ["x"]])
        T.append([["%description", n], [1], ["%prep", 1], [1]])
        T.append([["%files -n", n]])
        T.append([["%package", n], [1]])
        T.append([["%description ", n, " %", 1], [1]])
        T.append([["%", n, " -n foo"], [1]])
        T.append([[1], ["%build", 1], ["%define a ", min(n, 2 + 2 * d)], ["%check"], [2]])
        T.append([["%post -p", n, " %{x"], ["%", 1]])
    T.append([[1], ["%", 4 + d], [1], ["%", 3]])
    T.append([["%changelog"], [2], [2], ["%", 4]])
    for t in T:
        yield "template", template, {"lines": t}


COVERS_ALL = ["sections", "two sections", "invalid header"]
BOUNDS = {
    "quick": 'single lines of up to 5 arbitrary characters and templates of spec files of up to 5 lines (section headers with options, macros, continued macro definitions) with up to 4 arbitrary characters in a line',
    "thorough": 'single lines of up to 5 arbitrary characters and templates of spec files of up to 5 lines (section headers with options, macros, continued macro definitions) with up to 5 arbitrary characters in a line',
}
ASSUMPTIONS = ['the argument of a section header expands to a text starting with a newline, to another text, or the expansion fails', 'a %package header that does not name a package (RPM rejects it) is outside']
