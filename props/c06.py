"""%prep: parsing the section into macros and rendering it back is the identity."""
from specfile.exceptions import OptionsException, UnterminatedMacroException
from specfile.prep import Prep
from specfile.sections import Section


def template(h):
    ls = []
    for i, parts in enumerate(h.cfg["lines"]):
        ls.append("".join(p if isinstance(p, str) else h.str("l%d" % i, p, exclude="\n") for p in parts))
    try:
        prep = Prep.parse(Section("prep", data=list(ls)))
    except (OptionsException, UnterminatedMacroException):
        h.cover("invalid options")
        return
    h.check_eq(prep.get_raw_section_data(), ls, "lines change when %prep is parsed and rendered back")
    if len(prep.macros):
        h.cover("macro")
    if len(prep.macros) > 1:
        h.cover("macros")


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    T = [[]]
    for n in range(0, 4 + d):
        T.append([[n]])
        for m in ("%setup", "%patch", "%autosetup", "%autopatch", "%patch1"):
            T.append([[1, m, n]])
        T.append([["%setup -", n, 1]])
        T.append([["%", n, "patch -p1"]])
        T.append([["%{?", n, ":%patch1 -p1}", 1]])
        T.append([["%{?a:%setup", n, "}"], [1]])
        T.append([["%{?a:", n, "}", 1], ["%autosetup -n %{", n, "}"]])
    for n in range(0, 3 + d):
        T.append([[1], ["%setup -q", n], [1], ["%patch -P 1", 1], [n]])
        T.append([["%patch -p1 ", n, "%patch2", 1]])
        T.append([["%autosetup -n ", n, "%{", n, "}x"]])
        T.append([["%{!?x:%{?y:%patch3 ", n, "}}", 1]])
    for t in T:
        yield "template", template, {"lines": t}


COVERS_ALL = ["macro", "macros", "invalid options"]
BOUNDS = {
    "quick": 'single lines of up to 3 arbitrary characters and templates of %prep of up to 5 lines (all macros, options, quoting, conditional expansions) with up to 3 arbitrary characters in a place',
    "thorough": 'single lines of up to 4 arbitrary characters and templates of %prep of up to 5 lines (all macros, options, quoting, conditional expansions) with up to 4 arbitrary characters in a place',
}
ASSUMPTIONS = ['options that cannot be tokenized are rejected; such inputs are outside of the round trip']
