"""Tags: parsing a preamble-like section into tags and rendering it back is the identity."""
import rpm

from specfile.sections import Section
from specfile.tags import Tags


def _run(h, lines):
    rpm.install(rpm.Model())
    tags = Tags.parse(Section("package", data=list(lines)))
    h.check_eq(tags.get_raw_section_data(), lines, "lines change when tags are parsed and rendered back")
    if len(tags):
        h.cover("tag")
        if "\n" in tags[0].value:
            h.cover("multiline")
        if len(tags[0].comments):
            h.cover("comment")
        if any(line.startswith("%{") for line in lines):
            h.cover("conditional expansion")


def template(h):
    lines = []
    for i, parts in enumerate(h.cfg["lines"]):
        lines.append("".join(p if isinstance(p, str) else h.str("l%d" % i, p, exclude="\n") for p in parts))
    _run(h, lines)


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    T = []
    for n in range(0, 5 + d):
        T.append([[n]])
    for n in range(0, 5 + d):
        T.append([["Name", n]])
        T.append([["URL", n, "x"]])
    for n in range(0, 4 + d):
        T.append([["Requires(", n, "): y"]])
        T.append([[1, "Source", n, ":x"]])
        T.append([["%{", n, "Name: x}", 1]])
        T.append([["%{?a:Name: ", n, "}", 1]])
        T.append([["Version: %{", min(n, 2 + d)], [1], ["}", 1]])
    for n in range(0, 3 + d):
        T.append([[min(n, 1 + d)], ["#", min(n, 1 + d)], ["Name:", 2], [1]])
        T.append([["%if ", n], ["Epoch: 1", 1], [1], ["%endif", 1]])
        T.append([["Name: a", 1], [n], ["# c", n], ["Version: 1"], [1]])
        T.append([["Version: %(", min(n, d)], [2], ["e)", 1], [1]])
        T.append([["%global a ", n], ["Name: %{a}"], [1], ["License: x", 1]])
    for t in T:
        yield "template", template, {"lines": t}


COVERS_ALL = ["tag", "multiline", "comment", "conditional expansion"]
BOUNDS = {
    "quick": 'single lines of up to 4 arbitrary characters and templates of preambles of up to 4 lines (tags, comments, conditions, conditional expansions, values continued on following lines) with up to 4 arbitrary characters in a line',
    "thorough": 'single lines of up to 5 arbitrary characters and templates of preambles of up to 4 lines (tags, comments, conditions, conditional expansions, values continued on following lines) with up to 5 arbitrary characters in a line',
}
ASSUMPTIONS = ['conditions of %if are evaluated by the stub of RPM (any value)']
