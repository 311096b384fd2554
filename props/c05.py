"""Changelog: parsing a %changelog section and rendering it back is the identity."""
from specfile.changelog import Changelog
from specfile.sections import Section


def entries(ls):
    """Reference: headers and contents, from top to bottom; blank lines in between belong to no entry"""
    result = []
    for line in ls:
        if line.startswith("*") and (not result or any(x.strip() for x in result[-1][1])):
            result.append((line, []))
        elif result:
            result[-1][1].append(line)
    for _, content in result:
        while content and not content[-1].strip():
            del content[-1]
    return result


def lines(h):
    ls = []
    for i, parts in enumerate(h.cfg["lines"]):
        ls.append("".join(p if isinstance(p, str) else h.str("l%d" % i, p, exclude="\n") for p in parts))
    log = Changelog.parse(Section("changelog", data=list(ls)))
    h.check_eq(log.get_raw_section_data(), ls, "lines change when a changelog is parsed and rendered back")
    want = entries(ls)
    h.check_eq([(e.header, list(e.content)) for e in reversed(log)], want, "headers and contents of entries")
    if len(log):
        h.cover("entry")
        # every line belongs to exactly one entry, in order from top to bottom
        h.check(all(e.header.startswith("*") for e in log), "header of an entry does not start with an asterisk")
    if len(log) > 1:
        h.cover("entries")


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    T = [[]]
    for n in range(0, 5 + d):
        T.append([[n]])
        T.append([["*", n], [1]])
    for n in range(0, 3):
        T.append([[n], [n]])
        T.append([[1], ["*", n], [n], [1], ["*", 1], [1]])
        T.append([[n], [1], [1], [1]])
        T.append([["*"], ["-", n], [n], ["*", 1], [n], [1]])
    T.append([[1], [1], [1], [1], [1]])
    if d:
        T.append([[1], [1], [1], [1], [1], [1], [1]])
        T.append([[2], [2], [2], [2], [2]])
    for t in T:
        yield "lines", lines, {"lines": t}


COVERS_ALL = ["entry", "entries"]
BOUNDS = {
    "quick": 'changelogs of up to 5 lines of one arbitrary character, single lines of up to 4 characters, and templates with headers of up to 4 arbitrary characters',
    "thorough": 'changelogs of up to 7 lines of one arbitrary character, single lines of up to 5 characters, and templates with headers of up to 5 arbitrary characters',
}
ASSUMPTIONS = ['characters are any code points except newline, which separates lines']
