"""Macro definitions: parsing and rendering back is the identity on lines."""
from specfile.macro_definitions import MacroDefinitions


def _check(h, lines):
    mds = MacroDefinitions.parse(list(lines))
    h.check_eq(mds.get_raw_data(), lines, "lines change when macro definitions are parsed and rendered back")
    if len(mds):
        h.cover("definition")
        if "\n" in mds[0].body:
            h.cover("multiline")
        if mds[0].commented_out:
            h.cover("commented out")
    return mds


def one_line(h):
    """<prefix>%global<w><rest>, then up to two more lines"""
    c = h.cfg
    line = (
        h.str("prefix", c["p"], exclude="\n")
        + c["kw"]
        + h.str("rest", c["r"], exclude="\n")
    )
    lines = [line] + [h.str("next%d" % i, k, exclude="\n") for i, k in enumerate(c["next"])]
    _check(h, lines)


def named(h):
    """%global name <body>, continuation lines"""
    c = h.cfg
    line = c["head"] + h.str("body", c["b"], exclude="\n") + c.get("tail", "")
    lines = (
        [h.str("pre", k, exclude="\n") for k in c.get("pre", [])]
        + [line]
        + [h.str("next%d" % i, k, exclude="\n") for i, k in enumerate(c["next"])]
        + c.get("last", [])
    )
    _check(h, lines)


def harnesses(tier):
    deep = tier == "thorough"
    for kw in ("%global", "%define", "#global", "%dnl %define", "%dnl #%%global", "#%%define"):
        for p in range(0, 3 + deep):
            for r in range(0, 5 + deep):
                yield "one_line", one_line, {"p": p, "kw": kw, "r": r, "next": []}
    for head in ("%global a ", "%define a(b) ", "  %define  a\t", "#define a ", "%dnl %global a "):
        for b in range(0, 4 + deep):
            for nx in ([], [1], [2], [1, 1]):
                yield "named", named, {"head": head, "b": b, "next": nx}
    for b in range(0, 3 + deep):
        for nx in ([1], [2], [1, 1]):
            yield "named", named, {"head": "%global a %{", "b": b, "next": nx, "last": ["}", "x"]}
            yield "named", named, {"head": "%global a ", "b": b, "tail": "\\", "next": nx, "pre": [1], "last": ["y"]}
    yield "named", named, {"head": "%global a 1", "b": 1, "next": [1, 2], "pre": [2], "last": ["%define b 2 ", ""]}


COVERS_ALL = ["definition", "multiline", "commented out"]
BOUNDS = {
    "quick": 'lines made of 6 forms of the keyword (%global, %define, #define, %dnl …) with up to 2 arbitrary characters before and up to 4 after it; definitions with up to 3 arbitrary characters of a body, up to 2 arbitrary continuation lines of up to 2 characters, with preceding and following lines',
    "thorough": 'lines made of 6 forms of the keyword (%global, %define, #define, %dnl …) with up to 3 arbitrary characters before and up to 5 after it; definitions with up to 4 arbitrary characters of a body, up to 2 arbitrary continuation lines of up to 2 characters, with preceding and following lines',
}
ASSUMPTIONS = ['characters are any code points except newline, which separates lines']
