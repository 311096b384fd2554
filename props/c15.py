"""Options: reading, setting, deleting options and positional arguments follows the text."""
from specfile.options import Options

OPTSTRING = "qn:Tp:"
DEFAULTS = {"p": 7}
BAD = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000-\"'\\%"


def norm(v):
    return int(v) if v.isdecimal() else v


def rendered(h, name, kind, n):
    """(value, its text): unquoted, quoted, or with an escaped character"""
    if kind == "plain":
        v = h.str(name, n, exclude=BAD)
        return v, v
    if kind == "dq":
        v = h.str(name, n, exclude="\"\\%-")
        return v, '"' + v + '"'
    if kind == "sq":
        v = h.str(name, n, exclude="'\\%-")
        return v, "'" + v + "'"
    v = h.str(name, n, exclude="%-")
    return v, "".join("\\" + c for c in v)


def build(h):
    """
    A string of separated items; returns (pieces, options in the order of
    appearance, positionals), a piece is (text, what it is, name, value)
    """
    c = h.cfg
    pieces = []
    for idx, it in enumerate(c["items"]):
        kind = it[0]
        nm = "v%d" % idx
        if kind == "flag":
            pieces.append(("-" + it[1], "opt", it[1], True))
        elif kind == "joined":
            v = h.str(nm, it[2], exclude=BAD)
            pieces.append(("-" + it[1] + v, "opt", it[1], norm(v)))
        elif kind == "spaced":
            v, t = rendered(h, nm, it[3], it[2])
            ws = h.str("w%d" % idx, 1, alphabet=" \t")
            pieces.append(("-" + it[1] + ws + t, "opt", it[1], norm(v)))
        elif kind == "pos":
            v, t = rendered(h, nm, it[2], it[1])
            pieces.append((t, "pos", None, norm(v)))
    return pieces


def text_of(h, pieces, seps):
    out = ""
    for i, p in enumerate(pieces):
        if i:
            out += seps[i - 1]
        out += p[0]
    return out


def make(h, text):
    return Options(Options.tokenize(text), OPTSTRING, DEFAULTS)


def expected(pieces):
    opts = {}
    for t, k, n, v in pieces:
        if k == "opt":
            opts[n] = v
    return opts, [v for t, k, n, v in pieces if k == "pos"]


def verify(h, o, opts, pos, what):
    for name in "qTnp":
        if name in opts:
            want = opts[name]
        elif name in "qT":
            want = False
        else:
            want = DEFAULTS.get(name)
        h.check_eq(getattr(o, name), want, what + ": value of -" + name)
    h.check_eq(list(o.positional), pos, what + ": positional arguments")
    h.check_eq(sorted(o), sorted(opts), what + ": options present")
    h.check_eq(len(o), len(opts), what + ": number of options")
    h.check_eq(len(o.positional), len(pos), what + ": number of positional arguments")


def both(h, o, opts, pos, what):
    """The object and what a fresh parse of its text says."""
    verify(h, o, opts, pos, what)
    verify(h, make(h, str(o)), opts, pos, what + ", parsed again")


def setup(h):
    pieces = build(h)
    seps = [h.str("s%d" % i, 1, alphabet=" \t") for i in range(len(pieces) - 1)]
    text = text_of(h, pieces, seps)
    o = make(h, text)
    opts, pos = expected(pieces)
    return pieces, seps, text, o, opts, pos


def read(h):
    pieces, seps, text, o, opts, pos = setup(h)
    both(h, o, opts, pos, "read")
    h.check_eq(str(o), text, "text")
    h.cover("read")


def around(h, pieces, seps, k):
    """Text before and after piece k (separators not included)."""
    return text_of(h, pieces[:k], seps), text_of(h, pieces[k + 1:], seps[k + 1:])


def new_value(h):
    n = h.cfg["new"]
    if n == 0:
        v = h.int("new", 0, 99)
        return v if not h.symbolic else v, None
    v = h.str("new", n, exclude="%-")
    return v, norm(v)


def set_option(h):
    pieces, seps, text, o, opts, pos = setup(h)
    name = h.cfg["name"]
    if name in "qT":
        value = h.bool("on")
        want = value
        if value:
            opts[name] = True
        else:
            opts.pop(name, None)
    elif h.cfg["new"] == 0:
        value = h.one_of("new", [0, 7, 42])
        opts[name] = value
    else:
        value = h.str("new", h.cfg["new"], exclude="%-")
        opts[name] = norm(value)
    via = h.bool("via mapping")
    if via:
        o[name] = value
    else:
        setattr(o, name, value)
    both(h, o, opts, pos, "set")
    k = [i for i, p in enumerate(pieces) if p[2] == name]
    if not k:
        if name in opts:
            h.check(str(o).startswith(text), "text of other items changes")
        else:
            h.check_eq(str(o), text, "text changes")
    elif name in opts:
        before, after = around(h, pieces, seps, k[-1])
        h.check(str(o).startswith(before), "text before the option changes")
        h.check(str(o).endswith(after), "text after the option changes")
    h.cover("set")


def delete_option(h):
    pieces, seps, text, o, opts, pos = setup(h)
    name = h.cfg["name"]
    had = opts.pop(name, None)
    if h.bool("via mapping"):
        del o[name]
    else:
        delattr(o, name)
    both(h, o, opts, pos, "delete")
    if had is None:
        h.check_eq(str(o), text, "text changes")
    else:
        k = [i for i, p in enumerate(pieces) if p[2] == name][-1]
        before, after = around(h, pieces, seps, k)
        h.check(str(o).startswith(before), "text before the option changes")
        h.check(str(o).endswith(after), "text after the option changes")
        h.check(len(str(o)) <= len(before) + len(after) + 1, "extra text left behind")
        h.cover("deleted")


def insert_positional(h):
    pieces, seps, text, o, opts, pos = setup(h)
    value = h.str("new", h.cfg["new"], exclude="%-")
    i = h.choice("i", len(pos) + 2)
    if h.bool("append"):
        o.positional.append(value)
        pos.append(norm(value))
    else:
        o.positional.insert(i, value)
        pos.insert(i, norm(value))
    both(h, o, opts, pos, "insert")
    h.cover("inserted")


def set_positional(h):
    pieces, seps, text, o, opts, pos = setup(h)
    value = h.str("new", h.cfg["new"], exclude="%-")
    i = h.choice("i", len(pos))
    neg = h.bool("negative")
    o.positional[i - len(pos) if neg else i] = value
    pos[i] = norm(value)
    both(h, o, opts, pos, "set positional")
    k = [j for j, p in enumerate(pieces) if p[1] == "pos"][i]
    before, after = around(h, pieces, seps, k)
    h.check(str(o).startswith(before), "text before the argument changes")
    h.check(str(o).endswith(after), "text after the argument changes")


def delete_positional(h):
    pieces, seps, text, o, opts, pos = setup(h)
    how = h.choice("how", 3)
    if how == 2:
        a = h.choice("a", len(pos) + 1)
        b = h.choice("b", len(pos) + 1)
        del o.positional[a:b]
        del pos[a:b]
        both(h, o, opts, pos, "delete positionals")
        return
    i = h.choice("i", len(pos))
    del o.positional[i - len(pos) if how else i]
    k = [j for j, p in enumerate(pieces) if p[1] == "pos"][i]
    del pos[i]
    both(h, o, opts, pos, "delete positional")
    before, after = around(h, pieces, seps, k)
    h.check(str(o).startswith(before), "text before the argument changes")
    h.check(str(o).endswith(after), "text after the argument changes")


def replace_positionals(h):
    pieces, seps, text, o, opts, pos = setup(h)
    n = h.choice("n", 3)
    vals = [h.str("new%d" % i, 1, exclude="%-") for i in range(n)]
    o.positional = vals
    both(h, o, opts, [norm(v) for v in vals], "replace positionals")


def invalid(h):
    """Setting a flag to a value or a valued option to a boolean is refused and changes nothing."""
    from specfile.exceptions import OptionsException

    pieces, seps, text, o, opts, pos = setup(h)
    name = h.one_of("name", ["q", "n", "p", "T"])
    value = h.one_of("value", [True, False]) if name in "np" else h.one_of("value", [1, "x"])
    try:
        setattr(o, name, value)
    except OptionsException:
        pass
    else:
        h.check(False, "invalid value accepted")
    h.check_eq(str(o), text, "text changes")


F, J, S, A = "flag", "joined", "spaced", "pos"
BASE = [
    [],
    [(F, "q")],
    [(J, "p", 1)],
    [(S, "n", 1, "plain")],
    [(A, 1, "plain")],
    [(A, 2, "dq")],
    [(A, 1, "plain"), (A, 1, "plain")],
    [(F, "q"), (A, 1, "plain")],
    [(A, 1, "plain"), (F, "q")],
    [(S, "n", 1, "dq"), (F, "q"), (F, "T")],
    [(F, "T"), (F, "q"), (S, "n", 1, "sq")],
    [(A, 1, "sq"), (S, "n", 1, "esc"), (A, 1, "plain")],
    [(J, "n", 1), (J, "p", 1), (A, 1, "esc")],
    [(F, "q"), (J, "p", 2), (A, 1, "plain"), (S, "n", 2, "plain")],
    [(A, 1, "plain"), (F, "T"), (A, 1, "plain"), (J, "p", 1), (A, 1, "plain")],
]
WIDE = [
    [(S, "n", 3, "plain")], [(S, "n", 3, "dq")], [(S, "p", 2, "sq")], [(S, "p", 2, "esc")], [(J, "n", 3)], [(A, 3, "plain")], [(A, 3, "dq")], [(A, 3, "sq")], [(A, 2, "esc")],
    [(J, "p", 1), (J, "p", 1)], [(F, "q"), (S, "n", 1, "plain"), (F, "q"), (S, "n", 1, "dq")],
]


def harnesses(tier):
    deep = tier == "thorough"
    for items in BASE + WIDE:
        yield "read", read, {"items": items}
    for items in BASE:
        present = {i[1] for i in items if i[0] in (F, J, S)}
        npos = sum(1 for i in items if i[0] == A)
        for name in "qTnp":
            yield "set_option", set_option, {"items": items, "name": name, "new": 0}
            if name in "np":
                yield "set_option", set_option, {"items": items, "name": name, "new": 1 if len(items) > 2 and not deep else 2}
            yield "delete_option", delete_option, {"items": items, "name": name}
        yield "insert_positional", insert_positional, {"items": items, "new": 1}
        if len(items) < 3 or deep:
            yield "insert_positional", insert_positional, {"items": items, "new": 2}
        if npos:
            yield "set_positional", set_positional, {"items": items, "new": 1}
            yield "delete_positional", delete_positional, {"items": items}
        yield "replace_positionals", replace_positionals, {"items": items}
        yield "invalid", invalid, {"items": items}


COVERS_ALL = ["read", "set", "deleted", "inserted"]
BOUNDS = {
    "quick": "option strings of up to 5 items (flags, joined and separate arguments, positionals, quoted and escaped) with values of 1-3 arbitrary characters; one operation with a new value of 1-2 arbitrary characters",
    "thorough": "as quick with longer new values",
}
ASSUMPTIONS = [
    "each option is separated by whitespace and given at most once when it is changed or deleted (no clusters of flags)",
    "arguments are not empty, do not start with a dash and contain no macro expression",
]
