"""Deleting items removes exactly their lines."""
from props._lists import KINDS, nonblank, setup


def delete(h):
    kind, items, tail, lines, container, off = setup(h)
    n = len(items)
    how = h.one_of("how", h.cfg.get("how") or ["del", "del negative", "pop", "pop last", "remove", "clear", "name"])
    gone = []
    if how in ("del", "del negative", "pop", "remove", "name"):
        if not n:
            return
        i = h.choice("i", n)
        gone = [i]
        if how == "del":
            del container[i + off]
        elif how == "del negative":
            del container[i - n]
        elif how == "pop":
            item = container[i + off]
            got = container.pop(i + off if h.bool("positive") else i - n)
            h.check(got is item, "another item was popped")
        elif how == "remove":
            container.remove(container[i + off])
        else:
            if kind.name in ("sourcelist", "changelog"):
                return
            name = kind.label_of(i)
            if kind.name == "tags":
                delattr(container, name.lower() if h.bool("lower") else name)
            elif kind.name == "prep":
                if container[i].name != "%patch" + str(i):
                    return
                delattr(container, "patch" + str(i))
            elif kind.name == "sections":
                delattr(container, items[i][1][0][1:])
            else:
                delattr(container, name)
    elif how == "pop last":
        if not n:
            return
        item = container[-1]
        h.check(container.pop() is item, "another item was popped")
        gone = [n - 1]
    elif how == "slice":
        a = h.one_of("a", [None] + list(range(-n - 1, n + 2)))
        b = h.one_of("b", [None] + list(range(-n - 1, n + 2)))
        step = h.one_of("step", [None, 1, 2, -1, -2])
        full = list(range(-off, n))
        gone = full[a:b:step]
        if -1 in gone:
            return
        del container[a:b:step]
    else:
        if off:
            return
        container.clear()
        gone = list(range(n))
    kept = [x for i, x in enumerate(items) if i not in gone]
    h.check_eq(len(container), len(kept) + off, "number of items left")
    got = kind.render(container)
    if kind.name == "changelog":
        # the entry and the first empty line after it
        want = []
        for i, (pre, own) in reversed(list(enumerate(items))):
            want += pre[1:] if i in gone else own + pre
        h.check_eq(got, tail + want, "lines after deletion")
    else:
        expected = []
        for i, (pre, own) in enumerate(items):
            expected += pre if i in gone else pre + own
        expected = kind.text([], expected + tail)
        if kind.exact:
            h.check_eq(got, expected, "lines after deletion")
        else:
            h.check_eq(nonblank(got), nonblank(expected), "lines after deletion")
            h.check(len(got) <= len(expected), "empty lines were added")
            if not gone:
                h.check_eq(got, lines, "lines changed although nothing was deleted")
    again = kind.parse(list(got))
    h.check_eq([kind.label(x) for x in again][off:], [kind.label_of(i) for i in range(n) if i not in gone], "items left")
    h.cover(how)
    h.cover(kind.name)


def harnesses(tier):
    deep = tier == "thorough"
    for k in KINDS:
        small = k in ("sourcelist", "sections")
        for n in (1, 2) + ((3,) if deep or small else ()):
            yield "delete", delete, {"kind": k, "n": n}
            yield "slice", delete, {"kind": k, "n": n, "how": ["slice"], "before": None if deep else max(3 - n, 1)}


COVERS_ALL = list(KINDS) + ["del", "del negative", "pop", "pop last", "remove", "slice", "clear", "name"]
BOUNDS = {
    "quick": "lists of up to 2 (or 3) items of all 6 kinds (macro definitions, tags, list entries, prep macros, sections, changelog entries), 2 to 4 forms of an item, up to 7 kinds of lines in between (conditions, comments, empty lines, text), all indices and slices, 8 ways of deleting",
    "thorough": "up to 3 items of all kinds",
}
ASSUMPTIONS = ["texts of items are one arbitrary alphanumeric character (the way contents are parsed is covered by C02 to C07)", "empty lines around a deleted tag may be removed"]
