"""Positions of macro definitions and tags are the numbers of their lines."""
from props._lists import CHARS, KINDS, setup
from props.c13 import new_item, own_spans


def definition_line(kind, lines, own):
    """Offset of the line with the definition in lines of an item"""
    return next(i for i, l in enumerate(own) if not l.startswith("#") or l.startswith("#global"))


def check_positions(h, kind, container, positions, labels, what):
    h.check_eq([x.get_position(container) for x in container], positions, "positions " + what)
    for i, (position, label) in enumerate(zip(positions, labels)):
        h.check_eq(container.find(label, position), i, "item found at its position " + what)
        h.check(container.get(label, position) is container[i], "item gotten by its position " + what)
    for label in set(labels):
        for position in range(positions[-1] + 3):
            if (label, position) not in zip(labels, positions):
                try:
                    container.find(label, position)
                except ValueError:
                    pass
                else:
                    h.check(False, "something was found at a position where it is not " + what)


def from_text(kind, container, lines):
    """Positions according to the text: items are recognized by their contents"""
    result = []
    at = 0
    for item in container:
        name = item.name
        while True:
            line = lines[at]
            at += 1
            if kind.name == "tags":
                match = (name + ":") in line and not line.startswith("#")
            else:
                match = ("global " + name + " ") in line or ("define " + name + " ") in line
            if match:
                result.append(at - 1)
                break
    return result


def position(h):
    kind, items, tail, lines, container, off = setup(h)
    spans = own_spans(kind, items, off)
    positions = [start + definition_line(kind, lines, own) for (start, _), (_, own) in zip(spans, items)]
    labels = [kind.label_of(i) for i in range(len(items))]
    check_positions(h, kind, container, positions, labels, "in the document")
    how = h.one_of("how", ["insert", "delete", "value", "equal"])
    n = len(items)
    i = h.choice("i", n)
    if how == "insert":
        item, own = new_item(h, kind, 8, 0)
        container.insert(i, item)
    elif how == "delete":
        del container[i]
    elif how == "value":
        y = h.str("y", 1, alphabet=CHARS)
        multi = kind.name == "tags" and not items[i][1][0].startswith("%{?y") or kind.name != "tags" and not container[i].commented_out
        new = "%{expand:\n" + y + "\\\n}" if multi and h.bool("multi") else y
        if kind.name == "tags":
            container[i].value = new
            if h.bool("comment"):
                container[i].comments.append("new")
        else:
            container[i].body = new
    else:
        # two items with the same content
        if n < 2:
            return
        container[1].name = container[0].name
        if kind.name == "tags":
            container[1].value = container[0].value
        else:
            container[1].body = container[0].body
    if not container:
        return
    got = kind.render(container)
    check_positions(h, kind, container, from_text(kind, container, got), [x.name for x in container], "after " + how)
    h.cover(kind.name)
    h.cover(how)


def harnesses(tier):
    deep = tier == "thorough"
    for k in ("macro definitions", "tags"):
        for n in (1, 2) + ((3,) if deep else ()):
            yield "position", position, {"kind": k, "n": n, "before": None if deep or n < 2 else 4}


COVERS_ALL = ["macro definitions", "tags", "insert", "delete", "value", "equal"]
BOUNDS = {
    "quick": "1 or 2 macro definitions or tags in 4 forms each (single and multi-line, commented, commented out, conditional), up to 7 kinds of lines in between; after insertion, deletion, changes of values (also multi-line) and of comments, and for items with equal contents",
    "thorough": "up to 3 items",
}
ASSUMPTIONS = ["positions of tags are relative to their section, positions of macro definitions to the lines they were parsed from"]
