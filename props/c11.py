"""Changing one item changes nothing but its own lines and what was changed."""
from specfile.macro_definitions import CommentOutStyle

from props._lists import CHARS, KINDS, setup
from props.c13 import own_spans

EDITS = {
    "macro definitions": ["body", "multiline body", "name", "global", "commented out"],
    "tags": ["value", "multiline value", "name", "append comment", "insert comment", "clear comments", "change comment", "replace comments", "set by name"],
    "sourcelist": ["location", "append comment", "clear comments", "replace comments"],
    "prep": ["b", "p", "E", "del b", "number", "positional"],
    "sections": ["append", "set", "clear", "set by id", "option", "name"],
    "changelog": ["header", "content", "append"],
}


def observe(kind, item):
    """Everything that can be seen of an item"""
    if kind.name == "macro definitions":
        return {"name": item.name, "body": item.body, "is_global": item.is_global, "commented_out": item.commented_out}
    if kind.name == "tags":
        return {"name": item.name, "value": item.value, "comments": list(item.comments.raw)}
    if kind.name == "sourcelist":
        return {"location": item.location, "comments": list(item.comments.raw)}
    if kind.name == "prep":
        return {"name": item.name, "positional": list(item.options.positional), **{o: item.options[o] for o in "PpREbzFdoZ"}}
    if kind.name == "sections":
        return {"id": item.id, "data": list(item)}
    return {"header": item.header, "content": list(item.content)}


def comments(h, item, edit, y, want):
    if edit == "append comment":
        item.comments.append(y)
        want["comments"].append(y)
    elif edit == "insert comment":
        item.comments.insert(0, y)
        want["comments"].insert(0, y)
    elif edit == "clear comments":
        item.comments.clear()
        want["comments"] = []
    elif edit == "change comment":
        if not item.comments:
            return False
        item.comments[-1] = y
        want["comments"][-1] = y
    else:
        n = h.choice("number of comments", 4)
        item.comments[:] = [y] * n
        want["comments"] = [y] * n
    return True


def edit_item(h, kind, container, i, item, edit, y, want, items):
    """Changes the item and what is expected of it, returns False if it does not apply."""
    if kind.name == "macro definitions":
        if edit == "body":
            item.body = want["body"] = y
        elif edit == "multiline body":
            if item.commented_out:
                return False
            item.body = want["body"] = y + "\\\n" + y
        elif edit == "name":
            item.name = want["name"] = "n" + y
        elif edit == "global":
            item.is_global = want["is_global"] = not item.is_global
        else:
            if "\n" in item.body:
                return False
            item.commented_out = want["commented_out"] = not item.commented_out
            if h.bool("hash"):
                item.comment_out_style = CommentOutStyle.HASH
    elif kind.name in ("tags", "sourcelist"):
        if edit == "value":
            item.value = want["value"] = y
        elif edit == "multiline value":
            if items[i][1][0].startswith("%{?y"):
                # conditional expansions of several lines are not tags
                return False
            item.value = want["value"] = "%{expand:\n" + y + "}"
        elif edit == "location":
            item.location = want["location"] = y
        elif edit == "name":
            item.name = want["name"] = h.one_of("name", ["Patch", "Source55", "URL"])
        elif edit == "set by name":
            setattr(container, item.name.lower(), y)
            want["value"] = y
        else:
            return comments(h, item, edit, y, want)
    elif kind.name == "prep":
        if edit == "b":
            item.options.b = y
            want["b"] = int(y) if y.isdigit() else y
        elif edit == "p":
            item.options.p = want["p"] = h.int("p", 0, 12)
        elif edit == "E":
            item.options.E = want["E"] = True
        elif edit == "del b":
            del item.options.b
            want["b"] = None
        elif edit == "number":
            item.number = 77
            if want["P"] is not None:
                want["P"] = 77
            elif item.options.positional:
                want["positional"][0] = 77
            else:
                want["name"] = "%patch77"
        else:
            item.options.positional.append("z" + y)
            want["positional"].append("z" + y)
    elif kind.name == "sections":
        if edit == "append":
            item.append(y)
            want["data"].append(y)
        elif edit == "set":
            item.data = ["", y]
            want["data"] = ["", y]
        elif edit == "clear":
            item.clear()
            want["data"] = []
        elif edit == "set by id":
            setattr(container, item.id.upper() if False else item.id, [y, y])
            want["data"] = [y, y]
        elif edit == "option":
            item.options.positional.append("z" + y)
            want["id"] += " z" + y
        else:
            item.name = "install"
            want["id"] = "install" + want["id"][want["id"].index(" ") :]
    else:
        if edit == "header":
            item.header = want["header"] = "* new" + y
        elif edit == "content":
            item.content = want["content"] = ["- " + y, "- " + y]
        else:
            item.content.append("- " + y)
            want["content"].append("- " + y)
    return True


def undo(kind, item, edit, before, style):
    """Changes the item back, returns False if that does not have to restore the original lines"""
    if edit in ("body", "multiline body"):
        item.body = before["body"]
    elif edit == "global":
        item.is_global = before["is_global"]
    elif edit == "commented out":
        item.commented_out = before["commented_out"]
        item.comment_out_style = style
    elif edit == "name":
        if kind.name == "sections":
            item.name = before["id"].split()[0]
        else:
            item.name = before["name"]
    elif edit in ("value", "multiline value", "set by name"):
        item.value = before["value"]
    elif edit == "location":
        item.location = before["location"]
    elif edit == "append comment":
        item.comments.pop()
    elif edit == "insert comment":
        del item.comments[0]
    elif edit == "change comment":
        item.comments[-1] = before["comments"][-1]
    elif edit == "replace comments" and len(item.comments) == len(before["comments"]):
        item.comments[:] = before["comments"]
    elif edit == "append":
        if kind.name == "sections":
            item.pop()
        else:
            item.content.pop()
    elif edit in ("set", "set by id"):
        item.data = before["data"]
    elif edit == "clear":
        item.extend(before["data"])
    elif edit == "header":
        item.header = before["header"]
    elif edit == "content":
        item.content = before["content"]
    else:
        return False
    return True


def spans_of(kind, items, tail, off):
    if kind.name != "changelog":
        return own_spans(kind, items, off)
    spans = []
    pos = len(tail)
    for pre, own in reversed(items):
        spans.insert(0, (pos, pos + len(own)))
        pos += len(own) + len(pre)
    return spans


def edit(h):
    kind, items, tail, lines, container, off = setup(h)
    i = h.choice("i", len(items))
    y = h.str("y", 1, alphabet=CHARS)
    what = h.one_of("edit", EDITS[kind.name])
    want = [observe(kind, x) for x in container]
    before = observe(kind, container[i + off])
    style = getattr(container[i + off], "comment_out_style", None)
    if not edit_item(h, kind, container, i, container[i + off], what, y, want[i + off], items):
        return
    h.check_eq([observe(kind, x) for x in container], want, "items after the change")
    got = kind.render(container)
    start, end = spans_of(kind, items, tail, off)[i]
    rest = len(lines) - end
    h.check(len(got) >= start + rest, "lines are missing")
    h.check_eq(got[:start], lines[:start], "lines before the changed item")
    h.check_eq(got[len(got) - rest :] if rest else [], lines[end:], "lines after the changed item")
    again = kind.parse(list(got))
    h.check_eq(len(again), len(container), "number of items when read again")
    h.check_eq([observe(kind, x) for x in again], want, "items when read again")
    if undo(kind, container[i + off], what, before, style):
        h.check_eq(kind.render(container), lines, "lines after changing the item back")
    h.cover(kind.name + ": " + what)


def harnesses(tier):
    deep = tier == "thorough"
    for k in KINDS:
        for n in (1, 2) + ((3,) if deep else ()):
            yield "edit", edit, {"kind": k, "n": n, "before": None if deep or n < 2 else 5 if k == "tags" else 4}


COVERS_ALL = [k + ": " + e for k in EDITS for e in EDITS[k]]
BOUNDS = {
    "quick": "lists of 1 or 2 items of all 6 kinds, 2 to 4 forms of an item, up to 7 kinds of lines in between, 33 kinds of changes, new texts of one arbitrary alphanumeric character",
    "thorough": "up to 3 items of all kinds",
}
ASSUMPTIONS = [
    "changelog entries have content (RPM takes a header following another header for its content)",
    "single-line macro definitions only are commented out",
    "new texts are one arbitrary alphanumeric character (other values are covered by C02 to C09 and C15)",
]
