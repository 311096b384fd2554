"""
Stand-in for the `rpm` bindings, used by the symbolic runs and by the replays.

Each harness installs a model (`MODEL`) that answers macro expansion and spec
parsing; everything it may answer is stated in the harness.  `labelCompare`
follows rpmvercmp (checked against the real library by setup.sh).
"""

import os

RPMSPEC_ANYARCH = 1 << 0
RPMSPEC_FORCE = 1 << 1


class error(Exception):
    pass


class Model:
    """Default: nothing expands, parsing always succeeds."""

    def expand(self, text):
        return text

    def add_macro(self, name, body):
        pass

    def del_macro(self, name):
        pass

    def reload_config(self):
        pass

    def dump(self):
        """Lines of the macro dump, the summary excluded."""
        return []

    def parse_spec(self, path, flags):
        return spec_result()


class spec_result:
    sources = ()


MODEL = Model()


def install(model):
    global MODEL
    MODEL = model
    return model


def expandMacro(text, numeric=False):
    if text == "%dump":
        lines = MODEL.dump() + ["======================== active %d empty 0\n" % 0]
        os.write(2, "".join(lines).encode("utf-8", "surrogateescape"))
        return ""
    return MODEL.expand(text)


def addMacro(name, body):
    MODEL.add_macro(name, body)


def delMacro(name):
    MODEL.del_macro(name)


def reloadConfig(*args):
    MODEL.reload_config()
    return True


def spec(path, flags=0):
    return MODEL.parse_spec(path, flags)


def _alpha(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def _digit(c):
    return "0" <= c <= "9"


def _vercmp(a, b):
    if a == b:
        return 0
    i = j = 0
    while i < len(a) or j < len(b):
        while i < len(a) and not (_alpha(a[i]) or _digit(a[i]) or a[i] in "~^"):
            i += 1
        while j < len(b) and not (_alpha(b[j]) or _digit(b[j]) or b[j] in "~^"):
            j += 1
        ta, tb = i < len(a) and a[i] == "~", j < len(b) and b[j] == "~"
        if ta or tb:
            if not ta:
                return 1
            if not tb:
                return -1
            i += 1
            j += 1
            continue
        ca, cb = i < len(a) and a[i] == "^", j < len(b) and b[j] == "^"
        if ca or cb:
            if i >= len(a):
                return -1
            if j >= len(b):
                return 1
            if not ca:
                return 1
            if not cb:
                return -1
            i += 1
            j += 1
            continue
        if not (i < len(a) and j < len(b)):
            break
        p, q = i, j
        if _digit(a[i]):
            while i < len(a) and _digit(a[i]):
                i += 1
            while j < len(b) and _digit(b[j]):
                j += 1
            num = True
        else:
            while i < len(a) and _alpha(a[i]):
                i += 1
            while j < len(b) and _alpha(b[j]):
                j += 1
            num = False
        x, y = a[p:i], b[q:j]
        if not x:
            return -1
        if not y:
            return 1 if num else -1
        if num:
            x = x.lstrip("0")
            y = y.lstrip("0")
            if len(x) > len(y):
                return 1
            if len(x) < len(y):
                return -1
        if x < y:
            return -1
        if x > y:
            return 1
    if i >= len(a) and j >= len(b):
        return 0
    return 1 if i < len(a) else -1


def labelCompare(a, b):
    ea, va, ra = a
    eb, vb, rb = b
    for x, y in ((ea or "0", eb or "0"), (va, vb), (ra, rb)):
        if x is None and y is None:
            continue
        if x is None:
            return -1
        if y is None:
            return 1
        r = _vercmp(x, y)
        if r:
            return r
    return 0
