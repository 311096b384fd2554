"""Hooks that rewritten code calls for every observing operation."""

import collections
import functools
import types
import unicodedata

import z3

from . import core
from .core import (
    DOMAIN,
    ENGINE,
    FULL,
    INDEX,
    NDOM,
    SBool,
    SInt,
    digit_value,
    f_and,
    f_not,
    f_or,
    has_sym,
    mask_of,
    mask_pred,
)

E = ENGINE


# ---------------------------------------------------------------- characters
def cell(c):
    return E.cells.get(c)


def ch_in(c, key, pred):
    """Formula: pred(character c)."""
    k = E.cells.get(c)
    if k is None:
        return pred(c)
    return ("a", k.var, k.preimage(key, pred))


def ch_eq(a, b):
    if a == b:
        return True
    ca, cb = E.cells.get(a), E.cells.get(b)
    if ca is None and cb is None:
        return False
    if ca is None:
        return ("a", cb.var, cb.pre_char(a))
    if cb is None:
        return ("a", ca.var, ca.pre_char(b))
    if ca.map is None and cb.map is None:
        return ("=", ca.var, cb.var)
    if ca.var == cb.var:
        m = 0
        for i in range(NDOM):
            x = DOMAIN[i] if ca.map is None else ca.map[i]
            y = DOMAIN[i] if cb.map is None else cb.map[i]
            if x == y:
                m |= 1 << i
        return ("a", ca.var, m)
    ia, ib = _inverse(ca), _inverse(cb)
    ka, kb = E.known[ca.var], E.known[cb.var]
    parts = []
    for v, m in ia.items():
        n = ib.get(v)
        if n is not None and m & ka and n & kb:
            parts.append(f_and([("a", ca.var, m), ("a", cb.var, n)]))
    return f_or(parts)


def _inverse(c):
    inv = {}
    for i in range(NDOM):
        x = DOMAIN[i] if c.map is None else c.map[i]
        inv[x] = inv.get(x, 0) | 1 << i
    return inv


def ch_lt(a, b):
    if a == b:
        return False
    ca, cb = E.cells.get(a), E.cells.get(b)
    if ca is None and cb is None:
        return a < b
    if ca is None:
        return ("a", cb.var, cb.preimage(("gt", a), lambda x: x > a))
    if cb is None:
        return ("a", ca.var, ca.preimage(("lt", b), lambda x: x < b))
    if ca.map is None and cb.map is None:
        return ("<", ca.var, cb.var)
    return f_or(
        f_and([ch_eq(a, x), ch_lt(x, b)]) for x in set(_inverse(ca)) if len(x) == 1
    )


def concretize_known(s):
    """Replaces placeholders whose value is already determined."""
    if not has_sym(s):
        return s
    out = []
    for c in s:
        k = E.cells.get(c)
        if k is not None:
            m = E.known[k.var]
            if m & (m - 1) == 0 and m:
                i = m.bit_length() - 1
                c = DOMAIN[i] if k.map is None else k.map[i]
        out.append(c)
    return "".join(out)


# ---------------------------------------------------------------- formulas over values
def str_eqf(a, b):
    if a == b:
        return True
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        if x != y:
            f = E.simp(ch_eq(x, y))
            if f is False:
                return False
            fs.append(f)
    return f_and(fs)


def _truthf(x):
    if isinstance(x, SBool):
        return x.f
    return bool(x)


def _ul_eq(self, other):
    return E.branch(eqf(self.data, other.data if isinstance(other, collections.UserList) else other))


def _mapping_eq(self, other):
    if not isinstance(other, collections.abc.Mapping):
        return NotImplemented
    return E.branch(eqf(dict(self.items()), dict(other.items())))


# reached by super().__eq__()
collections.UserList.__eq__ = _ul_eq
collections.abc.Mapping.__eq__ = _mapping_eq
_UL_EQ = collections.UserList.__eq__


def eqf(a, b):
    """Formula for Python's a == b."""
    if a is b:
        return True
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa and sb:
        return str_eqf(a, b)
    if sa or sb:
        other = b if sa else a
        if other is None or isinstance(other, (int, list, tuple, dict, set)):
            return False
        return _truthf(a == b)
    ta, tb = type(a), type(b)
    if (ta is list and tb is list) or (
        isinstance(a, tuple) and isinstance(b, tuple) and ta is tb
    ):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = eqf(x, y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        fs = []
        for k, v in a.items():
            kk = key(b, k)
            if kk not in b:
                return False
            fs.append(eqf(v, b[kk]))
        return f_and(fs)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not _any_sym(a) and not _any_sym(b):
            return a == b
        return f_and(
            [containsf(x, b) for x in a] + [containsf(x, a) for x in b]
        )
    if isinstance(a, collections.UserList) and ta.__eq__ is _UL_EQ:
        return eqf(a.data, b.data if isinstance(b, collections.UserList) else b)
    if (
        isinstance(b, collections.UserList)
        and tb.__eq__ is _UL_EQ
        and ta in (list, tuple)
    ):
        return eqf(a, b.data)
    return _truthf(a == b)


def symv(x):
    """Whether a value that can be a key is symbolic."""
    if isinstance(x, str):
        return has_sym(x)
    if type(x) is tuple:
        return any(symv(y) for y in x)
    return isinstance(x, frozenset) and any(symv(y) for y in x)


def _any_sym(it):
    return any(symv(x) for x in it)


def eq(a, b):
    if type(a) is str and type(b) is str:
        if a == b:
            return True
        if len(a) != len(b) or (a.isascii() and b.isascii()):
            return False
        return E.branch(str_eqf(a, b))
    ta = type(a)
    if ta in _CONT or type(b) in _CONT:
        return E.branch(eqf(a, b))
    return a == b


def ne(a, b):
    if type(a) is str and type(b) is str:
        return not eq(a, b)
    if type(a) in _CONT or type(b) in _CONT:
        return not E.branch(eqf(a, b))
    return a != b


class _Cont:
    def __contains__(self, t):
        return t in (list, tuple, dict, OSet, set, frozenset) or (
            issubclass(t, collections.UserList) and t.__eq__ is _UL_EQ
        )


_CONT = _Cont()


def ltf(a, b):
    """Formula for string a < b."""
    res = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        res = f_or([ch_lt(x, y), f_and([ch_eq(x, y), res])])
    return res


def lt(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_sym(a) or has_sym(b)):
        return E.branch(ltf(a, b))
    if type(a) in (list, tuple) and type(a) is type(b):
        for x, y in zip(a, b):
            if not eq(x, y):
                return bool(lt(x, y))
        return len(a) < len(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return le(a, b) and not le(b, a)
    return a < b


def gt(a, b):
    if isinstance(a, (str, list, tuple, set, frozenset)):
        return lt(b, a)
    return a > b


def le(a, b):
    if isinstance(a, (str, list, tuple)):
        return not lt(b, a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_method(a, "issubset", (b,), {})
    return a <= b


def ge(a, b):
    if isinstance(a, (str, list, tuple)):
        return not lt(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_method(a, "issuperset", (b,), {})
    return a >= b


def containsf(x, container):
    """Formula for x in container (strings, lists, tuples, sets, dicts)."""
    if isinstance(container, str):
        if not isinstance(x, str):
            raise TypeError(
                "'in <string>' requires string as left operand, not "
                + type(x).__name__
            )
        n = len(x)
        if x in container:
            return True
        if not has_sym(x) and not has_sym(container):
            return False
        return f_or(
            str_eqf(container[i : i + n], x) for i in range(len(container) - n + 1)
        )
    fs = []
    for y in container:
        f = eqf(y, x)
        if f is True:
            return True
        fs.append(f)
    return f_or(fs)


_ITER_CONTAINS = {
    collections.UserList.__contains__,
    collections.abc.Sequence.__contains__,
    collections.deque.__contains__,
}


def contains(x, container):
    t = type(container)
    if t is str or t in (list, tuple):
        return E.branch(containsf(x, container))
    if t in (set, frozenset, dict) or isinstance(
        container, (collections.abc.KeysView, set, frozenset, dict)
    ):
        if isinstance(x, (str, tuple)):
            if x in container:
                return True
            if symv(x):
                return E.branch(containsf(x, container))
            return E.branch(f_or(eqf(y, x) for y in container if symv(y)))
        return x in container
    if isinstance(container, range) and isinstance(x, SInt):
        if container.step == 1:
            return E.branch(
                core._zsimp(z3.And(x.e >= container.start, x.e < container.stop))
            )
        return x.__index__() in container
    fn = getattr(t, "__contains__", None)
    if fn is None or fn in _ITER_CONTAINS or isinstance(
        container, collections.abc.ValuesView
    ):
        for y in container:
            if y is x or eq(x, y):
                return True
        return False
    return x in container


def notcontains(x, container):
    return not contains(x, container)


def cmpchain(a, *rest):
    """Chained comparison: rest = (op, thunk), ..."""
    res = True
    for op, thunk in rest:
        b = thunk()
        res = CMP[op](a, b)
        if not res:
            return res
        a = b
    return res


CMP = {
    "Eq": eq,
    "NotEq": ne,
    "Lt": lt,
    "LtE": le,
    "Gt": gt,
    "GtE": ge,
    "In": contains,
    "NotIn": notcontains,
    "Is": lambda a, b: a is b,
    "IsNot": lambda a, b: a is not b,
}


def key(container, k):
    """Canonical key under which `k` is stored in a dict (forks on equality)."""
    if (
        isinstance(k, (str, tuple))
        and isinstance(container, dict)
        and k not in container
    ):
        sym = symv(k)
        for y in container:
            if type(y) is type(k) and (sym or symv(y)) and eq(y, k):
                return y
    return k


def getitem(container, k):
    return container[key(container, k)]


class OSet(set):
    """A set with deterministic order of iteration, placeholders differ between executions of a path."""

    def __init__(self, items=()):
        self._order = dict.fromkeys(items)
        set.__init__(self, self._order)

    def __iter__(self):
        return iter(self._order)

    def __reduce_ex__(self, protocol):
        return OSet, (list(self._order),)

    def add(self, x):
        set.add(self, x)
        self._order.setdefault(x)

    def remove(self, x):
        set.remove(self, x)
        del self._order[x]

    def discard(self, x):
        if x in self._order:
            self.remove(x)

    def pop(self):
        if not self._order:
            raise KeyError("pop from an empty set")
        x = next(iter(self._order))
        self.remove(x)
        return x

    def clear(self):
        set.clear(self)
        self._order.clear()

    def copy(self):
        return OSet(self._order)

    __copy__ = copy

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self._order)) if self._order else "set()"


def _ordered(name, in_place):
    def method(self, *others):
        method = _SET_METHODS.get(name)
        if method is None:
            result = _SET_METHODS[_SET_OPERATOR_METHODS[name]](self, *others)
            return self if in_place else result
        return method(self, *others)

    return method


def mkset(items):
    items = list(items)
    if not _any_sym(items):
        return OSet(items)
    out = []
    for x in items:
        if not any(eq(x, y) for y in out):
            out.append(x)
    return OSet(out)


def dict_items(mapping):
    return [(k, mapping[k]) for k in mapping.keys()]


def mkdict(items):
    d = {}
    for k, v in items:
        d[key(d, k)] = v
    return d


# ---------------------------------------------------------------- str methods
def _slice(s, start, end):
    a, b, _ = slice(start, end).indices(len(s))
    return a, b


def s_startswith(s, prefix, start=None, end=None):
    a, b = _slice(s, start, end)
    if isinstance(prefix, tuple):
        return E.branch(f_or(_swf(s[a:b], p, a <= len(s)) for p in prefix))
    return E.branch(_swf(s[a:b], prefix, True))


def _swf(s, p, ok):
    if not isinstance(p, str):
        raise TypeError("startswith first arg must be str or a tuple of str")
    return len(s) >= len(p) and str_eqf(s[: len(p)], p)


def s_endswith(s, suffix, start=None, end=None):
    a, b = _slice(s, start, end)
    s = s[a:b]
    if not isinstance(suffix, tuple):
        suffix = (suffix,)
    return E.branch(
        f_or(
            len(s) >= len(p) and str_eqf(s[len(s) - len(p) :], p) for p in suffix
        )
    )


def s_find(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    if start is not None and start > len(s):
        return -1
    for i in range(a, b - len(sub) + 1):
        if E.branch(str_eqf(s[i : i + len(sub)], sub)):
            return i
    return -1


def s_rfind(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    if start is not None and start > len(s):
        return -1
    for i in range(b - len(sub), a - 1, -1):
        if E.branch(str_eqf(s[i : i + len(sub)], sub)):
            return i
    return -1


def s_index(s, sub, start=None, end=None):
    r = s_find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_rindex(s, sub, start=None, end=None):
    r = s_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_count(s, sub, start=None, end=None):
    a, b = _slice(s, start, end)
    if not sub:
        return b - a + 1
    n = 0
    i = a
    while i <= b - len(sub):
        if E.branch(str_eqf(s[i : i + len(sub)], sub)):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def s_replace(s, old, new, count=-1):
    if not old:
        return _native(s, "replace", old, new, count)
    out = []
    i = 0
    while i < len(s):
        if count != 0 and i + len(old) <= len(s) and E.branch(
            str_eqf(s[i : i + len(old)], old)
        ):
            out.append(new)
            i += len(old)
            count -= 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def _native(s, name, /, *args, **kw):
    s = E.realize_str(s)
    args = [E.realize_str(a) if isinstance(a, str) else a for a in args]
    return getattr(s, name)(*args, **kw)


_ISSPACE = lambda c: c.isspace()


def _is_space(c):
    return E.branch(ch_in(c, "isspace", _ISSPACE))


def s_split(s, sep=None, maxsplit=-1):
    if sep is None:
        out = []
        i = 0
        n = len(s)
        while True:
            while i < n and _is_space(s[i]):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(s[i:])
                return out
            j = i
            while j < n and not _is_space(s[j]):
                j += 1
            out.append(s[i:j])
            i = j
    if not sep:
        raise ValueError("empty separator")
    out = []
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = s_find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def s_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return s_split(s, sep)
    if sep is None:
        out = []
        n = len(s)
        while True:
            while n > 0 and _is_space(s[n - 1]):
                n -= 1
            if n == 0:
                break
            if len(out) >= maxsplit:
                out.append(s[:n])
                break
            j = n
            while j > 0 and not _is_space(s[j - 1]):
                j -= 1
            out.append(s[j:n])
            n = j
        return out[::-1]
    out = []
    end = len(s)
    while len(out) < maxsplit:
        j = s_rfind(s, sep, 0, end)
        if j < 0:
            break
        out.append(s[j + len(sep) : end])
        end = j
    out.append(s[:end])
    return out[::-1]


def s_partition(s, sep):
    if not sep:
        raise ValueError("empty separator")
    i = s_find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep) :])


def s_rpartition(s, sep):
    if not sep:
        raise ValueError("empty separator")
    i = s_rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep) :])


_BREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def s_splitlines(s, keepends=False):
    out = []
    i = 0
    n = len(s)
    start = 0
    while i < n:
        if E.branch(ch_in(s[i], "brk", lambda c: c in _BREAKS)):
            j = i + 1
            if (
                j < n
                and E.branch(ch_eq(s[i], "\r"))
                and E.branch(ch_eq(s[j], "\n"))
            ):
                j += 1
            out.append(s[start : j if keepends else i])
            start = i = j
        else:
            i += 1
    if start < n:
        out.append(s[start:])
    return out


def _strip_set(chars):
    if chars is None:
        return _is_space
    return lambda c: E.branch(f_or(ch_eq(c, x) for x in chars))


def s_lstrip(s, chars=None):
    f = _strip_set(chars)
    i = 0
    while i < len(s) and f(s[i]):
        i += 1
    return s[i:]


def s_rstrip(s, chars=None):
    f = _strip_set(chars)
    j = len(s)
    while j > 0 and f(s[j - 1]):
        j -= 1
    return s[:j]


def s_strip(s, chars=None):
    return s_rstrip(s_lstrip(s, chars), chars)


def s_removeprefix(s, p):
    return s[len(p) :] if s_startswith(s, p) else s[:]


def s_removesuffix(s, p):
    return s[: len(s) - len(p)] if p and s_endswith(s, p) else s[:]


_map_cache = {}


def _map_char(c, name, fn):
    k = E.cells.get(c)
    if k is None:
        return fn(c)
    known = E.known[k.var]
    ck = (k.map, name)
    table = _map_cache.get(ck)
    if table is None:
        table = tuple(fn(DOMAIN[i] if k.map is None else k.map[i]) for i in range(NDOM))
        long_ = 0
        for i, x in enumerate(table):
            if len(x) != 1:
                long_ |= 1 << i
        same = 0
        for i, x in enumerate(table):
            if x == (DOMAIN[i] if k.map is None else k.map[i]):
                same |= 1 << i
        _map_cache[ck] = table = (table, long_, same)
    table, long_, same = table
    if known & long_:
        # length-changing case mappings (e.g. sharp s): fork on each of them
        for i in range(NDOM):
            if long_ >> i & 1 and E.branch(("a", k.var, 1 << i)):
                return table[i]
        known = E.known[k.var]
    if known & same == known:
        return c
    return E.new_cell(map_=tuple(x if len(x) == 1 else "\0" for x in table), var=k.var)


def s_lower(s):
    return "".join(_map_char(c, "lower", str.lower) for c in s)


def s_upper(s):
    return "".join(_map_char(c, "upper", str.upper) for c in s)


def s_casefold(s):
    return "".join(_map_char(c, "casefold", str.casefold) for c in s)


def s_swapcase(s):
    return "".join(_map_char(c, "swapcase", str.swapcase) for c in s)


def s_capitalize(s):
    if not s:
        return s
    return _map_char(s[0], "capitalize", str.capitalize) + s_lower(s[1:])


def s_title(s):
    return _native(s, "title")


def s_translate(s, table):
    return "".join(_map_char(c, ("tr", id(table)), lambda x: x.translate(table)) for c in s)


def _mk_is(name):
    fn = getattr(str, name)

    def impl(s):
        if not s:
            return False
        return E.branch(f_and(ch_in(c, name, fn) for c in s))

    return impl


def s_isprintable(s):
    return E.branch(f_and(ch_in(c, "isprintable", str.isprintable) for c in s))


def s_isascii(s):
    return E.branch(f_and(ch_in(c, "isascii", str.isascii) for c in s))


def s_islower(s):
    return E.branch(
        f_and(
            [f_not(ch_in(c, "isU", lambda x: x.isupper() or x.istitle())) for c in s]
            + [f_or(ch_in(c, "isL", str.islower) for c in s)]
        )
    )


def s_isupper(s):
    return E.branch(
        f_and(
            [f_not(ch_in(c, "isLt", lambda x: x.islower() or x.istitle() and not x.isupper())) for c in s]
            + [f_or(ch_in(c, "isU1", str.isupper) for c in s)]
        )
    )


def s_isidentifier(s):
    if not s:
        return False
    return E.branch(
        f_and(
            [ch_in(s[0], "ident0", str.isidentifier)]
            + [ch_in(c, "ident1", lambda x: ("a" + x).isidentifier()) for c in s[1:]]
        )
    )


def s_zfill(s, width):
    if len(s) >= width:
        return s
    pad = "0" * (width - len(s))
    if s and E.branch(f_or([ch_eq(s[0], "+"), ch_eq(s[0], "-")])):
        return s[0] + pad + s[1:]
    return pad + s


STR_METHODS = {
    k[2:]: v for k, v in list(globals().items()) if k.startswith("s_") and callable(v)
}
for _n in ("isspace", "isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric"):
    STR_METHODS[_n] = _mk_is(_n)
# methods that only move characters
STR_NATIVE = {
    "join", "format", "ljust", "rjust", "center", "__len__", "__add__", "__mul__",
    "__getitem__", "__str__", "__iter__", "__format__", "__rmul__", "__hash__",
}
STR_NAMES = set(dir(str))


def str_method(s, name, args, kw):
    if name == "join":
        return s.join(args[0])
    sym = has_sym(s)
    if not sym:
        for a in args:
            if isinstance(a, str):
                if has_sym(a):
                    sym = True
            elif isinstance(a, SInt):
                sym = True
            elif isinstance(a, tuple) and _any_sym(a):
                sym = True
    if not sym:
        return getattr(s, name)(*args, **kw)
    if name in STR_NATIVE:
        return getattr(s, name)(*args, **kw)
    fn = STR_METHODS.get(name)
    if fn is not None:
        return fn(s, *args, **kw)
    if name == "__eq__":
        return eq(s, args[0])
    if name == "__contains__":
        return contains(args[0], s)
    if name == "encode":
        return SymBytes.encode(s, *args, **kw)
    return _native(s, name, *args, **kw)


class SymBytes(bytes):
    """
    Result of encoding a symbolic string: the bytes of the placeholders, so that
    they survive being written to and read back from files.
    """

    @staticmethod
    def encode(s, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "").replace("_", "") != "utf8" or errors not in ("strict", "surrogateescape", "surrogatepass"):
            return E.realize_str(s).encode(encoding, errors)
        if errors == "strict":
            # a lone surrogate cannot be encoded
            for c in s:
                if E.branch(ch_in(c, "surr", lambda x: "\ud800" <= x <= "\udfff")):
                    raise UnicodeEncodeError("utf-8", s, 0, 1, "surrogates not allowed")
            errors = "surrogateescape"
        return SymBytes(s.encode("utf-8", errors))


# ---------------------------------------------------------------- calls
def _is_rewritten(fn):
    f = getattr(fn, "__func__", fn)
    g = getattr(f, "__globals__", None)
    if g is not None and "__vf__" in g:
        return True
    w = getattr(f, "__wrapped__", None)
    if w is not None and w is not f:
        return _is_rewritten(w)
    if g is not None:
        return False
    if isinstance(fn, type):
        import sys

        m = sys.modules.get(fn.__module__)
        return m is not None and "__vf__" in vars(m)
    return False


def sym_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, str) and has_sym(x) and not a:
        from . import symre

        m = symre.compile(r"\s*([+-]?)(\d+(?:_\d+)*)\s*").fullmatch(x)
        if not m:
            raise ValueError("invalid literal for int() with base 10")
        e = z3.IntVal(0)
        for c in m.group(2):
            k = E.cells.get(c)
            if k is None:
                if c == "_":
                    continue
                e = e * 10 + unicodedata.decimal(c)
                continue
            if E.branch(ch_eq(c, "_")):
                continue
            e = e * 10 + digit_value(k)
        if m.group(1) and E.branch(str_eqf(m.group(1), "-")):
            e = -e
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)
    return int(x, *a)


def _cmp(a, b):
    if lt(a, b):
        return -1
    if lt(b, a):
        return 1
    return 0


def sym_sorted(it, key=None, reverse=False):
    items = list(it)
    ks = [key(x) if key else x for x in items]
    if not any(isinstance(k, (str, tuple, list)) for k in ks):
        return sorted(items, key=key, reverse=reverse)
    k2 = functools.cmp_to_key(_cmp)
    return sorted(items, key=lambda x: k2(key(x) if key else x), reverse=reverse)


def _minmax(native, args, kw, pick):
    items = list(args[0]) if len(args) == 1 else list(args)
    kf = kw.get("key")
    ks = [kf(x) if kf else x for x in items]
    if not items or not any(isinstance(k, (str, tuple, list)) for k in ks):
        return native(items, **kw)
    best = 0
    for i in range(1, len(items)):
        if pick(ks[i], ks[best]):
            best = i
    return items[best]


def sym_min(*args, **kw):
    return _minmax(min, args, kw, lambda a, b: lt(a, b))


def sym_max(*args, **kw):
    return _minmax(max, args, kw, lambda a, b: lt(b, a))


def sym_set(it=()):
    return mkset(it)


def sym_frozenset(it=()):
    return frozenset(mkset(it))


def sym_dict(*args, **kw):
    if len(args) == 1 and not isinstance(args[0], collections.abc.Mapping):
        d = mkdict((k, v) for k, v in args[0])
        d.update(kw)
        return d
    return dict(*args, **kw)


def sym_isinstance(x, t):
    if isinstance(x, SInt):
        ts = t if isinstance(t, tuple) else (t,)
        return int in ts or object in ts or SInt in ts
    if isinstance(x, SBool):
        ts = t if isinstance(t, tuple) else (t,)
        return bool in ts or int in ts or object in ts
    if isinstance(x, SymBytes):
        ts = t if isinstance(t, tuple) else (t,)
        return bytes in ts or isinstance(x, t)
    return isinstance(x, t)


def sym_type(*args):
    if len(args) == 1:
        if isinstance(args[0], SInt):
            return int
        if isinstance(args[0], SBool):
            return bool
        if type(args[0]) is OSet:
            return set
    return type(*args)


def sym_ord(c):
    return ord(E.realize_str(c))


def sym_hash(x):
    if isinstance(x, str):
        return hash(E.realize_str(x))
    if isinstance(x, tuple):
        return hash(tuple(sym_hash(i) if isinstance(i, (str, tuple)) else i for i in x))
    return hash(x)


def sym_bool(x=False):
    return bool(x)


def sym_getattr(obj, name, *d):
    if isinstance(name, str):
        name = realize_name(name)
    if isinstance(obj, str) and name in STR_NAMES:
        return ga(obj, name)
    return getattr(obj, name, *d)


def realize_name(name):
    name = concretize_known(name)
    return E.realize_str(name)


def sym_setattr(obj, name, v):
    setattr(obj, realize_name(name), v)


def sym_delattr(obj, name):
    delattr(obj, realize_name(name))


def sym_hasattr(obj, name):
    return hasattr(obj, realize_name(name))


SPECIAL = {
    int: sym_int,
    sorted: sym_sorted,
    min: sym_min,
    max: sym_max,
    set: sym_set,
    frozenset: sym_frozenset,
    dict: sym_dict,
    isinstance: sym_isinstance,
    type: sym_type,
    ord: sym_ord,
    hash: sym_hash,
    getattr: sym_getattr,
    setattr: sym_setattr,
    delattr: sym_delattr,
    hasattr: sym_hasattr,
}

# callables outside of rewritten code that only move strings around
import copy as _copy
import itertools as _it
import logging as _logging
import os as _os
import pickle as _pickle
import string as _string
import typing as _typing
import datetime as _datetime
import pathlib as _pathlib

SAFE = {
    list, tuple, len, zip, enumerate, reversed, map, filter, iter, next, print, repr,
    str, bool, sum, any, all, super, id, abs, range, property, callable, slice,
    _copy.copy, _copy.deepcopy, _typing.cast, _pickle.dumps, _pickle.loads,
    _string.Template, collections.deque, object, vars, dir, staticmethod, classmethod,
    bytes, isinstance, issubclass,
}
SAFE_MODULES = {"itertools", "functools", "copy", "logging", "typing", "contextlib", "operator", "abc", "enum", "dataclasses", "types", "_operator", "_functools", "engine.symre", "engine.hapi", "engine.core", "engine.ops"}


def _has_sym_arg(args, kw):
    for a in args:
        if isinstance(a, str):
            if has_sym(a):
                return True
        elif isinstance(a, SInt):
            return True
        elif type(a) in (list, tuple) and a and _any_sym(a):
            return True
    for a in kw.values():
        if isinstance(a, str) and has_sym(a) or isinstance(a, SInt):
            return True
    return False


def _realize_arg(a):
    if isinstance(a, str):
        return E.realize_str(a)
    if isinstance(a, SInt):
        return a.__index__()
    if type(a) is list:
        return [_realize_arg(x) for x in a]
    if type(a) is tuple:
        return tuple(_realize_arg(x) for x in a)
    return a


def _safe_target(fn):
    try:
        if fn in SAFE:
            return True
    except TypeError:
        return True
    if _is_rewritten(fn):
        return True
    if isinstance(fn, type):
        if issubclass(fn, (BaseException, collections.UserList)):
            return True
        m = fn.__module__
        return m in SAFE_MODULES
    if isinstance(fn, types.BuiltinMethodType):
        self = getattr(fn, "__self__", None)
        if self is not None and not isinstance(self, (types.ModuleType, str, type)):
            # methods of containers / generators / files
            return not isinstance(self, (bytes, int))
        if isinstance(self, type):
            return self in (dict, list, tuple, object)
        m = getattr(fn, "__module__", None)
        return m in SAFE_MODULES
    if isinstance(
        fn, (types.MethodWrapperType, types.WrapperDescriptorType, types.MethodDescriptorType)
    ):
        return not isinstance(getattr(fn, "__self__", None), str)
    if isinstance(fn, types.MethodType):
        o = fn.__self__
        if isinstance(o, (_string.Template, _logging.Logger, _pathlib.PurePath)):
            return True
        m = getattr(fn.__func__, "__module__", None)
        return m in SAFE_MODULES or m in ("collections", "collections.abc", "_collections_abc", "string")
    m = getattr(fn, "__module__", None)
    if m in SAFE_MODULES:
        return True
    if isinstance(fn, types.FunctionType):
        return False
    return not isinstance(fn, types.BuiltinFunctionType)


import operator as _operator

_OPERATOR = {}
for _n, _f in (("eq", eq), ("ne", ne), ("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
    _OPERATOR[getattr(_operator, _n)] = _f
_OPERATOR[_operator.contains] = lambda a, b: contains(b, a)
SPECIAL.update(_OPERATOR)
MAPPABLE = (map, filter)


def _fn(f):
    """Makes a function that isn't rewritten callable by library code."""
    if f is None or isinstance(f, types.FunctionType):
        return f
    return lambda *a, **k: call(f, *a, **k)


def _with_predicate(original):
    def wrapper(f, *args, **kw):
        return original(_fn(f), *args, **kw)

    return wrapper


def sym_groupby(iterable, key=None):
    groups = []
    for x in iterable:
        k = x if key is None else call(key, x)
        if not groups or not eq(groups[-1][0], k):
            groups.append((k, []))
        groups[-1][1].append(x)
    return iter([(k, iter(g)) for k, g in groups])


def sym_accumulate(iterable, func=None, *, initial=None):
    return _it.accumulate(iterable, func and _fn(func), initial=initial)


def sym_partial(f, /, *args, **kw):
    return functools.partial(call, f, *args, **kw)


def sym_methodcaller(name, /, *args, **kw):
    return lambda x: cm(x, name, *args, **kw)


def sym_itemgetter(*keys):
    def get(x, k):
        return x[key(x, k)] if isinstance(x, dict) else x[k]

    if len(keys) == 1:
        return lambda x: get(x, keys[0])
    return lambda x: tuple(get(x, k) for k in keys)


def sym_counter(iterable=None, /, **kw):
    counter = collections.Counter()
    if isinstance(iterable, collections.abc.Mapping) or kw:
        counter.update(iterable, **kw)
        return counter
    for x in iterable or ():
        k = key(counter, x)
        counter[k] = counter[k] + 1
    return counter


def sym_ordered_dict(*args, **kw):
    return collections.OrderedDict(sym_dict(*args, **kw))


def sym_fromkeys(iterable, value=None):
    return mkdict((x, value) for x in iterable)


for _f in (_it.takewhile, _it.dropwhile, _it.filterfalse, _it.starmap, functools.reduce):
    SPECIAL[_f] = _with_predicate(_f)
SPECIAL.update(
    {
        _it.groupby: sym_groupby,
        _it.accumulate: sym_accumulate,
        functools.partial: sym_partial,
        _operator.methodcaller: sym_methodcaller,
        _operator.itemgetter: sym_itemgetter,
        collections.Counter: sym_counter,
        collections.OrderedDict: sym_ordered_dict,
        dict.fromkeys: sym_fromkeys,
        _operator.or_: lambda a, b: binop("|", a, b),
        _operator.and_: lambda a, b: binop("&", a, b),
        _operator.sub: lambda a, b: binop("-", a, b),
    }
)


def call(fn, /, *args, **kw):
    try:
        sp = SPECIAL.get(fn)
    except TypeError:
        sp = None
    if sp is not None:
        return sp(*args, **kw)
    if fn in MAPPABLE and args and type(args[0]) in (type, types.BuiltinFunctionType, types.MethodDescriptorType):
        # map(int, xs), filter(str.strip, xs), ...
        f0 = args[0]
        if f0 is not None:
            args = (lambda *x: call(f0, *x),) + args[1:]
    if type(fn) is types.MethodDescriptorType and getattr(fn, "__objclass__", None) is str:
        return str_method(args[0], fn.__name__, args[1:], kw)
    if _has_sym_arg(args, kw) and not _safe_target(fn):
        args = [_realize_arg(a) for a in args]
        kw = {k: _realize_arg(v) for k, v in kw.items()}
    return fn(*args, **kw)


def match_sequence(subject, n, star):
    """Parts of a subject of a sequence pattern, None if there is no match."""
    if isinstance(subject, (str, bytes, bytearray)) or not isinstance(subject, collections.abc.Sequence):
        return None
    items = list(subject)
    if star is None:
        return items if len(items) == n else None
    if len(items) < n - 1:
        return None
    end = len(items) - (n - 1 - star)
    return items[:star] + [items[star:end]] + items[end:]


def match_mapping(subject, keys, rest):
    if not isinstance(subject, collections.abc.Mapping):
        return None
    result = []
    for k in keys:
        k = key(subject, k) if type(subject) is dict else k
        if k not in subject:
            return None
        result.append(subject[k])
    if rest:
        used = [key(subject, k) if type(subject) is dict else k for k in keys]
        result.append({k: v for k, v in subject.items() if k not in used})
    return result


def match_class(subject, cls, positional, keywords):
    if not sym_isinstance(subject, cls):
        return None
    result = []
    if positional:
        if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
            result.append(subject)
        else:
            result.extend(getattr(subject, a) for a in cls.__match_args__[:positional])
    for a in keywords:
        try:
            result.append(getattr(subject, a))
        except AttributeError:
            return None
    return result


def list_method(obj, name, args, kw):
    if name in ("index", "count", "remove"):
        x = args[0]
        if isinstance(x, (str, list, tuple, SInt)):
            if name == "count":
                return sum(1 for y in obj if y is x or eq(y, x))
            a, b = 0, len(obj)
            if len(args) > 1:
                a, b, _ = slice(*args[1:3]).indices(len(obj)) if len(args) > 2 else slice(args[1], None).indices(len(obj))
            for i in range(a, b):
                if obj[i] is x or eq(obj[i], x):
                    if name == "index":
                        return i
                    del obj[i]
                    return None
            raise ValueError("x not in list")
    if name == "sort":
        obj[:] = sym_sorted(obj, **kw)
        return None
    return getattr(obj, name)(*args, **kw)


def dict_method(obj, name, args, kw):
    if name in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__") and args:
        return getattr(obj, name)(key(obj, args[0]), *args[1:], **kw)
    if name == "__contains__":
        return contains(args[0], obj)
    if name == "update":
        other = args[0] if args else {}
        it = other.items() if hasattr(other, "items") else other
        for k, v in it:
            obj[key(obj, k)] = v
        obj.update(kw)
        return None
    return getattr(obj, name)(*args, **kw)


def _member(obj, x):
    """The element of a set that equals x (forks on equality), x if there is none."""
    if isinstance(x, (str, tuple)) and x not in obj:
        sym = symv(x)
        for y in obj:
            if type(y) is type(x) and (sym or symv(y)) and eq(x, y):
                return y
    return x


def set_method(obj, name, args, kw):
    if name in ("add", "discard", "remove"):
        return getattr(obj, name)(_member(obj, args[0]))
    if name == "__contains__":
        return contains(args[0], obj)
    if name in _SET_METHODS:
        return _SET_METHODS[name](obj, *[list(a) for a in args])
    return getattr(obj, name)(*args, **kw)


def _set_union(obj, *others):
    result = OSet(obj)
    for other in others:
        for x in other:
            result.add(_member(result, x))
    return result if isinstance(obj, set) else type(obj)(result)


def _set_intersection(obj, *others):
    result = list(obj)
    for other in others:
        other = mkset(other)
        result = [x for x in result if contains(x, other)]
    return OSet(result) if isinstance(obj, set) else type(obj)(result)


def _set_difference(obj, *others):
    result = list(obj)
    for other in others:
        other = mkset(other)
        result = [x for x in result if not contains(x, other)]
    return OSet(result) if isinstance(obj, set) else type(obj)(result)


def _set_symmetric_difference(obj, other):
    other = mkset(other)
    result = list(_set_difference(obj, other)) + list(_set_difference(other, obj))
    return OSet(result) if isinstance(obj, set) else type(obj)(result)


def _set_in_place(method):
    def update(obj, *others):
        result = list(method(obj, *others))
        obj.clear()
        for x in result:
            obj.add(x)

    return update


_SET_METHODS = {
    "union": _set_union,
    "intersection": _set_intersection,
    "difference": _set_difference,
    "symmetric_difference": _set_symmetric_difference,
    "update": _set_in_place(_set_union),
    "intersection_update": _set_in_place(_set_intersection),
    "difference_update": _set_in_place(_set_difference),
    "symmetric_difference_update": _set_in_place(_set_symmetric_difference),
    "isdisjoint": lambda obj, other: not any(contains(x, other) for x in obj),
    "issubset": lambda obj, other: all(contains(x, other) for x in obj),
    "issuperset": lambda obj, other: all(contains(x, list(obj)) for x in other),
}
_SET_OPERATORS = {
    "|": _set_union,
    "&": _set_intersection,
    "-": _set_difference,
    "^": _set_symmetric_difference,
}
_SETS = (OSet, set, frozenset)
_SET_OPERATOR_METHODS = {}
for _op, _n in (("or", "union"), ("and", "intersection"), ("sub", "difference"), ("xor", "symmetric_difference")):
    _SET_OPERATOR_METHODS["__%s__" % _op] = _n
    _SET_OPERATOR_METHODS["__i%s__" % _op] = "update" if _n == "union" else _n + "_update"
for _n in list(_SET_METHODS) + list(_SET_OPERATOR_METHODS):
    setattr(OSet, _n, _ordered(_n, _n.startswith("__i")))
_KEYS = type({}.keys())


def binop(op, a, b):
    """Operators that sets and dicts have in common with numbers."""
    ta, tb = type(a), type(b)
    if (ta in _SETS or ta is _KEYS) and (tb in _SETS or tb is _KEYS):
        return _SET_OPERATORS[op](OSet(a) if ta is _KEYS else a, b)
    elif op == "|" and ta is dict and tb is dict and (_any_sym(a) or _any_sym(b)):
        result = dict(a)
        dict_method(result, "update", (b,), {})
        return result
    return _BINARY[op](a, b)


def ibinop(op, a, b):
    """Augmented assignment"""
    if isinstance(a, set) and (type(b) in _SETS or type(b) is _KEYS):
        _set_in_place(_SET_OPERATORS[op])(a, b)
        return a
    if op == "|" and type(a) is dict:
        dict_method(a, "update", (b,), {})
        return a
    return _IN_PLACE[op](a, b)


_BINARY = {"|": _operator.or_, "&": _operator.and_, "-": _operator.sub, "^": _operator.xor}
_IN_PLACE = {"|": _operator.ior, "&": _operator.iand, "-": _operator.isub, "^": _operator.ixor}


_DICTS = {dict, collections.defaultdict, collections.OrderedDict, collections.Counter}


def cm(obj, name, /, *args, **kw):
    """obj.name(*args, **kw)"""
    t = type(obj)
    if t is str:
        return str_method(obj, name, args, kw)
    if t is list:
        return list_method(obj, name, args, kw)
    if t in _DICTS:
        return dict_method(obj, name, args, kw)
    if t in _SETS:
        return set_method(obj, name, args, kw)
    if t is tuple and name in ("index", "count"):
        return list_method(list(obj), name, args, kw)
    if obj is str and name in STR_NAMES and name != "maketrans":
        return str_method(args[0], name, args[1:], kw)
    fn = getattr(obj, name)
    if name in ("index", "count", "remove") and isinstance(obj, collections.UserList):
        if getattr(t, name) is getattr(collections.UserList, name):
            return list_method(obj.data, name, args, kw)
    elif name in ("index", "count", "remove") and isinstance(
        obj, collections.abc.Sequence
    ):
        base = getattr(t, name, None)
        if base in (collections.abc.Sequence.index, collections.abc.Sequence.count):
            return list_method(list(obj), name, args, kw)
        if base is getattr(collections.abc.MutableSequence, "remove"):
            i = list_method(list(obj), "index", args, kw)
            del obj[i]
            return None
    return call(fn, *args, **kw)


def ga(obj, name):
    """obj.name where name is also the name of a str method."""
    if type(obj) is str:
        return lambda *a, **k: str_method(obj, name, a, k)
    if obj is str and name != "maketrans":
        return lambda s, *a, **k: str_method(s, name, a, k)
    return getattr(obj, name)
