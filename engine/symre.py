"""
`re` over symbolic strings.

The pattern's own parse tree (CPython's sre parser) is executed by a
backtracking matcher that, where a character is symbolic, carries the condition
under which the branch is taken.  The alternatives come out in sre's priority
order, so the outcome is the first one whose condition holds; which one that is
gets decided by the solver.
"""

import functools
import re as _re
from re import _constants as _c, _parser

from . import ops
from .core import ENGINE, FULL, f_and, f_not, f_or, has_sym, mask_of

E = ENGINE

A = ASCII = _re.ASCII
I = IGNORECASE = _re.IGNORECASE
L = LOCALE = _re.LOCALE
M = MULTILINE = _re.MULTILINE
S = DOTALL = _re.DOTALL
X = VERBOSE = _re.VERBOSE
U = UNICODE = _re.UNICODE
NOFLAG = _re.NOFLAG
DEBUG = _re.DEBUG
RegexFlag = _re.RegexFlag
error = _re.error

_SPECIAL = mask_of("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
MAX_CUBES = 600


class TooMany(Exception):
    pass


# ---------------------------------------------------------------- character classes
def _q(ch):
    return "\\U%08x" % ch


def _class_pattern(items):
    out = []
    neg = ""
    for op, av in items:
        if op is _c.NEGATE:
            neg = "^"
        elif op is _c.LITERAL:
            out.append(_q(av))
        elif op is _c.RANGE:
            out.append(_q(av[0]) + "-" + _q(av[1]))
        elif op is _c.CATEGORY:
            out.append(
                {
                    _c.CATEGORY_DIGIT: r"\d",
                    _c.CATEGORY_NOT_DIGIT: r"\D",
                    _c.CATEGORY_SPACE: r"\s",
                    _c.CATEGORY_NOT_SPACE: r"\S",
                    _c.CATEGORY_WORD: r"\w",
                    _c.CATEGORY_NOT_WORD: r"\W",
                }[av]
            )
        else:
            raise NotImplementedError(op)
    return "[" + neg + "".join(out) + "]"


_FMASK = _re.IGNORECASE | _re.ASCII | _re.DOTALL


@functools.lru_cache(None)
def _char_pred(pattern, flags):
    rx = _re.compile(pattern, flags)
    memo = {}

    def pred(c):
        r = memo.get(c)
        if r is None:
            r = memo[c] = rx.fullmatch(c) is not None
        return r

    return ("re", pattern, int(flags)), pred


class CharSet:
    """A single-character node."""

    __slots__ = ("key", "pred", "sym", "neg", "ic")

    def __init__(self, pattern=None, flags=0, sym=None, neg=False):
        self.sym = sym
        self.neg = neg
        self.ic = bool(flags & _re.IGNORECASE)
        if sym is None:
            self.key, self.pred = _char_pred(pattern, flags & _FMASK)

    def test(self, ch):
        """bool, or formula under which `ch` matches."""
        if self.sym is not None:
            if self.ic:
                f = ops.str_eqf(ops.s_lower(ch), ops.s_lower(self.sym))
            else:
                f = ops.ch_eq(ch, self.sym)
            return f_not(f) if self.neg else f
        k = E.cells.get(ch)
        if k is None:
            return self.pred(ch)
        return ("a", k.var, k.preimage(self.key, self.pred))


def _is_single(op):
    return op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN)


def _compile_char(op, av, flags):
    if op is _c.LITERAL or op is _c.NOT_LITERAL:
        ch = chr(av)
        if 0x40000 <= av <= 0xDFFFF:
            return CharSet(flags=flags, sym=ch, neg=op is _c.NOT_LITERAL)
        p = _q(av)
        if op is _c.NOT_LITERAL:
            p = "[^" + p + "]"
        return CharSet(p, flags)
    if op is _c.ANY:
        return CharSet(".", flags)
    return CharSet(_class_pattern(av), flags)


def _compile_seq(seq, flags):
    return [_compile_node(op, av, flags) for op, av in seq]


def _compile_node(op, av, flags):
    if _is_single(op):
        return ("ch", _compile_char(op, av, flags))
    if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
        lo, hi, sub = av
        if hi is _c.MAXREPEAT:
            hi = 1 << 30
        kind = {
            _c.MAX_REPEAT: "max",
            _c.MIN_REPEAT: "min",
            _c.POSSESSIVE_REPEAT: "poss",
        }[op]
        if len(sub) == 1 and _is_single(sub[0][0]) and kind != "poss":
            return (kind + "1", lo, hi, _compile_char(sub[0][0], sub[0][1], flags))
        if kind == "poss":
            return ("atomic", [("max", lo, hi, _compile_seq(sub, flags))])
        return (kind, lo, hi, _compile_seq(sub, flags))
    if op is _c.SUBPATTERN:
        group, add, dele, sub = av
        return ("grp", group, _compile_seq(sub, (flags | add) & ~dele))
    if op is _c.BRANCH:
        return ("alt", [_compile_seq(s, flags) for s in av[1]])
    if op is _c.AT:
        return ("at", av, flags)
    if op is _c.GROUPREF:
        return ("ref", av, flags)
    if op is _c.GROUPREF_EXISTS:
        g, yes, no = av
        return ("refif", g, _compile_seq(yes, flags), _compile_seq(no or [], flags))
    if op is _c.ASSERT:
        return ("look", av[0], _compile_seq(av[1], flags), _width(av[1]))
    if op is _c.ASSERT_NOT:
        return ("nlook", av[0], _compile_seq(av[1], flags), _width(av[1]))
    if op is _c.ATOMIC_GROUP:
        return ("atomic", _compile_seq(av, flags))
    if op is _c.FAILURE:
        return ("alt", [])
    raise NotImplementedError(op)


def _width(sub):
    try:
        return sub.getwidth()[0]
    except Exception:
        return 0


# ---------------------------------------------------------------- matcher
_WORD = {
    0: _char_pred(r"\w", 0),
    int(_re.ASCII): _char_pred(r"\w", _re.ASCII),
}


def add(cube, f):
    """cube & f, or None when contradictory.  cube = (dict var->mask, extras)"""
    if f is True:
        return cube
    if f is False:
        return None
    d, ex = cube
    if f[0] == "a":
        v = f[1]
        cur = d.get(v)
        if cur is None:
            cur = E.known[v]
        m = cur & f[2]
        if not m:
            return None
        if m == cur:
            return cube
        d = dict(d)
        d[v] = m
        return (d, ex)
    f = E.simp(f)
    if f is True:
        return cube
    if f is False:
        return None
    if f[0] == "a":
        return add(cube, f)
    if f[0] == "&":
        for x in f[1]:
            cube = add(cube, x)
            if cube is None:
                return None
        return cube
    return (d, ex + (f,))


EMPTY = ({}, ())


class Matcher:
    def __init__(self, s, endpos):
        self.s = s
        self.n = endpos
        self.steps = 0

    def seq(self, nodes, idx, pos, cube, groups, k):
        if idx == len(nodes):
            yield from k(pos, cube, groups)
            return
        node = nodes[idx]
        t = node[0]
        if t == "ch":
            # consume runs of single characters without recursion
            while True:
                if pos >= self.n:
                    return
                cube = add(cube, node[1].test(self.s[pos]))
                if cube is None:
                    return
                pos += 1
                idx += 1
                if idx == len(nodes):
                    yield from k(pos, cube, groups)
                    return
                node = nodes[idx]
                if node[0] != "ch":
                    break
            t = node[0]
        rest = lambda p, c, g: self.seq(nodes, idx + 1, p, c, g, k)
        if t == "max1":
            _, lo, hi, cs = node
            stack = [(pos, cube)]
            p, c = pos, cube
            while len(stack) <= hi and p < self.n:
                c = add(c, cs.test(self.s[p]))
                if c is None:
                    break
                p += 1
                stack.append((p, c))
            for i in range(len(stack) - 1, lo - 1, -1):
                p, c = stack[i]
                yield from rest(p, c, groups)
        elif t == "min1":
            _, lo, hi, cs = node
            p, c = pos, cube
            cnt = 0
            while True:
                if cnt >= lo:
                    yield from rest(p, c, groups)
                if cnt >= hi or p >= self.n:
                    return
                c = add(c, cs.test(self.s[p]))
                if c is None:
                    return
                p += 1
                cnt += 1
        elif t == "max" or t == "min":
            _, lo, hi, sub = node
            yield from self.rep(t, lo, hi, sub, 0, -1, pos, cube, groups, rest)
        elif t == "grp":
            _, g, sub = node
            if g is None:
                yield from self.seq(sub, 0, pos, cube, groups, rest)
            else:
                start = pos

                def done(p, c, gr):
                    gr = dict(gr)
                    gr[g] = (start, p)
                    return rest(p, c, gr)

                yield from self.seq(sub, 0, pos, cube, groups, done)
        elif t == "alt":
            for sub in node[1]:
                yield from self.seq(sub, 0, pos, cube, groups, rest)
        elif t == "at":
            for c in self.at(node[1], node[2], pos, cube):
                yield from rest(pos, c, groups)
        elif t == "ref":
            sp = groups.get(node[1])
            if sp is None:
                return
            text = self.s[sp[0] : sp[1]]
            if pos + len(text) > self.n:
                return
            other = self.s[pos : pos + len(text)]
            if node[2] & _re.IGNORECASE:
                f = ops.str_eqf(ops.s_lower(text), ops.s_lower(other))
            else:
                f = ops.str_eqf(text, other)
            c = add(cube, f)
            if c is not None:
                yield from rest(pos + len(text), c, groups)
        elif t == "refif":
            sub = node[2] if node[1] in groups else node[3]
            yield from self.seq(sub, 0, pos, cube, groups, rest)
        elif t == "look":
            for c, g in self.firsts(node[2], self._back(node, pos), cube, groups):
                if c is not None:
                    yield from rest(pos, c, g)
        elif t == "nlook":
            p = self._back(node, pos)
            if p is None:
                yield from rest(pos, cube, groups)
                return
            cubes = self.all(node[2], p, cube, groups, pos if node[1] < 0 else None)
            c = add(cube, f_not(f_or(cube_f(c, cube) for c, _ in cubes)))
            if c is not None:
                yield from rest(pos, c, groups)
        elif t == "atomic":
            for c, g, p in self.firsts_pos(node[1], pos, cube, groups):
                yield from rest(p, c, g)
        else:
            raise NotImplementedError(t)

    def _back(self, node, pos):
        if node[1] >= 0:
            return pos
        p = pos - node[3]
        return p if p >= 0 else None

    def all(self, sub, pos, cube, groups, must_end=None):
        out = []
        for p, c, g in self.seq(sub, 0, pos, cube, groups, _leaf):
            if must_end is not None and p != must_end:
                continue
            out.append((c, g))
            if c is cube:
                break
            self.limit(len(out))
        return out

    def firsts(self, sub, pos, cube, groups):
        """Positive lookaround: the first alternative that matches, and only it."""
        if pos is None:
            return
        prev = []
        for c, g in self.all(sub, pos, cube, groups):
            c2 = c
            for q in prev:
                c2 = add(c2, f_not(cube_f(q, cube)))
                if c2 is None:
                    break
            if c2 is not None:
                yield c2, g
            prev.append(c)

    def firsts_pos(self, sub, pos, cube, groups):
        prev = []
        for p, c, g in self.seq(sub, 0, pos, cube, groups, _leaf):
            c2 = c
            for q in prev:
                c2 = add(c2, f_not(cube_f(q, cube)))
                if c2 is None:
                    break
            if c2 is not None:
                yield c2, g, p
            if c is cube:
                return
            prev.append(c)
            self.limit(len(prev))

    def limit(self, n):
        if n > MAX_CUBES:
            raise TooMany

    def rep(self, t, lo, hi, sub, count, last, pos, cube, groups, rest):
        again = lambda p, c, g: self.rep(
            t, lo, hi, sub, count + 1, pos, p, c, g, rest
        )
        if count < lo:
            yield from self.seq(sub, 0, pos, cube, groups, again)
            return
        if t == "max":
            if count < hi and pos != last:
                yield from self.seq(sub, 0, pos, cube, groups, again)
            yield from rest(pos, cube, groups)
        else:
            yield from rest(pos, cube, groups)
            if count < hi and pos != last:
                yield from self.seq(sub, 0, pos, cube, groups, again)

    def at(self, code, flags, pos, cube):
        s, n = self.s, self.n
        ml = flags & _re.MULTILINE
        f = None
        if code is _c.AT_BEGINNING_STRING or code is _c.AT_BEGINNING and not ml:
            f = pos == 0
        elif code is _c.AT_BEGINNING:
            f = pos == 0 or ops.ch_eq(s[pos - 1], "\n")
        elif code is _c.AT_END_STRING:
            f = pos == n
        elif code is _c.AT_END:
            if pos == n:
                f = True
            elif ml or pos == n - 1:
                f = ops.ch_eq(s[pos], "\n")
            else:
                f = False
        elif code in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            key, pred = _WORD[int(flags & _re.ASCII)]
            a = ops.ch_in(s[pos - 1], key, pred) if pos > 0 else False
            b = ops.ch_in(s[pos], key, pred) if pos < n else False
            if n == 0:
                if code is _c.AT_BOUNDARY:
                    return
                return  # sre: \B does not match in an empty string
            if code is _c.AT_BOUNDARY:
                opts = [(a, f_not(b)), (f_not(a), b)]
            else:
                opts = [(a, b), (f_not(a), f_not(b))]
            for x, y in opts:
                c = add(cube, x)
                if c is not None:
                    c = add(c, y)
                if c is not None:
                    yield c
            return
        else:
            raise NotImplementedError(code)
        c = add(cube, f)
        if c is not None:
            yield c


def _leaf(p, c, g):
    yield p, c, g


def cube_f(c, base=EMPTY):
    """Formula of cube c, given that `base` already holds."""
    if c is base:
        return True
    d0, e0 = base
    fs = [("a", v, m) for v, m in c[0].items() if d0.get(v) != m]
    fs.extend(c[1][len(e0) :])
    return f_and(fs)


def _subsumed(c, earlier):
    d, ex = c
    for d0, e0 in earlier:
        if any(x not in ex for x in e0):
            continue
        for v, m in d0.items():
            cur = d.get(v)
            if cur is None:
                cur = E.known[v]
            if cur & ~m:
                break
        else:
            return True
    return False


def _disjoint(a, b):
    da, db = a[0], b[0]
    for v, m in da.items():
        n = db.get(v)
        if n is not None and not n & m:
            return True
    return False


# ---------------------------------------------------------------- public API
class Match:
    def __init__(self, rx, string, pos, endpos, cands):
        self.re = rx
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._cands = cands  # [(spans dict incl. 0, cube)]

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _idx(self, g):
        if isinstance(g, str):
            g = ops.concretize_known(g)
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if isinstance(g, int) and not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def _span(self, g):
        g = self._idx(g)
        cands = self._cands
        first = cands[0][0].get(g)
        if all(c[0].get(g) == first for c in cands):
            return first
        vals = []
        for spans, _ in cands:
            v = spans.get(g)
            if v not in vals:
                vals.append(v)
        for v in vals[:-1]:
            fs = []
            for i, (spans, cube) in enumerate(cands):
                if spans.get(g) != v:
                    continue
                f = [cube_f(cube)]
                for sp2, c2 in cands[:i]:
                    if sp2.get(g) != v and not _disjoint(c2, cube):
                        f.append(f_not(cube_f(c2)))
                fs.append(f_and(f))
            if E.branch(f_or(fs)):
                self._narrow([c for c in cands if c[0].get(g) == v])
                return v
        v = vals[-1]
        self._narrow([c for c in cands if c[0].get(g) == v])
        return v

    def _narrow(self, cands):
        # Candidates of the chosen value only.  An excluded earlier candidate
        # cannot hold any more, so dropping it keeps the priority order exact.
        self._cands = cands

    def span(self, g=0):
        v = self._span(g)
        return (-1, -1) if v is None else v

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _group(self, g, default=None):
        v = self._span(g)
        return default if v is None else self.string[v[0] : v[1]]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        if len(gs) == 1:
            return self._group(gs[0])
        return tuple(self._group(g) for g in gs)

    __getitem__ = _group

    def groups(self, default=None):
        return tuple(self._group(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._group(k, default) for k in self.re.groupindex}

    @property
    def lastindex(self):
        best = None
        for i in range(1, self.re.groups + 1):
            v = self._span(i)
            if v is not None and (best is None or v[1] >= self._span(best)[1]):
                if best is None or v[1] > self._span(best)[1] or True:
                    best = i if best is None or v[1] > self._span(best)[1] else best
        return best

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == i:
                return k
        return None

    def expand(self, template):
        return self.re._expand(template, self)


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.native = _re.compile(pattern, flags)
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)
        self.sym = has_sym(pattern)
        self._prog = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Pattern) and self.native == o.native

    def __hash__(self):
        return hash(self.native)

    @property
    def prog(self):
        if self._prog is None:
            tree = _parser.parse(self.pattern, int(self.flags & ~_re.UNICODE))
            self._prog = _compile_seq(tree, tree.state.flags)
        return self._prog

    # ------------------------------------------------------------ engine
    def _candidates(self, s, pos, endpos, mode, must_advance):
        """Yields (spans, cube) in priority order."""
        mt = Matcher(s, endpos)
        starts = range(pos, endpos + 1) if mode == "search" else (pos,)
        for st in starts:
            for p, c, g in mt.seq(self.prog, 0, st, EMPTY, {}, _leaf):
                if mode == "fullmatch" and p != endpos:
                    continue
                if must_advance and st == pos and p == pos:
                    continue
                g = dict(g)
                g[0] = (st, p)
                yield g, c
                if c is EMPTY:
                    return

    def _run(self, s, pos, endpos, mode, must_advance=False):
        if not isinstance(s, str):
            raise TypeError("expected string or bytes-like object, got %r" % type(s))
        n = len(s)
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        pos = max(0, min(int(pos), n))
        if pos > endpos:
            return None
        if not self.sym and not has_sym(s) and not must_advance:
            return getattr(self.native, mode)(s, pos, endpos)
        s2 = ops.concretize_known(s)
        if not self.sym and not has_sym(s2) and not must_advance:
            m = getattr(self.native, mode)(s2, pos, endpos)
            return m and _wrap(self, s, pos, endpos, m)
        cands = []
        cubes = []
        try:
            for g, c in self._candidates(s, pos, endpos, mode, must_advance):
                if _subsumed(c, cubes):
                    continue
                cands.append((g, c))
                cubes.append(c)
                E.stats.cubes += 1
                if len(cands) > MAX_CUBES:
                    raise TooMany
        except TooMany:
            if E.realize_str(s) is None:  # pragma: no cover
                raise
            return self._run(s, pos, endpos, mode, must_advance)
        if not cands:
            return None
        if cubes[-1] is not EMPTY:
            if not E.branch(f_or(cube_f(c) for c in cubes)):
                return None
            # what the decision has ruled out in the meantime
            cands = [
                (g, c)
                for g, c in cands
                if all(m & E.known[v] for v, m in c[0].items())
            ]
        return Match(self, s, pos, endpos, cands)

    def match(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, "match")

    def fullmatch(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, "fullmatch")

    def search(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, "search")

    def finditer(self, string, pos=0, endpos=None):
        if not self.sym and not has_sym(string):
            yield from self.native.finditer(
                string, pos, len(string) if endpos is None else endpos
            )
            return
        must = False
        while pos <= len(string):
            m = self._run(string, pos, endpos, "search", must)
            if m is None:
                return
            a, b = m.span()
            yield m
            must = a == b
            pos = b

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or "")
            else:
                out.append(tuple(x or "" for x in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            a, b = m.span()
            out.append(string[last:a])
            out.extend(m.groups())
            last = b
            n += 1
            if maxsplit and n >= maxsplit:
                break
        out.append(string[last:])
        return out

    def _expand(self, repl, m):
        if callable(repl):
            return repl(m)
        if has_sym(repl) and E.branch(ops.containsf("\\", repl)):
            repl = E.realize_str(repl)
        if "\\" not in repl:
            return repl
        out = []
        for part in _parser.parse_template(repl, self.native):
            if isinstance(part, int):
                out.append(m.group(part) or "")
            else:
                out.append(part)
        return "".join(out)

    def subn(self, repl, string, count=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            a, b = m.span()
            out.append(string[last:a])
            out.append(self._expand(repl, m))
            last = b
            n += 1
            if count and n >= count:
                break
        out.append(string[last:])
        return "".join(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


def _wrap(rx, s, pos, endpos, m):
    spans = {0: m.span()}
    for i in range(1, rx.groups + 1):
        if m.start(i) >= 0:
            spans[i] = m.span(i)
    return Match(rx, s, pos, endpos, [(spans, EMPTY)])


@functools.lru_cache(1000)
def _compile(pattern, flags):
    return Pattern(pattern, flags)


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if not has_sym(pattern):
        return _compile(pattern, flags)
    # an unescaped symbolic character may be a metacharacter
    out = []
    esc = False
    for ch in pattern:
        k = E.cells.get(ch)
        if k is not None and not esc:
            if E.branch(("a", k.var, k.pre_mask(_SPECIAL))):
                ch = E.realize_str(ch)
            else:
                out.append("\\")
        esc = ch == "\\" and not esc
        out.append(ch)
    p = "".join(out)
    if not has_sym(p):
        return _compile(p, flags)
    return Pattern(p, flags)


def escape(pattern):
    if not has_sym(pattern):
        return _re.escape(pattern)
    return "".join(
        "\\" + c if c in E.cells else _re.escape(c) for c in pattern
    )


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def purge():
    pass
