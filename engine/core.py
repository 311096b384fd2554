"""
Core of the bounded symbolic executor.

A symbolic string is an ordinary `str` of concrete length whose characters may
be *placeholders*: code points taken from unassigned planes, each standing for
one symbolic character (a cell).  Everything that merely moves characters
around (slicing, concatenation, join, f-strings, copying) therefore runs on the
real interpreter unchanged; everything that *observes* a character (comparison,
`in`, str methods, regular expressions, int(), dict lookup) goes through the
hooks in `ops.py`/`symre.py`, which turn the observation into a formula and ask
this module to decide it.

Exploration is by deterministic re-execution: `branch(f)` asks z3 which of
`pc & f` and `pc & !f` are satisfiable, takes one and queues the other.
"""

import sys
import time

import z3

import os as _os

_DEBUG_REALIZE = bool(_os.environ.get("VERIF_REALIZE"))

# ---------------------------------------------------------------- alphabet
_EXTRA = [
    0x017F,  # LATIN SMALL LETTER LONG S: matches 's' under re.IGNORECASE
    0x0663,  # ARABIC-INDIC DIGIT THREE: \d, isnumeric
    0x200B,  # ZERO WIDTH SPACE: not isspace
    0x2028,  # LINE SEPARATOR: str.splitlines boundary
    0x2029,  # PARAGRAPH SEPARATOR
    0x212A,  # KELVIN SIGN: matches 'k' under re.IGNORECASE
    0x3000,  # IDEOGRAPHIC SPACE
    0x4E2D,  # CJK letter
    0xDC80,  # surrogate escape of byte 0x80
    0xDCFF,  # surrogate escape of byte 0xff
    0xFEFF,  # BOM
]
DOMAIN = [chr(c) for c in sorted(list(range(256)) + _EXTRA)]
INDEX = {c: i for i, c in enumerate(DOMAIN)}
NDOM = len(DOMAIN)
FULL = (1 << NDOM) - 1
BITS = 9

SYM_LO, SYM_HI = 0x40000, 0xDFFFF
import re as _re

_SYM_RX = _re.compile("[\U00040000-\U000dffff]")
has_sym_search = _SYM_RX.search


def has_sym(s):
    return not s.isascii() and has_sym_search(s) is not None


def mask_of(chars):
    m = 0
    for c in chars:
        i = INDEX.get(c)
        if i is not None:
            m |= 1 << i
    return m


_pred_cache = {}


def mask_pred(key, pred):
    m = _pred_cache.get(key)
    if m is None:
        m = 0
        for i, c in enumerate(DOMAIN):
            if pred(c):
                m |= 1 << i
        _pred_cache[key] = m
    return m


# ---------------------------------------------------------------- control flow
class PathEnd(BaseException):
    """Base of exceptions that end the current path; never caught by `except Exception`."""


class Infeasible(PathEnd):
    pass


class Violation(PathEnd):
    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class PathTimeout(PathEnd):
    pass


class Inactive(PathEnd):
    """Raised when a hook runs outside of any path (e.g. from a late destructor)."""


class SolverUnknown(PathEnd):
    pass


# ---------------------------------------------------------------- formulas
# bool | ('a', var, mask) | ('=', var, var) | ('<', var, var) | ('&', fs) | ('|', fs) | ('!', f) | ('z', z3expr)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "a":
        return ("a", f[1], FULL & ~f[2])
    if f[0] == "!":
        return f[1]
    return ("!", f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "&":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("&", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "|":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("|", tuple(out))


class Cell:
    __slots__ = ("ch", "var", "map")

    def __init__(self, ch, var, map_=None):
        self.ch = ch
        self.var = var
        self.map = map_  # None (identity) or tuple of chars indexed by domain index

    def preimage(self, mask_fn_key, pred):
        """Mask over the base variable for which pred(character) holds."""
        if self.map is None:
            return mask_pred(mask_fn_key, pred)
        key = (self.map, mask_fn_key)
        m = _pred_cache.get(key)
        if m is None:
            m = 0
            for i, c in enumerate(self.map):
                if pred(c):
                    m |= 1 << i
            _pred_cache[key] = m
        return m

    def pre_char(self, c):
        if self.map is None:
            i = INDEX.get(c)
            return 0 if i is None else 1 << i
        return self.preimage(("chr", c), lambda x: x == c)

    def pre_mask(self, mask):
        """Mask over base variable for which the character is in the domain mask."""
        if self.map is None:
            return mask
        m = 0
        for i, c in enumerate(self.map):
            j = INDEX.get(c)
            if j is not None and mask >> j & 1:
                m |= 1 << i
        return m


class Stats:
    FIELDS = (
        "paths queries sat unsat unknown solver_s obligations forced branches realized "
        "pathend_infeasible timeouts cubes"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class Engine:
    def __init__(self):
        self.active = False
        self.cells = {}
        self.known = []
        self.stats = Stats()
        self.covers = {}
        self._next_cp = SYM_LO
        self._zvars = []
        self._zatoms = {}
        self._ivars = {}
        self.reset_solver()
        self.path_hooks = []  # callables run at path start (cache clearing)

    # ------------------------------------------------------------ solver
    def reset_solver(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 20000)
        self.trail = []  # free decisions currently pushed

    def zvar(self, i):
        while len(self._zvars) <= i:
            self._zvars.append(z3.BitVec("c%d" % len(self._zvars), BITS))
        return self._zvars[i]

    def zatom(self, v, mask):
        key = (v, mask)
        e = self._zatoms.get(key)
        if e is None:
            x = self.zvar(v)
            n = mask.bit_count()
            if n > NDOM // 2:
                e = z3.Not(self._ranges(x, FULL & ~mask))
            else:
                e = self._ranges(x, mask)
            if len(self._zatoms) > 200000:
                self._zatoms.clear()
            self._zatoms[key] = e
        return e

    @staticmethod
    def _ranges(x, mask):
        parts = []
        i = 0
        while mask >> i:
            if not mask >> i & 1:
                i += 1
                continue
            j = i
            while mask >> (j + 1) & 1:
                j += 1
            if i == j:
                parts.append(x == i)
            elif i == 0:
                parts.append(z3.ULE(x, j))
            else:
                parts.append(z3.And(z3.UGE(x, i), z3.ULE(x, j)))
            i = j + 1
        if not parts:
            return z3.BoolVal(False)
        return parts[0] if len(parts) == 1 else z3.Or(*parts)

    def conv(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        t = f[0]
        if t == "a":
            return self.zatom(f[1], f[2])
        if t == "=":
            return self.zvar(f[1]) == self.zvar(f[2])
        if t == "<":
            return z3.ULT(self.zvar(f[1]), self.zvar(f[2]))
        if t == "!":
            return z3.Not(self.conv(f[1]))
        if t == "&":
            return z3.And(*[self.conv(x) for x in f[1]])
        if t == "|":
            return z3.Or(*[self.conv(x) for x in f[1]])
        return f[1]

    def _check(self, f):
        t0 = time.perf_counter()
        self.stats.queries += 1
        r = self.solver.check(self.conv(f))
        self.stats.solver_s += time.perf_counter() - t0
        if r == z3.sat:
            self.stats.sat += 1
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        raise SolverUnknown(self.solver.reason_unknown())

    # ------------------------------------------------------------ path life cycle
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.known = []
        self.cells = {}
        self.inputs = {}
        self.nints = 0
        self.realize_left = {}
        self.free = 0
        common = 0
        it = [d for d in prefix if d == 0 or d == 1]
        for a, b in zip(it, self.trail):
            if a != b:
                break
            common += 1
        if len(self.trail) > common:
            self.solver.pop(len(self.trail) - common)
            del self.trail[common:]
        # scope `common` was fully populated by the previous path only if the
        # solver has been used before
        self.synced = common if self.primed else -1
        self.primed = True
        self.ops = 0
        self.active = True
        for h in self.path_hooks:
            h()

    primed = False

    def fresh_solver(self):
        self.reset_solver()
        self.primed = False

    def end_path(self):
        self.active = False

    # ------------------------------------------------------------ variables
    def new_cell(self, mask=FULL, map_=None, var=None):
        if not self.active:
            raise Inactive
        if var is None:
            var = len(self.known)
            self.known.append(FULL)
            self._assert(("a", var, FULL & mask))
            self.known[var] = mask
        cp = self._next_cp
        self._next_cp = cp + 1 if cp < SYM_HI else SYM_LO
        ch = chr(cp)
        self.cells[ch] = Cell(ch, var, map_)
        return ch

    def _assert(self, f):
        if self.free > self.synced or self.synced < 0:
            self.solver.add(self.conv(f))

    def new_int(self, name=None):
        n = name or "i%d" % self.nints
        self.nints += 1
        v = self._ivars.get(n)
        if v is None:
            v = self._ivars[n] = z3.Int(n)
        return v

    # ------------------------------------------------------------ simplification
    def simp(self, f):
        if f is True or f is False:
            return f
        t = f[0]
        if t == "a":
            k = self.known[f[1]]
            m = k & f[2]
            if not m:
                return False
            if m == k:
                return True
            return ("a", f[1], m)
        if t == "=":
            if f[1] == f[2]:
                return True
            a, b = self.known[f[1]], self.known[f[2]]
            if not a & b:
                return False
            if a == b and a & (a - 1) == 0:
                return True
            if a & (a - 1) == 0:
                return ("a", f[2], a)
            if b & (b - 1) == 0:
                return ("a", f[1], b)
            return f
        if t == "!":
            return f_not(self.simp(f[1]))
        if t == "&":
            out = []
            for x in f[1]:
                y = self.simp(x)
                if y is False:
                    return False
                if y is not True:
                    out.append(y)
            return f_and(out)
        if t == "|":
            out = []
            for x in f[1]:
                y = self.simp(x)
                if y is True:
                    return True
                if y is not False:
                    out.append(y)
            return f_or(out)
        return f

    def learn(self, f, val):
        """Propagates a decided formula into the per-character known masks."""
        if f is True or f is False:
            return
        t = f[0]
        if t == "a":
            self.known[f[1]] &= f[2] if val else ~f[2]
        elif t == "!":
            self.learn(f[1], not val)
        elif t == "&" and val or t == "|" and not val:
            for x in f[1]:
                self.learn(x, val)
        elif t == "=" and val:
            m = self.known[f[1]] & self.known[f[2]]
            self.known[f[1]] = self.known[f[2]] = m

    # ------------------------------------------------------------ decisions
    def branch(self, f):
        if f is True or f is False:
            return f
        if not self.active:
            raise Inactive
        f = self.simp(f)
        if f is True or f is False:
            return f
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            val = bool(d & 1)
            if d < 2:
                self.free += 1
                if self.free > len(self.trail):
                    self._push(f, val, d)
            self.learn(f, val)
            return val
        t = self._check(f)
        if not t:
            self.stats.forced += 1
            self.decisions.append(2)
            self.learn(f, False)
            return False
        if not self._check(f_not(f)):
            self.stats.forced += 1
            self.decisions.append(3)
            self.learn(f, True)
            return True
        self.pending.append(self.decisions + [0])
        self.decisions.append(1)
        self.free += 1
        self._push(f, True, 1)
        self.learn(f, True)
        return True

    def _push(self, f, val, d):
        self.solver.push()
        self.trail.append(d)
        self.solver.add(self.conv(f if val else f_not(f)))
        self.synced = min(self.synced, self.free - 1)

    def assume(self, f):
        if not self.active:
            raise Inactive
        f = self.simp(f)
        if f is True:
            return
        if f is False:
            raise Infeasible
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
        else:
            ok = self._check(f)
            self.decisions.append(3 if ok else 2)
            if not ok:
                raise Infeasible
        self._assert(f)
        self.learn(f, True)

    def holds(self, f):
        """Decides pc => f with the solver, without forking."""
        f = self.simp(f)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return bool(d & 1)
        bad = self._check(f_not(f))
        self.decisions.append(2 if bad else 3)
        return not bad

    # ------------------------------------------------------------ models
    def model(self, extra=True):
        f = self.conv(extra)
        r = self.solver.check(f)
        if r != z3.sat:
            raise SolverUnknown("no model: %s" % r)
        return self.solver.model()

    def eval_cell(self, m, cell):
        v = m.eval(self.zvar(cell.var), model_completion=False)
        if z3.is_bv_value(v):
            i = v.as_long()
        else:
            k = self.known[cell.var]
            # any character still allowed, preferring a printable one
            i = next(
                (j for j in list(range(0x61, 0x7B)) + list(range(NDOM)) if k >> j & 1), 0
            )
        if i >= NDOM:
            i = 0
        return DOMAIN[i] if cell.map is None else cell.map[i]

    def eval_str(self, m, s):
        if not has_sym(s):
            return s
        return "".join(
            self.eval_cell(m, self.cells[c]) if c in self.cells else c for c in s
        )

    def eval_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            out[k] = self.eval_value(m, v)
        return out

    def eval_value(self, m, v):
        if isinstance(v, str):
            return self.eval_str(m, v)
        if isinstance(v, SInt):
            return m.eval(v.e, model_completion=True).as_long()
        if isinstance(v, CellBit):
            k = self.known[v.var]
            x = m.eval(self.zvar(v.var), model_completion=False)
            return x.as_long() if z3.is_bv_value(x) else (0 if k & 1 else 1)
        return v

    def realize_str(self, s):
        """
        Fallback for operations without a symbolic implementation: forks on one
        model value. A string of few possible values is split into all of them;
        otherwise the complement is explored at most a few times, after which
        it is dropped and counted (`realized`), so the result is reported as
        incomplete.
        """
        if not has_sym(s):
            return s
        from . import ops

        if _DEBUG_REALIZE:
            import traceback

            traceback.print_stack(limit=8)
        key = s
        left = self.realize_left.get(key, 4)
        combinations = 1
        for c in s:
            if c in self.cells:
                combinations *= bin(self.known[self.cells[c].var]).count("1")
        if combinations <= 512:
            # few enough values to go through all of them
            left = 512
        while True:
            v = self.pinned(lambda: self.eval_str(self.model(), s))
            f = ops.eqf(s, v)
            if left <= 0:
                self.stats.realized += 1
                self.assume(f)
                return v
            if self.branch(f):
                self.realize_left[key] = left
                return v
            left -= 1

    def pinned(self, compute):
        """Value picked from a model; recorded in the decision list for replay."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return d[1]
        v = compute()
        self.decisions.append(("v", v))
        return v


ENGINE = Engine()


class CellBit:
    """Input recorded for a lazily decided boolean."""

    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var


class SBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENGINE.branch(self.f)


def _ie(x):
    if isinstance(x, SInt):
        return x.e
    return x


class SInt:
    """Symbolic (mathematical) integer."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, fn):
        if isinstance(o, SInt) or type(o) in (int, bool):
            return SInt(fn(self.e, _ie(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a / b)  # z3 div floors for positive divisors

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, fn):
        if isinstance(o, SInt) or type(o) in (int, bool):
            return SBool(_zsimp(fn(self.e, _ie(o))))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return ENGINE.branch(_zsimp(self.e != 0))

    def __index__(self):
        """Forks over all feasible values."""
        E = ENGINE
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        n = 0
        while True:
            v = E.pinned(
                lambda: E.model().eval(self.e, model_completion=True).as_long()
            )
            if E.branch(("z", self.e == v)):
                return v
            n += 1
            if n > 500:
                E.stats.realized += 1
                raise Infeasible

    __int__ = __index__

    def __format__(self, spec):
        m = _re.fullmatch(r"(0?)(\d*)d?", spec)
        if not m:
            return format(self.__index__(), spec)
        s = str(self)
        w = int(m.group(2) or 0)
        if len(s) < w:
            if m.group(1):
                if s.startswith("-"):
                    s = "-" + "0" * (w - len(s)) + s[1:]
                else:
                    s = "0" * (w - len(s)) + s
            else:
                s = " " * (w - len(s)) + s
        return s

    def __str__(self):
        E = ENGINE
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return str(e.as_long())
        if E.branch(("z", self.e < 0)):
            return "-" + str(SInt(-self.e))
        n = 1
        while E.branch(("z", self.e >= 10**n)):
            n += 1
            if n > 9:
                raise Infeasible
        chars = []
        terms = []
        for i in range(n):
            c = E.new_cell(mask_of("0123456789"))
            chars.append(c)
            terms.append(digit_value(E.cells[c]) * 10 ** (n - 1 - i))
        E.assume(("z", z3.Sum(terms) == self.e))
        return "".join(chars)

    __repr__ = __str__


def _zsimp(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ("z", e)


def digit_value(cell):
    """Int expression of the decimal digit value of a cell."""
    import unicodedata

    e = z3.IntVal(0)
    E = ENGINE
    groups = {}
    k = E.known[cell.var]
    for i in range(NDOM):
        if k >> i & 1:
            c = DOMAIN[i] if cell.map is None else cell.map[i]
            if len(c) == 1:
                d = unicodedata.decimal(c, None)
                if d:
                    groups[d] = groups.get(d, 0) | 1 << i
    for d, m in groups.items():
        e = z3.If(E.zatom(cell.var, m), z3.IntVal(d), e)
    return e
