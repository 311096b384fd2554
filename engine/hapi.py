"""
Harness API.  The same harness function runs

* symbolically (`SymH`): every `h.*` input is a solver variable, `h.check*` asks
  the solver whether the assertion can fail on the current path;
* concretely (`ConcreteH`): inputs come from a counterexample, on the unmodified
  code, under the interpreter users run.

No import of z3 or of the engine at module level: replays run without them.
"""


class Failed(BaseException):
    """A check of the harness failed."""


class Skip(BaseException):
    """An assumption of the harness does not hold for these inputs."""


class _Base:
    def __init__(self):
        self._names = {}
        self.cfg = {}
        self.label = None

    def _uniq(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def one_of(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def str_upto(self, name, n, **kw):
        """String of length 0..n."""
        return self.str(name, self.choice(name + ".len", n + 1), **kw)


class ConcreteH(_Base):
    symbolic = False

    def __init__(self, values, cfg=None):
        super().__init__()
        self.values = values
        self.cfg = cfg or {}
        self.checks = 0
        self.covered = set()

    def _get(self, name, default):
        return self.values.get(self._uniq(name), default)

    def str(self, name, n, alphabet=None, exclude=None):
        v = self._get(name, None)
        if v is None:
            v = (alphabet or "a")[0] * n
        return v

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def choice(self, name, n):
        return self._get(name, 0)

    def bool(self, name):
        return bool(self._get(name, 0))

    def lazy_bool(self, name):
        return bool(self._get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Skip

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Failed(msg)

    def check_eq(self, a, b, msg):
        self.checks += 1
        if not (a == b):
            raise Failed("%s: %r != %r" % (msg, a, b))

    def eq(self, a, b):
        return a == b

    def cover(self, name):
        self.covered.add(name)

    def show(self, x):
        return repr(x)


def _make_sym():
    import z3

    from . import core, ops

    E = core.ENGINE

    class SymH(_Base):
        symbolic = True

        def __init__(self, cfg):
            super().__init__()
            self.cfg = cfg

        def str(self, name, n, alphabet=None, exclude=None):
            mask = core.FULL if alphabet is None else core.mask_of(alphabet)
            if exclude:
                mask &= ~core.mask_of(exclude)
            s = "".join(E.new_cell(mask) for _ in range(n))
            E.inputs[self._uniq(name)] = s
            return s

        def int(self, name, lo, hi):
            name = self._uniq(name)
            v = core.SInt(E.new_int("in_" + name))
            E.assume(core._zsimp(z3.And(v.e >= lo, v.e <= hi)))
            E.inputs[name] = v
            return v

        def choice(self, name, n):
            name = self._uniq(name)
            if n <= 1:
                E.inputs[name] = 0
                return 0
            var = E.cells[E.new_cell((1 << n) - 1)].var
            v = n - 1
            for i in range(n - 1):
                if E.branch(("a", var, 1 << i)):
                    v = i
                    break
            E.inputs[name] = v
            return v

        def bool(self, name):
            name = self._uniq(name)
            var = E.cells[E.new_cell(3)].var
            v = E.branch(("a", var, 2))
            E.inputs[name] = int(v)
            return v

        def lazy_bool(self, name):
            name = self._uniq(name)
            var = E.cells[E.new_cell(3)].var
            E.inputs[name] = core.CellBit(var)
            return core.SBool(("a", var, 2))

        def assume(self, cond):
            if isinstance(cond, core.SBool):
                E.assume(cond.f)
            elif not cond:
                raise core.Infeasible

        def _violate(self, msg, f):
            m = E.model(f)
            raise core.Violation(msg, E.eval_inputs(m))

        def check(self, cond, msg):
            E.stats.obligations += 1
            f = cond.f if isinstance(cond, core.SBool) else bool(cond)
            if not E.holds(f):
                self._violate(msg, core.f_not(E.simp(f)))

        def check_eq(self, a, b, msg):
            E.stats.obligations += 1
            f = ops.eqf(a, b)
            if not E.holds(f):
                nf = core.f_not(E.simp(f))
                m = E.model(nf)
                raise core.Violation(
                    "%s: %s != %s" % (msg, _ev(m, a), _ev(m, b)), E.eval_inputs(m)
                )

        def eq(self, a, b):
            """a == b as a formula, without forking."""
            return core.SBool(ops.eqf(a, b))

        def cover(self, name):
            E.covers[name] = E.covers.get(name, 0) + 1

        def show(self, x):
            return repr(x)

    def _ev(m, x):
        try:
            if isinstance(x, (list, tuple)):
                return repr([E.eval_value(m, y) for y in x])
            return repr(E.eval_value(m, x))
        except Exception:
            return "?"

    return SymH


def SymH(cfg):
    global _SYM
    if _SYM is None:
        _SYM = _make_sym()
    return _SYM(cfg)


_SYM = None
