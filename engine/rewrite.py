"""
Loads Python source with every observing operation routed through `ops`.

Used for /repo/specfile/*.py (regenerated from the current working tree at
every run) and for the harness modules in /verif/props.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import ops

HOOK = "__vf__"
_BUILTIN_STR = ops.STR_NAMES


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.classes = []
        self.temporaries = 0

    def _hook(self, name):
        return ast.Attribute(
            value=ast.Name(id=HOOK, ctx=ast.Load()), attr=name, ctx=ast.Load()
        )

    def _mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.classes:
            return "_" + self.classes[-1].lstrip("_") + attr
        return attr

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        node.body = self._statements(node.body)
        self.classes.pop()
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        return node

    def _statements(self, body):
        result = []
        for x in body:
            x = self.visit(x)
            result.extend(x if isinstance(x, list) else [x])
        return result

    def _visit_func(self, node):
        node.body = self._statements(node.body)
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [x and self.visit(x) for x in a.kw_defaults]
        return node

    visit_FunctionDef = _visit_func
    visit_AsyncFunctionDef = _visit_func

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            name = {
                ast.Eq: "eq",
                ast.NotEq: "ne",
                ast.Lt: "lt",
                ast.LtE: "le",
                ast.Gt: "gt",
                ast.GtE: "ge",
                ast.In: "contains",
                ast.NotIn: "notcontains",
            }.get(type(op))
            if name is None:
                return node
            return ast.copy_location(
                ast.Call(
                    func=self._hook(name),
                    args=[node.left, node.comparators[0]],
                    keywords=[],
                ),
                node,
            )
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            return node
        args = [node.left]
        for op, c in zip(node.ops, node.comparators):
            args.append(
                ast.Tuple(
                    elts=[
                        ast.Constant(type(op).__name__),
                        ast.Lambda(
                            args=ast.arguments(
                                posonlyargs=[],
                                args=[],
                                kwonlyargs=[],
                                kw_defaults=[],
                                defaults=[],
                            ),
                            body=c,
                        ),
                    ],
                    ctx=ast.Load(),
                )
            )
        return ast.copy_location(
            ast.Call(func=self._hook("cmpchain"), args=args, keywords=[]), node
        )

    def visit_Call(self, node):
        f = node.func
        node.args = [self.visit(x) for x in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            return ast.copy_location(
                ast.Call(
                    func=self._hook("cm"),
                    args=[obj, ast.Constant(self._mangle(f.attr))] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals"):
            return node
        f = self.visit(f)
        return ast.copy_location(
            ast.Call(
                func=self._hook("call"), args=[f] + node.args, keywords=node.keywords
            ),
            node,
        )

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load) and node.attr in _BUILTIN_STR and not (
            node.attr.startswith("__")
        ):
            return ast.copy_location(
                ast.Call(
                    func=self._hook("ga"),
                    args=[node.value, ast.Constant(node.attr)],
                    keywords=[],
                ),
                node,
            )
        return node

    @staticmethod
    def _simple(n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, ast.Name)

    def visit_Subscript(self, node):
        raw_value_simple = self._simple(node.value)
        import copy

        dup = copy.deepcopy(node.value) if raw_value_simple else None
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        s = node.slice
        if isinstance(s, (ast.Slice, ast.Tuple)):
            return node
        if isinstance(s, ast.Constant) and not isinstance(s.value, str):
            return node
        if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            return node
        if dup is not None:
            for n in ast.walk(dup):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            node.slice = ast.Call(
                func=self._hook("key"), args=[dup, s], keywords=[]
            )
            return node
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(func=self._hook("getitem"), args=[node.value, s], keywords=[]),
                node,
            )
        return node

    OPERATORS = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^"}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = self.OPERATORS.get(type(node.op))
        if op is None or op == "-" and (isinstance(node.left, ast.Constant) or isinstance(node.right, ast.Constant)):
            return node
        return ast.copy_location(
            ast.Call(func=self._hook("binop"), args=[ast.Constant(op), node.left, node.right], keywords=[]), node
        )

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = self.OPERATORS.get(type(node.op))
        if op is None or not isinstance(node.target, ast.Name) or isinstance(node.value, ast.Constant):
            return node
        return ast.copy_location(
            ast.Assign(
                targets=[node.target],
                value=ast.Call(
                    func=self._hook("ibinop"),
                    args=[ast.Constant(op), ast.Name(id=node.target.id, ctx=ast.Load()), node.value],
                    keywords=[],
                ),
            ),
            node,
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=self._hook("mkset"),
                args=[ast.List(elts=node.elts, ctx=ast.Load())],
                keywords=[],
            ),
            node,
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=self._hook("mkset"),
                args=[ast.ListComp(elt=node.elt, generators=node.generators)],
                keywords=[],
            ),
            node,
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=self._hook("mkdict"),
                args=[
                    ast.ListComp(
                        elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                        generators=node.generators,
                    )
                ],
                keywords=[],
            ),
            node,
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = [
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            if k is not None
            else ast.Starred(
                value=ast.Call(func=self._hook("dict_items"), args=[v], keywords=[]),
                ctx=ast.Load(),
            )
            for k, v in zip(node.keys, node.values)
        ]
        return ast.copy_location(
            ast.Call(
                func=self._hook("mkdict"),
                args=[ast.List(elts=items, ctx=ast.Load())],
                keywords=[],
            ),
            node,
        )

    def visit_Match(self, node):
        """match is turned into a chain of conditions, literals are compared like with =="""
        self.generic_visit(node)
        subject = self._temporary()
        result = []
        for case in reversed(node.cases):
            test = self._pattern(case.pattern, subject)
            if case.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, case.guard])
            result = [ast.If(test=test, body=case.body, orelse=result)]
        assign = ast.Assign(targets=[ast.Name(id=subject, ctx=ast.Store())], value=node.subject)
        return [ast.copy_location(x, node) for x in [assign] + result]

    def _temporary(self):
        self.temporaries += 1
        return "%stmp%d" % (HOOK, self.temporaries)

    def _pattern(self, pattern, subject):
        def load():
            return ast.Name(id=subject, ctx=ast.Load())

        def bind(name, value):
            # always true
            return ast.List(
                elts=[ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value)], ctx=ast.Load()
            )

        def parts(hook, args, patterns):
            # the hook returns either parts of the subject or None
            found = self._temporary()
            tests = [
                ast.Compare(
                    left=ast.NamedExpr(
                        target=ast.Name(id=found, ctx=ast.Store()),
                        value=ast.Call(func=self._hook(hook), args=[load()] + args, keywords=[]),
                    ),
                    ops=[ast.IsNot()],
                    comparators=[ast.Constant(None)],
                )
            ]
            for i, sub in enumerate(patterns):
                item = self._temporary()
                tests.append(
                    bind(
                        item,
                        ast.Subscript(
                            value=ast.Name(id=found, ctx=ast.Load()), slice=ast.Constant(i), ctx=ast.Load()
                        ),
                    )
                )
                tests.append(self._pattern(sub, item))
            return ast.BoolOp(op=ast.And(), values=tests) if len(tests) > 1 else tests[0]

        if isinstance(pattern, ast.MatchValue):
            return ast.Call(func=self._hook("eq"), args=[load(), pattern.value], keywords=[])
        if isinstance(pattern, ast.MatchSingleton):
            return ast.Compare(left=load(), ops=[ast.Is()], comparators=[ast.Constant(pattern.value)])
        if isinstance(pattern, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self._pattern(x, subject) for x in pattern.patterns])
        if isinstance(pattern, ast.MatchStar):
            return bind(pattern.name, load()) if pattern.name else ast.Constant(True)
        if isinstance(pattern, ast.MatchAs):
            test = self._pattern(pattern.pattern, subject) if pattern.pattern else None
            if pattern.name is None:
                return test or ast.Constant(True)
            capture = bind(pattern.name, load())
            return ast.BoolOp(op=ast.And(), values=[test, capture]) if test else capture
        if isinstance(pattern, ast.MatchSequence):
            star = [i for i, x in enumerate(pattern.patterns) if isinstance(x, ast.MatchStar)]
            args = [ast.Constant(len(pattern.patterns)), ast.Constant(star[0] if star else None)]
            return parts("match_sequence", args, pattern.patterns)
        if isinstance(pattern, ast.MatchMapping):
            keys = ast.List(elts=pattern.keys, ctx=ast.Load())
            rest = [ast.MatchAs(name=pattern.rest)] if pattern.rest else []
            return parts("match_mapping", [keys, ast.Constant(bool(rest))], pattern.patterns + rest)
        if isinstance(pattern, ast.MatchClass):
            args = [pattern.cls, ast.Constant(len(pattern.patterns)), ast.Constant(tuple(pattern.kwd_attrs))]
            return parts("match_class", args, pattern.patterns + pattern.kwd_patterns)
        raise SyntaxError("unknown pattern: %r" % pattern)


SHIM_MODULES = {"re": "engine.symre", "functools": "engine.symfunctools"}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIM_MODULES:
        return importlib.import_module(SHIM_MODULES[name])
    return builtins.__import__(name, globals, locals, fromlist, level)


def compile_rewritten(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            source = f.read()
        code = compile_rewritten(source, self.path)
        b = dict(vars(builtins))
        b["__import__"] = _import
        module.__dict__["__builtins__"] = b
        module.__dict__[HOOK] = ops
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # {top-level package: directory containing it}
        self.loaded = []

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        p = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(init), submodule_search_locations=[p]
            )
            self.loaded.append(init)
            return spec
        f = p + ".py"
        if os.path.exists(f):
            self.loaded.append(f)
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f))
        return None


def install(roots):
    finder = Finder(roots)
    sys.meta_path.insert(0, finder)
    return finder
