"""Loads the current source of /repo/sqlparams through an AST transformation
that routes its operations to symex.rt.  Nothing of the library is copied: the
transformed modules are regenerated from the working tree on every run."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
from . import rt

REPO = os.environ.get("SQLP_REPO", "/repo")
CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is_", ast.IsNot: "is_not", ast.In: "contains", ast.NotIn: "not_in",
       ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}


def _rt(name):
    return ast.Attribute(ast.Name("__rt__", ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_rt(name), list(args), [])


class T(ast.NodeTransformer):
    def __init__(self, steps, fname):
        self.steps = steps
        self.fname = fname
        self.depth = 0
        self.lines = set()
        self.funcs = []
        self.stack = []

    # -- statements
    def _body(self, body, infunc):
        out = []
        for s in body:
            ln = s.lineno
            r = self.visit(s)
            rs = r if isinstance(r, list) else [r]
            doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if infunc and self.steps and not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                st = ast.Expr(_call("step", ast.Constant(ln)))
                out.append(ast.copy_location(st, s))
            out.extend(rs)
        return out

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.funcs.append((".".join(self.stack), n.lineno))
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        decs = []
        for d in n.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") or \
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter", "overload", "abstractmethod"):
                decs.append(d)
            else:
                decs.append(_call("deco", self.visit(d)))
        n.decorator_list = decs
        self.depth += 1
        n.body = self._body(n.body, True)
        self.depth -= 1
        n.body.insert(0, ast.Expr(_call("tick")))
        if len(n.body) > 1 and isinstance(n.body[1], ast.Expr) and isinstance(n.body[1].value, ast.Constant) and \
                isinstance(n.body[1].value.value, str):
            n.body[0], n.body[1] = n.body[1], n.body[0]
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        d, self.depth = self.depth, 0
        n.body = self._body(n.body, False)
        n.bases = [self.visit(b) for b in n.bases]
        for k in n.keywords:
            k.value = self.visit(k.value)
        n.decorator_list = [_call("deco", self.visit(x)) for x in n.decorator_list]
        self.depth = d
        self.stack.pop()
        return n

    def _blocks(self, n):
        inf = self.depth > 0
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self._body(b, inf))
        return n

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        self._blocks(n)
        n.body.insert(0, ast.copy_location(ast.Expr(_call("tick")), n))
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        self._blocks(n)
        n.body.insert(0, ast.copy_location(ast.Expr(_call("tick")), n))
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        return self._blocks(n)

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        return self._blocks(n)

    def visit_Try(self, n):
        self._blocks(n)
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body, self.depth > 0)
        return n

    def visit_Match(self, n):
        """A chain of ifs, so that patterns compare symbolic data too."""
        self.nmatch = getattr(self, "nmatch", 0) + 1
        subj, done, got = ("__%s%d" % (x, self.nmatch) for x in ("subject", "done", "got"))
        load = lambda x: ast.Name(x, ast.Load())
        store = lambda x, v: ast.Assign([ast.Name(x, ast.Store())], v)
        out = [store(subj, self.visit(n.subject)), store(done, ast.Constant(False))]
        for c in n.cases:
            names = []
            spec = self._pattern(c.pattern, names)
            body = [store(done, ast.Constant(True))] + self._body(c.body, self.depth > 0)
            if c.guard is not None:
                body = [ast.If(self.visit(c.guard), body, [])]
            body = [store(x, _call("getitem", load(got), ast.Constant(x))) for x in names] + body
            test = ast.Compare(load(got), [ast.IsNot()], [ast.Constant(None)])
            out.append(ast.If(ast.UnaryOp(ast.Not(), load(done)),
                              [store(got, _call("pmatch", load(subj), spec)), ast.If(test, body, [])], []))
        return [ast.copy_location(x, n) for x in out]

    def _pattern(self, p, names):
        tup = lambda *a: ast.Tuple(list(a), ast.Load())
        const = ast.Constant

        def name(x):
            if x is not None and x not in names:
                names.append(x)
            return const(x)
        sub = lambda q: self._pattern(q, names) if q is not None else const(None)
        if isinstance(p, ast.MatchValue):
            return tup(const("value"), self.visit(p.value))
        if isinstance(p, ast.MatchSingleton):
            return tup(const("is"), const(p.value))
        if isinstance(p, ast.MatchSequence):
            return tup(const("seq"), tup(*[sub(q) for q in p.patterns]))
        if isinstance(p, ast.MatchStar):
            return tup(const("star"), name(p.name))
        if isinstance(p, ast.MatchMapping):
            return tup(const("map"), tup(*[tup(self.visit(k), sub(q)) for k, q in zip(p.keys, p.patterns)]), name(p.rest))
        if isinstance(p, ast.MatchClass):
            return tup(const("class"), self.visit(p.cls), tup(*[sub(q) for q in p.patterns]),
                       tup(*[tup(const(k), sub(q)) for k, q in zip(p.kwd_attrs, p.kwd_patterns)]))
        if isinstance(p, ast.MatchAs):
            return tup(const("as"), sub(p.pattern), name(p.name))
        if isinstance(p, ast.MatchOr):
            return tup(const("or"), tup(*[sub(q) for q in p.patterns]))
        raise NotImplementedError(type(p))

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if self.depth > 0:
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            a = ast.copy_location(ast.Assign([n.target], n.value), n)
            return self._assign(a)
        if isinstance(n.target, ast.Subscript):
            return n
        return n

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        return self._assign(n)

    def _assign(self, n):
        if not any(isinstance(t, ast.Subscript) for t in n.targets):
            return n
        if len(n.targets) == 1:
            t = n.targets[0]
            e = _call("setitem", n.value, self.visit(t.value), self._index(t.slice))
            return ast.copy_location(ast.Expr(e), n)
        out = [ast.copy_location(ast.Assign([ast.Name("__tmp_v", ast.Store())], n.value), n)]
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(_call("setitem", ast.Name("__tmp_v", ast.Load()), self.visit(t.value),
                                                            self._index(t.slice))), n))
            else:
                out.append(ast.copy_location(ast.Assign([t], ast.Name("__tmp_v", ast.Load())), n))
        return out

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            e = _call("aug", self.visit(n.target.value), self._index(n.target.slice), ast.Constant(type(n.op).__name__), n.value)
            return ast.copy_location(ast.Expr(e), n)
        if isinstance(n.op, (ast.Add, ast.BitOr, ast.Mod)) and (isinstance(n.target, ast.Name) or isinstance(n.target, ast.Attribute) and
                                                               isinstance(n.target.value, ast.Name)):
            t = n.target
            if isinstance(t, ast.Name):
                r = ast.Name(t.id, ast.Load())
            else:
                r = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
            return ast.copy_location(ast.Assign([t], _call("iop", ast.Constant(type(n.op).__name__), r, n.value)), n)
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(_call("delitem", self.visit(t.value), self._index(t.slice))), n))
            else:
                out.append(ast.copy_location(ast.Delete([t]), n))
        return out

    # -- expressions
    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = lambda: ast.Constant(None)
            return ast.Call(ast.Name("__slice__", ast.Load()), [self.visit(x) if x is not None else none()
                                                               for x in (s.lower, s.upper, s.step)], [])
        return self.visit(s)

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            n.value = self.visit(n.value)
            n.slice = self.visit(n.slice)
            return n
        return ast.copy_location(_call("getitem", self.visit(n.value), self._index(n.slice)), n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals", "eval", "exec", "vars"):
            n.args = [self.visit(a) for a in n.args]
            return n
        f = self.visit(n.func)
        return ast.copy_location(ast.Call(_rt("call"), [f] + [self.visit(a) for a in n.args],
                                          [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]), n)

    def visit_Compare(self, n):
        left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            return ast.copy_location(_call(CMP[type(n.ops[0])], left, comps[0]), n)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for c in n.comparators for x in ast.walk(c)):
            n.left, n.comparators = left, comps
            return n
        args = [left]
        for op, c in zip(n.ops, comps):
            args.append(ast.Constant(type(op).__name__))
            args.append(ast.Lambda(ast.arguments([], [], None, [], [], None, []), c))
        return ast.copy_location(_call("cmpchain", *args), n)

    def visit_BinOp(self, n):
        l, r = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("mod", l, r), n)
        if isinstance(n.op, ast.BitOr):
            return ast.copy_location(_call("bitor", l, r), n)
        if isinstance(n.op, ast.Add):
            return ast.copy_location(_call("add", l, r), n)
        n.left, n.right = l, r
        return n

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            n.format_spec.values = [self.visit(v) for v in n.format_spec.values]
        if n.conversion in (114, 97):
            n.value = _call("repr_", n.value)
            n.conversion = -1
        return n

    def visit_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(1), self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Constant(0), self.visit(k), self.visit(v)], ast.Load()))
        if not items:
            return n
        return ast.copy_location(_call("dict_display", *items), n)

    def visit_Set(self, n):
        return ast.copy_location(_call("mkset", ast.List([self.visit(e) for e in n.elts], ast.Load())), n)

    def visit_DictComp(self, n):
        gens = [self.visit(g) for g in n.generators]
        elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        return ast.copy_location(_call("dictcomp", ast.ListComp(elt, gens)), n)

    def visit_SetComp(self, n):
        gens = [self.visit(g) for g in n.generators]
        return ast.copy_location(_call("mkset", ast.ListComp(self.visit(n.elt), gens)), n)

    def visit_JoinedStr(self, n):
        n.values = [self.visit(v) for v in n.values]
        return ast.copy_location(_call("joined", n), n)

    def visit_Starred(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.ctx, ast.Load):
            n.value = _call("counted", n.value)
        return n

    def visit_comprehension(self, n):
        n.iter = _call("counted", self.visit(n.iter))
        n.ifs = [self.visit(i) for i in n.ifs]
        return n


_CODE = {}
FUNCTIONS = {}


def transformed(path, mode):
    key = (path, mode)
    r = _CODE.get(key)
    if r is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if mode != "real":
            tr = T(mode == "steps", path)
            tree.body = tr._body(tree.body, False)
            ast.fix_missing_locations(tree)
            FUNCTIONS[os.path.relpath(path, REPO)] = [f for f, _ in tr.funcs]
        r = _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return r


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Resolves `sqlparams` and its submodules to modules compiled from the
    working tree: transformed ("plain", "steps") or as they are ("real")."""
    mode = "real"

    def find_spec(self, name, path=None, target=None):
        if name != "sqlparams" and not name.startswith("sqlparams."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            sp = importlib.machinery.ModuleSpec(name, self, origin=init, is_package=True)
            sp.submodule_search_locations = [base]
            return sp
        if os.path.exists(base + ".py"):
            return importlib.machinery.ModuleSpec(name, self, origin=base + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.mode != "real":
            module.__dict__["__rt__"] = rt
            module.__dict__["__slice__"] = slice
        module.__file__ = module.__spec__.origin
        exec(transformed(module.__spec__.origin, self.mode), module.__dict__)


FINDER = Finder()


def _purge():
    for k in [k for k in sys.modules if k == "sqlparams" or k.startswith("sqlparams.")]:
        del sys.modules[k]


def _load(mode):
    """A fresh instance of the library; it stays importable until the next one."""
    _purge()
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    FINDER.mode = mode
    return importlib.import_module("sqlparams")


def load(steps=False):
    """A fresh instance of the transformed library."""
    return _load("steps" if steps else "plain")


def real():
    """A fresh instance of the unmodified library from the working tree."""
    return _load("real")


def again():
    """One more fresh instance of the same kind."""
    return _load(FINDER.mode)
