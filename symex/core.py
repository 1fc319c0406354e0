"""Symbolic core: finite integer variables, conditions over them, and the
path explorer.  Every symbolic input (a character of a query, the kind of a
value, the length of a tuple, a schedule point ...) is a `Var` with a finite
domain; a `Cond` is a formula over such variables; `Ctx` explores the paths of
a harness and asks z3 which branches exist and whether assertions hold.

z3 is imported lazily: evaluating conditions over concrete data (used by the
replayer) needs no solver.
"""
from functools import lru_cache
import time


# ---------------------------------------------------------------- sets of ints
class CS:
    """Immutable set of non-negative ints as sorted disjoint ranges."""
    __slots__ = ("r", "_h")

    def __init__(self, ranges):
        self.r = tuple(ranges)
        self._h = hash(self.r)

    @staticmethod
    def of(items):
        out = []
        for x in sorted(set(items)):
            if out and out[-1][1] + 1 == x:
                out[-1][1] = x
            else:
                out.append([x, x])
        return CS(tuple((a, b) for a, b in out))

    @staticmethod
    def rng(*pairs):
        out = []
        for a, b in sorted(pairs):
            if out and a <= out[-1][1] + 1:
                out[-1][1] = max(out[-1][1], b)
            else:
                out.append([a, b])
        return CS(tuple((a, b) for a, b in out))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.r == o.r

    def __bool__(self):
        return bool(self.r)

    def __contains__(self, x):
        r = self.r
        lo, hi = 0, len(r)
        while lo < hi:
            m = (lo + hi) // 2
            if r[m][1] < x:
                lo = m + 1
            else:
                hi = m
        return lo < len(r) and r[lo][0] <= x

    def __iter__(self):
        for a, b in self.r:
            yield from range(a, b + 1)

    def __len__(self):
        return sum(b - a + 1 for a, b in self.r)

    def __and__(self, o):
        return _cs_and(self, o)

    def __or__(self, o):
        return _cs_or(self, o)

    def __sub__(self, o):
        return _cs_sub(self, o)

    def first(self):
        for p in (97, 32, 49, 65):
            if p in self:
                return p
        for a, b in self.r:
            if b >= 33:
                return max(a, 33)
        return self.r[0][0]

    def __repr__(self):
        return "CS" + repr(self.r[:6])


EMPTY = CS(())


@lru_cache(maxsize=200000)
def _cs_and(x, y):
    a, b = x.r, y.r
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return CS(tuple(out))


@lru_cache(maxsize=200000)
def _cs_or(x, y):
    return CS.rng(*(x.r + y.r))


@lru_cache(maxsize=200000)
def _cs_sub(x, y):
    out = []
    for lo, hi in x.r:
        cur = lo
        for a, b in y.r:
            if b < cur:
                continue
            if a > hi:
                break
            if a > cur:
                out.append((cur, a - 1))
            cur = b + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return CS(tuple(out))


@lru_cache(maxsize=None)
def cs1(x):
    return CS(((x, x),))


# ------------------------------------------------------------------- variables
class Term:
    """Integer term.  Subclasses: Var, Mapped, Lin."""
    __slots__ = ()


_VARS = {}


class Var(Term):
    __slots__ = ("name", "dom", "_z", "n")

    def __init__(self, name, dom):
        self.name = name
        self.dom = dom
        self._z = None
        self.n = len(_VARS)

    def z(self):
        if self._z is None:
            import z3
            self._z = z3.Int(self.name)
        return self._z

    def ev(self, m):
        return m.val(self)

    def vars(self):
        return (self,)

    def __repr__(self):
        return "<%s>" % self.name


def var(name, dom):
    v = _VARS.get(name)
    if v is None:
        v = _VARS[name] = Var(name, dom)
    elif v.dom != dom:
        raise AssertionError("variable %s redeclared" % name)
    c = CTX[0]
    if c is not None:
        c.declare(v)
    return v


class Mapped(Term):
    """f(base) for a piecewise-offset function f: pieces = ((CS, offset), ...)
    covering base.dom at creation."""
    __slots__ = ("base", "pieces", "_z")

    def __init__(self, base, pieces):
        self.base = base
        self.pieces = pieces
        self._z = None

    def z(self):
        if self._z is None:
            import z3
            b = self.base.z()
            e = b + self.pieces[-1][1]
            for s, off in reversed(self.pieces[:-1]):
                e = z3.If(z_in(self.base, s), b + off, e)
            self._z = e
        return self._z

    def ev(self, m):
        x = self.base.ev(m)
        for s, off in self.pieces:
            if x in s:
                return x + off
        return x + self.pieces[-1][1]

    def vars(self):
        return self.base.vars()

    def pre(self, target):
        """Preimage of a CS."""
        out = EMPTY
        for s, off in self.pieces:
            out = out | (CS(tuple((a, b) for a, b in _shift(target, -off).r)) & s)
        return out

    def image(self):
        out = EMPTY
        d = curdom(self.base)
        for s, off in self.pieces:
            out = out | _shift(s & d, off)
        return out

    def __repr__(self):
        return "<map %r>" % (self.base,)


@lru_cache(maxsize=100000)
def _shift(s, off):
    return CS(tuple((max(a + off, 0), b + off) for a, b in s.r if b + off >= 0))


_MAPPED = {}


def mapped(base, pieces):
    k = (id(base), pieces)
    t = _MAPPED.get(k)
    if t is None:
        t = _MAPPED[k] = Mapped(base, pieces)
    return t


class Lin(Term):
    """const + sum coef*term"""
    __slots__ = ("c", "ts", "_z")

    def __init__(self, c, ts):
        self.c = c
        self.ts = tuple(ts)
        self._z = None

    def z(self):
        if self._z is None:
            import z3
            e = z3.IntVal(self.c)
            for k, t in self.ts:
                e = e + (t.z() if k == 1 else k * t.z())
            self._z = e
        return self._z

    def ev(self, m):
        return self.c + sum(k * t.ev(m) for k, t in self.ts)

    def vars(self):
        return tuple(v for _, t in self.ts for v in t.vars())

    def __repr__(self):
        return "<lin>"


class DivMod(Term):
    """t // k or t % k for a positive constant k."""
    __slots__ = ("t", "k", "mod", "_z")

    def __init__(self, t, k, mod):
        self.t, self.k, self.mod, self._z = t, k, mod, None

    def z(self):
        if self._z is None:
            self._z = self.t.z() % self.k if self.mod else self.t.z() / self.k
        return self._z

    def ev(self, m):
        x = self.t.ev(m)
        return x % self.k if self.mod else x // self.k

    def vars(self):
        return self.t.vars()


def lin(c, ts):
    d = {}
    for k, t in ts:
        if isinstance(t, int):
            c += k * t
        elif isinstance(t, Lin):
            c += k * t.c
            for k2, t2 in t.ts:
                d[id(t2)] = (d.get(id(t2), (0, t2))[0] + k * k2, t2)
        else:
            d[id(t)] = (d.get(id(t), (0, t))[0] + k, t)
    ts = [(k, t) for k, t in d.values() if k]
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][0] == 1:
        return ts[0][1]
    return Lin(c, ts)


_ZIN = {}


def z_in(t, s):
    key = (id(t), s)
    e = _ZIN.get(key)
    if e is None:
        import z3
        x = t.z()
        parts = [(x == a) if a == b else z3.And(x >= a, x <= b) for a, b in s.r]
        e = parts[0] if len(parts) == 1 else (z3.Or(*parts) if parts else z3.BoolVal(False))
        _ZIN[key] = e
        _KEEP.append(t)
    return e


_KEEP = []   # keep terms alive: ids are used as keys


# ------------------------------------------------------------------ conditions
class Cond:
    __slots__ = ("op", "a", "cube", "_z")

    def __init__(self, op, a, cube=None):
        self.op = op
        self.a = a
        self.cube = cube if cube is not None else {}
        self._z = None

    def z(self):
        if self._z is None:
            import z3
            op, a = self.op, self.a
            if op == "in":
                z = z_in(a[0], a[1])
            elif op == "and":
                z = z3.And(*[x.z() for x in a])
            elif op == "or":
                z = z3.Or(*[x.z() for x in a])
            elif op == "not":
                z = z3.Not(a.z())
            elif op == "eq":
                z = _tz(a[0]) == _tz(a[1])
            elif op == "lt":
                z = _tz(a[0]) < _tz(a[1])
            else:
                raise AssertionError(op)
            self._z = z
        return self._z

    def ev(self, m):
        op, a = self.op, self.a
        if op == "in":
            return a[0].ev(m) in a[1]
        if op == "and":
            return all(x.ev(m) for x in a)
        if op == "or":
            return any(x.ev(m) for x in a)
        if op == "not":
            return not a.ev(m)
        x = a[0] if isinstance(a[0], int) else a[0].ev(m)
        y = a[1] if isinstance(a[1], int) else a[1].ev(m)
        return x == y if op == "eq" else x < y

    def __bool__(self):
        raise TypeError("Cond used as bool")


def _tz(t):
    if isinstance(t, int):
        import z3
        return z3.IntVal(t)
    return t.z()


def curdom(v):
    c = CTX[0]
    if c is None:
        return v.dom
    return c.doms.get(v, v.dom)


def c_in(t, s):
    """t in s, simplified with what the path already says about t."""
    if type(t) is int:
        return t in s
    while type(t) is Mapped:
        s = t.pre(s)
        t = t.base
    if type(t) is Var:
        d = curdom(t)
        i = d & s
        if not i.r:
            return False
        if i == d:
            return True
        return Cond("in", (t, i), {t: i})
    # Lin / DivMod
    if not s.r:
        return False
    return c_or([c_and([c_not(c_lt(t, a)), c_not(c_lt(b, t))]) if a != b else c_eq(t, a) for a, b in s.r])


def c_eq(x, y):
    if type(x) is int:
        if type(y) is int:
            return x == y
        x, y = y, x
    if type(y) is int:
        if y < 0:
            if type(x) in (Var, Mapped):
                return False
        elif type(x) in (Var, Mapped):
            return c_in(x, cs1(y))
        if type(x) is Lin and len(x.ts) == 1 and type(x.ts[0][1]) in (Var, Mapped):
            k, t = x.ts[0]
            if (y - x.c) % k:
                return False
            return c_eq(t, (y - x.c) // k)
        lo, hi = bounds(x)
        if y < lo or y > hi:
            return False
        return Cond("eq", (x, y))
    if x is y:
        return True
    if isinstance(x, Lin) or isinstance(y, Lin):
        dlt = lin(0, [(1, x), (-1, y)])
        if type(dlt) is int:
            return dlt == 0
    elif type(x) is Var and type(y) is Var:
        if not (curdom(x) & curdom(y)).r:
            return False
    elif type(x) is Mapped and type(y) is Mapped and x.base is y.base and x.pieces == y.pieces:
        return True
    if id(x) > id(y) and type(x) is Var and type(y) is Var:
        if x.n > y.n:
            x, y = y, x
    _KEEP.append(x)
    _KEEP.append(y)
    return Cond("eq", (x, y))


def bounds(t):
    if type(t) is int:
        return t, t
    if type(t) is Var:
        r = curdom(t).r
        return r[0][0], r[-1][1]
    if type(t) is Mapped:
        r = t.image().r
        return r[0][0], r[-1][1]
    if type(t) is DivMod:
        if t.mod:
            return 0, t.k - 1
        lo, hi = bounds(t.t)
        return lo // t.k, hi // t.k
    lo = hi = t.c
    for k, x in t.ts:
        a, b = bounds(x)
        lo += min(k * a, k * b)
        hi += max(k * a, k * b)
    return lo, hi


def c_lt(x, y):
    if type(x) is int and type(y) is int:
        return x < y
    a, b = bounds(x)
    c, d = bounds(y)
    if b < c:
        return True
    if a >= d:
        return False
    if type(x) is Var and type(y) is int:
        return c_in(x, CS(((0, y - 1),)) if y > 0 else EMPTY)
    if type(y) is Var and type(x) is int:
        return c_in(y, CS(((max(x + 1, 0), 1 << 40),)))
    return Cond("lt", (x, y))


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    op = c.op
    if op == "in":
        t, s = c.a
        return c_in(t, (t.dom if type(t) is Var else None) - s)
    if op == "and":
        return c_or([c_not(x) for x in c.a])
    if op == "or":
        return c_and([c_not(x) for x in c.a])
    if op == "not":
        return c.a
    return Cond("not", c)


def c_and(cs):
    cube = {}
    rest = []
    work = list(cs)
    ors = []
    while work:
        c = work.pop()
        if c is True:
            continue
        if c is False:
            return False
        op = c.op
        if op == "and":
            work.extend(c.a)
        elif op == "in":
            t, s = c.a
            o = cube.get(t)
            if o is None:
                cube[t] = s
            else:
                i = o & s
                if not i.r:
                    return False
                cube[t] = i
        elif op == "or":
            ors.append(c)
        else:
            rest.append(c)
    # Unit propagation through disjunctions.
    changed = bool(ors)
    while changed:
        changed = False
        nxt = []
        for o in ors:
            alts = []
            sat = False
            hit = False
            for d in o.a:
                if d.op == "in":
                    t, s = d.a
                    k = cube.get(t)
                    if k is not None:
                        i = k & s
                        if not i.r:
                            hit = True
                            continue
                        if i == k:
                            sat = True
                            break
                elif d.op == "and":
                    bad = False
                    for e in d.a:
                        if e.op == "in" and e.a[0] in cube and not (cube[e.a[0]] & e.a[1]).r:
                            bad = True
                            break
                    if bad:
                        hit = True
                        continue
                alts.append(d)
            if sat:
                continue
            if not alts:
                return False
            if len(alts) == 1:
                stack = [alts[0]]
                while stack:
                    c = stack.pop()
                    if c.op == "and":
                        stack.extend(c.a)
                    elif c.op == "in":
                        t, s = c.a
                        k = cube.get(t, None)
                        i = s if k is None else (k & s)
                        if not i.r:
                            return False
                        cube[t] = i
                    elif c.op == "or":
                        nxt.append(c)
                    else:
                        rest.append(c)
                changed = True
            else:
                nxt.append(c_or(alts) if hit else o)
        ors = nxt
        for o in ors:
            if type(o) is bool:
                changed = True
        if changed:
            if any(o is False for o in ors):
                return False
            ors = [o for o in ors if o is not True]
    parts = [Cond("in", (t, s), {t: s}) for t, s in cube.items()]
    for o in ors:
        for t, s in o.cube.items():
            k = cube.get(t)
            i = s if k is None else k & s
            if not i.r:
                return False
            cube[t] = i
    parts += ors
    parts += rest
    if not parts:
        return True
    if len(parts) == 1:
        return parts[0]
    return Cond("and", tuple(parts), cube)


def c_or(cs):
    ins = {}
    rest = []
    work = list(cs)
    while work:
        c = work.pop()
        if c is True:
            return True
        if c is False:
            continue
        if c.op == "or":
            work.extend(c.a)
        elif c.op == "in":
            t, s = c.a
            o = ins.get(t)
            ins[t] = s if o is None else (o | s)
        else:
            rest.append(c)
    parts = []
    for t, s in ins.items():
        r = c_in(t, s)
        if r is True:
            return True
        if r is not False:
            parts.append(r)
    parts += rest
    if not parts:
        return False
    if len(parts) == 1:
        return parts[0]
    cube = None
    for p in parts:
        if cube is None:
            cube = dict(p.cube)
        else:
            for t in list(cube):
                s = p.cube.get(t)
                if s is None:
                    del cube[t]
                else:
                    cube[t] = cube[t] | s
        if not cube:
            break
    return Cond("or", tuple(parts), cube)


def c_vars(c, acc=None):
    acc = set() if acc is None else acc
    if c is True or c is False:
        return acc
    if c.op in ("and", "or"):
        for x in c.a:
            c_vars(x, acc)
    elif c.op == "not":
        c_vars(c.a, acc)
    else:
        for t in c.a:
            if isinstance(t, Term):
                acc.update(t.vars())
    return acc


# -------------------------------------------------------------------- exploring
class PathEnd(BaseException):
    """Leave the current path (infeasible, cut, or out of budget)."""


class Budget(BaseException):
    pass


class Unsupported(BaseException):
    pass


class Model:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals

    def val(self, v):
        x = self.vals.get(v)
        if x is None:
            x = self.vals[v] = v.dom.first()
        return x


class Frame:
    __slots__ = ("idx", "tried", "effs", "more", "model", "depth", "label")


class Ctx:
    """Explores all paths of a harness function depth first."""

    def __init__(self, deadline=None, query_ms=20000, max_paths=None):
        import z3
        self.z3 = z3
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.frames = []
        self.pos = 0
        self.model = Model({})
        self.doms = {}
        self.live = set()
        self.levels = [[]]
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.cut = 0
        self.forks = 0
        self.taints = {}
        self.path_taint = []
        self.path_data = {}
        self.obligations = 0
        self.discharged = 0
        self.speclog = None
        self.steps = 0
        self.max_steps = 2000000
        self.entangled = {}

    # -- solver plumbing
    def declare(self, v):
        if v in self.live:
            return
        self.live.add(v)
        self.levels[-1].append(v)
        self.solver.add(z_in(v, v.dom))

    def _check(self, *extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise Budget()
        self.queries += 1
        if extra:
            r = self.solver.check(*extra)
        else:
            r = self.solver.check()
        self.solver_s += time.time() - t
        r = str(r)
        if r == "unknown":
            self.unknown += 1
        return r

    def _model(self):
        m = self.solver.model()
        vals = {}
        for v in self.live:
            x = m.eval(v.z(), model_completion=False)
            if self.z3.is_int_value(x):
                vals[v] = x.as_long()
            else:
                d = v.dom
                vals[v] = d.first()
        return Model(vals)

    def sat(self, cond):
        """Is the path condition and cond satisfiable?  Returns a Model, None, or
        "unknown"."""
        if cond is False:
            return None
        if cond is not True and cond.ev(self.model):
            return self.model
        if cond is True:
            return self.model
        self.solver.push()
        self.solver.add(cond.z())
        r = self._check()
        m = self._model() if r == "sat" else (None if r == "unsat" else "unknown")
        self.solver.pop()
        return m

    # -- branching
    def assume(self, cond):
        """Add a precondition (a path that cannot satisfy it ends)."""
        if self.choose([cond, True], only_first=True) != 0:
            raise PathEnd("assume")

    def choose(self, conds, only_first=False, label=""):
        """Ordered alternatives: index of the first that holds; explores every
        feasible one.  The alternatives must be exhaustive."""
        if self.speclog is not None:
            return self._spec_choose(conds)
        last = None
        nfalse = 0
        n = 0
        for i, c in enumerate(conds):
            if c is False:
                nfalse += 1
                continue
            n += 1
            last = i
            if c is True:
                if n == 1:
                    return i
                break
        if last is None:
            raise PathEnd("no alternative")
        if self.pos < len(self.frames):
            f = self.frames[self.pos]
            if f.idx is None:
                # revisit: take the next alternative
                self.model = f.model
                self._take(f, conds)
                return f.idx
            self.pos += 1
            self._refine(f.effs[-1])
            if self.pos == len(self.frames):
                self.model = f.model
            return f.idx
        f = Frame()
        f.tried = []
        f.effs = []
        f.more = None
        f.idx = None
        f.model = self.model
        f.depth = len(self.levels)
        f.label = label
        self.frames.append(f)
        if only_first:
            # assumption: only alternative 0 is explored
            m = self.sat(conds[0])
            if m is None or m == "unknown":
                if m == "unknown":
                    self.cut += 1
                self.frames.pop()
                raise PathEnd("assume")
            self.model = f.model = m
            f.idx = 0
            f.more = False
            f.effs.append(conds[0])
            self._enter(conds[0])
            self.pos += 1
            return 0
        self._take(f, conds)
        return f.idx

    def _take(self, f, conds):
        m = self.model
        idx = None
        neg = []
        eff = None
        for i, c in enumerate(conds):
            if c is False:
                continue
            if c is True or c.ev(m):
                idx = i
                neg.append(c)
                eff = c_and(neg)
                break
            neg.append(c_not(c))
        if idx is None or idx in f.tried:
            raise AssertionError("model satisfies no new alternative (%s)" % (f.label,))
        f.tried.append(idx)
        f.effs.append(eff)
        f.idx = idx
        f.model = m
        f.more = False
        r = c_and([c_not(e) for e in f.effs])
        if r is not False:
            if r is True:
                raise AssertionError("exhausted alternative")
            self.solver.push()
            self.solver.add(r.z())
            q = self._check()
            if q == "sat":
                f.more = self._model()
            elif q == "unknown":
                self.cut += 1
            self.solver.pop()
        self.forks += 1
        self._enter(eff)
        self.pos += 1

    def _enter(self, c):
        self.solver.push()
        self.levels.append([])
        if c is not True:
            self.solver.add(c.z())
        self._refine(c)

    def _refine(self, c):
        if c is True or c is False:
            return
        for t, s in c.cube.items():
            d = self.doms.get(t, t.dom)
            self.doms[t] = d & s

    def _backtrack(self):
        """Pop to the deepest frame with an unexplored alternative."""
        while self.frames:
            f = self.frames[-1]
            while len(self.levels) > f.depth:
                self.solver.pop()
                for v in self.levels.pop():
                    self.live.discard(v)
            if f.more:
                f.model = f.more
                f.idx = None
                return True
            self.frames.pop()
        return False

    # -- speculative choices: follow the current model, remember what was assumed
    def _spec_choose(self, conds):
        m = self.model
        neg = []
        for i, c in enumerate(conds):
            if c is False:
                continue
            if c is True or c.ev(m):
                self.speclog.extend(neg)
                if c is not True:
                    self.speclog.append(c)
                return i
            neg.append(c_not(c))
        raise AssertionError("model satisfies no alternative (spec)")

    def speculate(self, fn):
        """Run fn following the model; if the path condition forces every choice
        fn made, return its result, otherwise run it with real branching."""
        self.speclog = log = []
        try:
            r = fn()
        finally:
            self.speclog = None
        c = c_and(log)
        if c is True:
            return r
        if self.sat(c_not(c)) is None:
            return r
        return fn()

    # -- assertions
    def valid(self, cond):
        """None if cond holds for every value on this path, else a Model (or
        "unknown")."""
        self.obligations += 1
        if cond is True:
            # Still discharge through the solver: the path itself must be sat.
            self.discharged += 1
            return None
        n = c_not(cond) if cond is not False else True
        if n is False:
            self.discharged += 1
            return None
        self.solver.push()
        if n is not True:
            self.solver.add(n.z())
        r = self._check()
        m = self._model() if r == "sat" else (None if r == "unsat" else "unknown")
        self.solver.pop()
        if m is None:
            self.discharged += 1
        return m

    def taint(self, why):
        self.path_taint.append(why)
        self.taints[why] = self.taints.get(why, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.taint("step limit")
            raise PathEnd("steps")
        if self.deadline is not None and self.steps % 5000 == 0 and time.time() > self.deadline:
            raise Budget()

    # -- main loop
    def explore(self, fn):
        """Run fn(ctx) on every feasible path.  fn returns True to stop."""
        complete = True
        CTX[0] = self
        try:
            if self._check() != "sat":
                return True
            while True:
                self.pos = 0
                self.doms = {}
                self.steps = 0
                self.path_taint = []
                self.path_data = {}
                if not self.frames:
                    self.model = self.model or Model({})
                stop = False
                try:
                    stop = fn(self)
                    self.paths += 1
                except PathEnd:
                    pass
                except Budget:
                    return False
                if stop:
                    return False
                if not self._backtrack():
                    break
                if self.max_paths and self.paths >= self.max_paths:
                    return False
                if self.deadline is not None and time.time() > self.deadline:
                    return False
        finally:
            CTX[0] = None
        return complete and not self.cut


CTX = [None]


def choose(conds):
    """Ordered choice, symbolic or concrete."""
    c = CTX[0]
    if c is None:
        for i, x in enumerate(conds):
            if x is True:
                return i
            if x is not False:
                raise AssertionError("symbolic condition outside exploration")
        raise AssertionError("no alternative")
    if conds and conds[0] is True:
        return 0
    return c.choose(conds)


def decide(cond):
    """Branch on a condition."""
    if cond is True or cond is False:
        return cond
    return choose([cond, True]) == 0
