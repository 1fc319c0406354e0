"""Runtime of the instrumented code: every call, subscript, comparison and `in`
of the code under test arrives here; operations on concrete data run natively,
operations on symbolic data are interpreted."""
import builtins
import collections
import collections.abc
import copy as _copy
import functools
import itertools
import operator
import re
import types
from .core import (CS, CTX, PathEnd, c_in, c_eq, c_lt, c_and, c_or, c_not, choose, decide, cs1, Unsupported)
from . import strs, regex, work
from .strs import sym, code, codes, ch, Fallback, PUA0
from .values import (SymInt, SymBytes, SymVal, SymType, Obj, conc_int, sint, term, mkbytes, latin, bytes_decode, str_encode,
                     KIND_NAMES, TUPLES, kind_sample, kinds_cs, conc as _vconc)

__symex__ = True
_FT = types.FunctionType
_MT = types.MethodType
_BT = types.BuiltinFunctionType
Pattern = re.Pattern

STEP = [None]


def tick():
    work.charge(1)
    c = CTX[0]
    if c is not None:
        c.tick()


def step(n):
    s = STEP[0]
    if s is not None:
        s(n)


# ---------------------------------------------------------------- symbolic data
def is_sym(x, depth=3):
    t = type(x)
    if t is str:
        return bool(x) and max(x) >= PUA0
    if t in (SymInt, SymVal, SymBytes, SymType) or t is regex.SymMatch:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(is_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict) and t is not SymVal:
        return any(is_sym(k, depth - 1) or is_sym(v, depth - 1) for k, v in dict.items(x))
    return False


def is_symkey(k):
    t = type(k)
    if t is str:
        return bool(k) and max(k) >= PUA0
    if t is int:
        return False
    if t in (SymInt, SymVal, SymBytes, SymType):
        return True
    if t is tuple or (isinstance(k, tuple) and t is not SymVal):
        return any(is_symkey(e) for e in k)
    return False


# ---------------------------------------------------------------------- equality
def eqc(a, b):
    """Condition (or bool) that a == b."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymType or tb is SymType:
        if ta is not SymType:
            a, b = b, a
        return a.is_(b.pick() if type(b) is SymType else b)
    if ta is SymVal or tb is SymVal:
        return _eqval(a, b)
    if ta is SymInt or tb is SymInt:
        a2, b2 = term(a), term(b)
        if isinstance(a2, (bool, int)) and not isinstance(b2, (int, bool)):
            pass
        if (ta in (SymInt, int, bool)) and (tb in (SymInt, int, bool)):
            return c_eq(int(a2) if ta is bool else a2, int(b2) if tb is bool else b2)
        return False
    if ta is SymBytes or tb is SymBytes:
        if isinstance(a, bytes) and isinstance(b, bytes):
            return strs.eq_cond(latin(a), latin(b))
        return False
    if isinstance(a, str):
        if not isinstance(b, str):
            return NotImplemented_eq(a, b)
        if sym(a) or sym(b):
            return strs.eq_cond(a, b)
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return c_and([eqc(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict) and (is_sym(a) or is_sym(b)):
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            f = find_key(b, k)
            if f is _MISS:
                return False
            out.append(eqc(v, b[f]))
        return c_and(out)
    return NotImplemented_eq(a, b)


def NotImplemented_eq(a, b):
    return bool(a == b)


def _eqval(a, b):
    if type(a) is not SymVal:
        a, b = b, a
    if type(b) is SymVal:
        # equal kinds and tags (tuples: element-wise), or equal numbers
        ka, kb = a.kind(), b.kind()
        if ka in TUPLES and kb in TUPLES:
            na, nb = a.size(), b.size()
            return na == nb and c_and([eqc(a.elem(i), b.elem(i)) for i in range(na)])
        if ka in TUPLES or kb in TUPLES:
            return False
        x, y = a.exemplar(ka), b.exemplar(kb)
        if isinstance(x, Obj) or isinstance(y, Obj):
            return False
        return x == y
    if isinstance(b, tuple):
        if not decide(a.is_tuple()):
            return False
        n = a.size()
        return n == len(b) and c_and([eqc(a.elem(i), b[i]) for i in range(n)])
    # a constant: which kinds can equal it at all
    ks = [k for k in KIND_NAMES if k not in TUPLES and (a.kinds & kinds_cs([k])).r and
          any(_safe_eq(_sample(k, t), b) for t in range(a.tag0, a.tag0 + a.ntags))]
    if not ks or not decide(a.is_kind(ks)):
        return False
    return _safe_eq(a.exemplar(), b)


_SAMPLES = {}


def _sample(k, t):
    r = _SAMPLES.get((k, t))
    if r is None:
        from .values import KINDS
        r = _SAMPLES[(k, t)] = (KINDS[k](t),)
    return r[0]


def _safe_eq(x, b):
    try:
        if sym(b) if type(b) is str else False:
            return decide(strs.eq_cond(x, b)) if type(x) is str else False
        return bool(x == b)
    except TypeError:
        return False


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a == b:
            return True
        if (not a or max(a) < PUA0) and (not b or max(b) < PUA0):
            return False
        return decide(strs.eq_cond(a, b))
    if ta is int and tb is int:
        return a == b
    if is_sym(a) or is_sym(b):
        return decide(eqc(a, b))
    return a == b


def ne(a, b):
    r = eq(a, b)
    return (not r) if type(r) is bool else a != b


def is_(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymType or tb is SymType:
        return decide(eqc(a, b))
    if ta is SymVal or tb is SymVal:
        if ta is SymVal and tb is SymVal:
            return False
        v, o = (a, b) if ta is SymVal else (b, a)
        if o is None or o is True or o is False:
            return decide(v.is_kind(["none" if o is None else "true" if o is True else "false"]))
        for x in v._ex.values():
            if x is o:
                return v.exemplar() is o
        return False
    if ta is SymInt and tb is int or tb is SymInt and ta is int:
        return eq(a, b)
    if (ta is str and tb is str) and (sym(a) or sym(b)):
        return eq(a, b) if len(a) <= 1 else False
    return False


def is_not(a, b):
    return not is_(a, b)


def contains(x, coll):
    """x in coll"""
    t = type(coll)
    if work.METER[0]:
        work.charge(work.size(coll) if t in (str, list, tuple) or t in _VIEWS or isinstance(coll, collections.deque) else 1)
    if t is str:
        if type(x) is str and (sym(x) or sym(coll)):
            return strs.contains(coll, x)
        return x in coll
    if t in (SymVal, SymBytes):
        if t is SymBytes and isinstance(x, (bytes, SymBytes)):
            return strs.contains(coll.s, latin(x))
        return coll.__contains__(x) if t is SymVal else any(eq(e, x) for e in coll)
    if isinstance(coll, dict) or isinstance(coll, (set, frozenset)) or t in _KEYVIEW:
        if t in _KEYVIEW:
            if not is_symkey(x) and not any(is_symkey(k) for k in coll):
                return x in coll
            return any(eq(x, k) for k in list(coll))
        if is_symkey(x) or any(is_symkey(k) for k in coll):
            _hashcheck(x)
            return find_key(coll, x) is not _MISS
        return x in coll
    if t in (list, tuple) or isinstance(coll, (list, tuple, collections.deque)) or t in _VIEWS:
        if is_sym(x) or is_sym(list(coll)):
            return any(eq(e, x) for e in coll)
        return x in coll
    if hasattr(t, "__symhas__"):
        return coll.__symhas__(x)
    if isinstance(coll, collections.abc.Mapping):
        if is_symkey(x) or any(is_symkey(k) for k in coll):
            return find_key(coll, x) is not _MISS
        return x in coll
    if t is range and type(x) is SymInt:
        return decide(c_or([c_eq(x.t, v) for v in coll]))
    return x in coll


def not_in(x, coll):
    return not contains(x, coll)


_KEYVIEW = (type({}.keys()),)
_VIEWS = (type({}.values()), type({}.items()), type(collections.OrderedDict().values()))


def _num(x):
    return term(x)


def lt(a, b):
    if isinstance(a, str) and isinstance(b, str) and (sym(a) or sym(b)):
        return decide(strs.lt_cond(a, b))
    if type(a) in (tuple, list) and type(b) is type(a) and (is_sym(a) or is_sym(b)):
        for x, y in zip(a, b):
            if not eq(x, y):
                return lt(x, y)
        return len(a) < len(b)
    if type(b) is SymInt and type(a) is int:
        return b > a
    return a < b


def gt(a, b):
    if is_sym(a) or is_sym(b):
        return lt(b, a)
    return a > b


def le(a, b):
    if is_sym(a) or is_sym(b):
        return not lt(b, a)
    return a <= b


def ge(a, b):
    if is_sym(a) or is_sym(b):
        return not lt(a, b)
    return a >= b


CMP = {"Eq": eq, "NotEq": ne, "Is": is_, "IsNot": is_not, "In": contains, "NotIn": not_in, "Lt": lt, "LtE": le, "Gt": gt,
       "GtE": ge}


def cmp(op, a, b):
    return CMP[op](a, b)


def cmpchain(a, *rest):
    """a op1 b op2 c ...: operands after the first come as thunks."""
    i = 0
    while True:
        op, th = rest[i], rest[i + 1]
        b = th()
        r = CMP[op](a, b)
        i += 2
        if i >= len(rest) or not r:
            return r
        a = b


# ---------------------------------------------------------------- match statement
_SELFMATCH = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def pmatch(x, p):
    """The captures of pattern p on x, or None."""
    got = {}
    return got if _pmatch(x, p, got) else None


def _pmatch(x, p, got):
    k = p[0]
    if k == "value":
        return bool(eq(x, p[1]))
    if k == "is":
        return is_(x, p[1])
    if k == "as":
        if p[1] is not None and not _pmatch(x, p[1], got):
            return False
        if p[2] is not None:
            got[p[2]] = x
        return True
    if k == "or":
        return any(_pmatch(x, q, got) for q in p[1])
    if k == "seq":
        if not isinstance_(x, collections.abc.Sequence) or isinstance_(x, (str, bytes, bytearray)):
            return False
        ps = p[1]
        st = [i for i, q in enumerate(ps) if q[0] == "star"]
        xs = list(x)
        if len(xs) != len(ps) if not st else len(xs) < len(ps) - 1:
            return False
        if st:
            i = st[0]
            j = len(xs) - (len(ps) - 1 - i)
            if ps[i][1] is not None:
                got[ps[i][1]] = xs[i:j]
            xs = xs[:i] + xs[j:]
            ps = ps[:i] + ps[i + 1:]
        return all(_pmatch(y, q, got) for y, q in zip(xs, ps))
    if k == "map":
        if not isinstance_(x, collections.abc.Mapping):
            return False
        for key, q in p[1]:
            v = call(x.get, key, _MISS)
            if v is _MISS or not _pmatch(v, q, got):
                return False
        if p[2] is not None:
            got[p[2]] = {y: getitem(x, y) for y in x.keys() if not any(eq(y, key) for key, _ in p[1])}
        return True
    if k == "class":
        cls, pos, kw = p[1:]
        if not isinstance_(x, cls):
            return False
        if pos:
            if cls in _SELFMATCH:
                if not _pmatch(x, pos[0], got):
                    return False
            elif not all(_pmatch(getattr_(x, a), q, got) for a, q in zip(cls.__match_args__, pos)):
                return False
        for a, q in kw:
            if not hasattr_(x, a) or not _pmatch(getattr_(x, a), q, got):
                return False
        return True
    raise Unsupported(k)


# ------------------------------------------------------------------ dictionaries
_MISS = object()


def _hashcheck(k):
    """Raise TypeError for unhashable symbolic values."""
    if type(k) is SymVal:
        bad = [n for n in KIND_NAMES if n not in TUPLES and not _hashable(kind_sample(n))]
        if decide(k.is_kind(bad)):
            raise TypeError("unhashable type")
        if decide(k.is_tuple()):
            for e in k:
                _hashcheck(e)
    elif isinstance(k, tuple):
        for e in k:
            _hashcheck(e)


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def find_key(d, k):
    """The key of d equal to k, or _MISS."""
    if not is_symkey(k):
        symk = [x for x in d if is_symkey(x)]
        if not symk:
            try:
                if k not in d:
                    return _MISS
            except TypeError:
                raise
            return k
        if isinstance(d, (dict, set, frozenset)):
            if k in d:
                return k
            keys = symk
        else:
            keys = list(d)
    else:
        keys = list(d)
    conds = []
    alts = []
    for x in keys:
        if x is k:
            c = True
        else:
            c = _keyeq(x, k)
        if c is False:
            continue
        alts.append(x)
        conds.append(c)
        if c is True:
            break
    if not alts:
        return _MISS
    i = choose(conds + [True])
    return alts[i] if i < len(alts) else _MISS


def _keyeq(x, k):
    tx, tk = type(x), type(k)
    if tx is str or tk is str:
        if tx is not tk:
            if not (isinstance(x, str) and isinstance(k, str)) and SymVal not in (tx, tk):
                return False
    r = eqc(x, k)
    return r


def canon(d, k):
    """k, or the equal key d already has."""
    if is_symkey(k) or any(is_symkey(x) for x in d):
        _hashcheck(k)
        f = find_key(d, k)
        if f is not _MISS:
            return f
    return k


def setkey(d, k, v):
    d[canon(d, k)] = v


def mkdict(pairs, cls=dict):
    d = cls()
    for k, v in pairs:
        setkey(d, k, v)
    return d


def dict_display(*items):
    """items: (0, k, v) or (1, mapping)."""
    d = {}
    for it in items:
        if it[0] == 0:
            setkey(d, it[1], it[2])
        else:
            m = it[1]
            work.charge(work.size(m))
            for k in m.keys():
                setkey(d, k, getitem(m, k))
    return d


def mkset(items):
    s = set()
    for x in items:
        s.add(canon(s, x))
    return s


def dictcomp(it):
    return mkdict(it)


# ------------------------------------------------------------------- subscripts
def getitem(o, k):
    if type(k) is slice and work.METER[0]:
        r = _getitem(o, k)
        work.charge(1 + work.size(r) // work.COPY)
        return r
    return _getitem(o, k)


def _getitem(o, k):
    t = type(o)
    if t is list or t is tuple:
        if type(k) is int or type(k) is slice and not _symslice(k):
            return o[k]
        return _seqget(o, k)
    if t is dict or isinstance(o, dict) and t is not SymVal:
        if is_symkey(k) or any(is_symkey(x) for x in o):
            _hashcheck(k)
            f = find_key(o, k)
            if f is _MISS:
                m = getattr(t, "__missing__", None)
                if m is not None:
                    return call(m, o, k)
                raise KeyError(k)
            return t.__getitem__(o, f)
        return o[k]
    if t is str:
        if type(k) is SymInt:
            return _seqget(o, k)
        if type(k) is slice and _symslice(k):
            return o[slice(conc_int(k.start), conc_int(k.stop), conc_int(k.step))]
        return o[k]
    if hasattr(o, "__symget__"):
        return o.__symget__(k)
    if isinstance(o, collections.abc.Mapping) and t is not SymVal:
        if is_symkey(k) or any(is_symkey(x) for x in o):
            f = find_key(o, k)
            if f is _MISS:
                raise KeyError(k)
            return o[f]
        return o[k]
    if type(k) is SymInt and isinstance(o, collections.abc.Sequence) and t is not SymVal:
        return _seqget(o, k)
    if t is regex.SymMatch:
        return o[k]
    return o[k]


def _symslice(s):
    return type(s.start) is SymInt or type(s.stop) is SymInt or type(s.step) is SymInt


def _seqindex(n, k):
    """Concrete non-negative index for a symbolic one, or None when out of range."""
    conds = []
    vals = []
    for i in range(n):
        conds.append(c_eq(k.t, i))
        vals.append(i)
    for i in range(n):
        conds.append(c_eq(k.t, i - n))
        vals.append(i)
    j = choose(conds + [True])
    return vals[j] if j < len(vals) else None


def _seqget(o, k):
    if type(k) is SymInt:
        i = _seqindex(len(o), k)
        if i is None:
            raise IndexError("index out of range")
        return o[i]
    if type(k) is slice:
        return o[slice(conc_int(k.start), conc_int(k.stop), conc_int(k.step))]
    return o[k]


def setitem(v, o, k):
    t = type(o)
    if isinstance(o, dict) and t is not SymVal:
        o[canon(o, k)] = v
    elif type(k) is SymInt and isinstance(o, list):
        i = _seqindex(len(o), k)
        if i is None:
            raise IndexError("list assignment index out of range")
        o[i] = v
    else:
        o[k] = v


def delitem(o, k):
    if isinstance(o, dict):
        f = find_key(o, k)
        if f is _MISS:
            raise KeyError(k)
        del o[f]
    else:
        del o[conc_int(k) if type(k) is SymInt else k]


_OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv, "Mod": operator.imod,
        "FloorDiv": operator.ifloordiv, "BitOr": operator.ior, "BitAnd": operator.iand, "BitXor": operator.ixor,
        "Pow": operator.ipow, "LShift": operator.ilshift, "RShift": operator.irshift, "MatMult": operator.imatmul}


def iop(op, a, v):
    """a op= v"""
    if work.METER[0] and op == "Add":
        work.charge(1 + work.size(v) // work.COPY)
    if op == "Add":
        if isinstance(a, list):
            a.extend(v)
            return a
    elif op == "BitOr":
        if type(a) is set and (is_sym(a) or is_sym(v)):
            for x in v:
                a.add(canon(a, x))
            return a
        if isinstance(a, dict) and isinstance(v, dict) and type(v) is not SymVal:
            for x in v:
                setkey(a, x, v[x])
            return a
    elif op == "Mod":
        return mod(a, v)
    return _OPS[op](a, v)


def aug(o, k, op, v):
    cur = getitem(o, k)
    setitem(iop(op, cur, v), o, k)


def mod(a, b):
    """a % b"""
    if type(a) is str and sym(a):
        return pformat(a, b)
    if type(a) is SymBytes:
        return _concretise(operator.mod, (a, b), {})
    return a % b


def bitor(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and type(a) is not SymVal:
        d = type(a)(a) if type(a) in (dict, collections.OrderedDict) else a | {}
        for k, v in b.items():
            setkey(d, k, v)
        return d
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (is_sym(a) or is_sym(b)):
        return type(a)(mkset(list(a) + list(b)))
    return a | b


def pformat(a, b):
    """symbolic % args: percent signs among the symbolic characters matter."""
    cs = codes(a)
    if decide(c_or([c_eq(t, 37) for t in cs if type(t) is not int])):
        return _concretise(operator.mod, (a, b), {})
    return a % b


def repr_(x):
    t = type(x)
    if t is str and sym(x):
        return "'" + x + "'"
    if t is SymBytes:
        return "b'" + x.s + "'"
    if t in (list, tuple, dict):
        if is_sym(x):
            if t is dict:
                return "{" + ", ".join(repr_(k) + ": " + repr_(v) for k, v in x.items()) + "}"
            body = ", ".join(map(repr_, x))
            return "[" + body + "]" if t is list else "(" + body + ("," if len(x) == 1 else "") + ")"
    return repr(x)


# ------------------------------------------------------------------------- calls
def concrete(x, m):
    return _vconc(x, m)


def fix_all(x):
    """Constrain every symbolic part of x to its value in the current model."""
    c = CTX[0]
    t = type(x)
    if t is str:
        if sym(x):
            m = c.model
            cc = [c_eq(u, u.ev(m)) for u in codes(x) if type(u) is not int]
            c.assume(c_and(cc))
            return strs.conc(x, m)
        return x
    if t is SymBytes:
        return fix_all(x.s).encode("latin1")
    if t is SymInt:
        v = x.t.ev(c.model)
        c.assume(c_eq(x.t, v))
        return v
    if t is SymVal:
        k = KIND_NAMES[c.model.val(x.k())]
        c.assume(x.is_kind([k]))
        if k in TUPLES:
            return tuple(x)
        return x.exemplar(k)
    if t is SymType:
        fix_all(x.v)
        return x.pick()
    if t is regex.SymMatch:
        return x
    if t is list:
        return [fix_all(e) for e in x]
    if t is tuple:
        return tuple(fix_all(e) for e in x)
    if t in (set, frozenset):
        return t(fix_all(e) for e in x)
    if t is dict:
        return {fix_all(k): fix_all(v) for k, v in x.items()}
    return x


def _concretise(f, a, k):
    """A native operation that is not interpreted: continue with the concrete
    values of the current model (this path then covers only those)."""
    c = CTX[0]
    if c is None:
        return f(*a, **k)
    c.taint("concretised for " + getattr(f, "__qualname__", getattr(f, "__name__", repr(type(f)))))
    a = [fix_all(x) for x in a]
    k = {n: fix_all(v) for n, v in k.items()}
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType) and is_sym(s):
        f = getattr(fix_all(s), f.__name__)
    return f(*a, **k)


def _picked(cls):
    if type(cls) is SymType:
        return cls.pick()
    if type(cls) is tuple:
        return tuple(map(_picked, cls))
    return cls


def issubclass_(x, cls):
    cls = _picked(cls)
    if type(x) is SymType:
        return decide(x.sub(cls))
    return issubclass(x, cls)


def isinstance_(x, cls):
    t = type(x)
    cls = _picked(cls)
    if t is SymVal:
        return decide(x.is_kind([k for k in KIND_NAMES if isinstance(kind_sample(k), cls)]))
    if t is SymType:
        return isinstance(x.pick(), cls)
    if t is SymInt:
        return issubclass(int, cls)
    if t is SymBytes:
        return issubclass(bytes, cls)
    return isinstance(x, cls)


def type_(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymVal:
            return SymType(x)
        if t is SymInt:
            return x.__class__
        if t is SymType:
            return type
        if t is SymBytes:
            return bytes
        return getattr(t, "__symtype__", t)
    return type(*a)


def str_(x="", *a, **k):
    t = type(x)
    if t is SymBytes:
        if a or k:
            return bytes_decode(x, *a, **k)
        return _concretise(str, (x,), {})
    if t is str and not a:
        return x
    return str(x, *a, **k)


def bytes_(x=b"", *a, **k):
    if type(x) is str and sym(x):
        return str_encode(x, *a, **k)
    if type(x) is SymBytes:
        return x
    return bytes(x, *a, **k)


def int_(x=0, *a, **k):
    t = type(x)
    if t is str and sym(x):
        try:
            return sint(strs.parse_int(x, *a, **k))
        except Fallback:
            return _concretise(int, (x,) + a, k)
    if t is SymBytes:
        # bytes digits are ASCII
        if decide(c_and([c_in(u, strs.ASCII) for u in codes(x.s)])):
            return int_(x.s)
        raise ValueError("invalid literal for int() with base 10")
    if t is SymInt:
        return x
    if t is SymVal:
        return _concretise(int, (x,) + a, k)
    return int(x, *a, **k)


def dict_(*a, **k):
    d = {}
    if a:
        m = a[0]
        if isinstance(m, dict) and type(m) is not SymVal:
            d = dict(m)
        elif hasattr(m, "keys"):
            for x in m.keys():
                setkey(d, x, getitem(m, x))
        else:
            for x, v in m:
                setkey(d, x, v)
    for x, v in k.items():
        setkey(d, x, v)
    return d


def odict_(*a, **k):
    return collections.OrderedDict(dict_(*a, **k))


def set_(it=()):
    return mkset(it)


def frozenset_(it=()):
    return frozenset(mkset(it))


def sorted_(it, *, key=None, reverse=False):
    xs = list(it)
    ks = [call(key, x) for x in xs] if key is not None else xs
    if not any(is_sym(k) for k in ks):
        idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in idx]

    def c(i, j):
        if lt(ks[i], ks[j]):
            return -1
        if lt(ks[j], ks[i]):
            return 1
        return 0
    return [xs[i] for i in sorted(range(len(xs)), key=functools.cmp_to_key(c), reverse=reverse)]


def _minmax(name):
    nat = getattr(builtins, name)

    def f(*a, **k):
        if not any(is_sym(x) for x in a):
            if "key" in k and k["key"] is not None:
                kf = k["key"]
                k = dict(k, key=lambda x: call(kf, x))
            return nat(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            return nat(*a, **k)
        key = k.get("key")
        best = xs[0]
        kb = call(key, best) if key else best
        for x in xs[1:]:
            kx = call(key, x) if key else x
            if (lt(kx, kb) if name == "min" else lt(kb, kx)):
                best, kb = x, kx
        return best
    return f


def map_(f, *its):
    for a in zip(*its):
        yield call(f, *a)


def filter_(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def reduce_(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


def hasattr_(o, n):
    if type(o) is SymVal:
        ks = [k for k in KIND_NAMES if hasattr(kind_sample(k), n)]
        return decide(o.is_kind(ks))
    if type(o) is SymBytes:
        return hasattr(b"", n)
    if type(o) is SymInt:
        return hasattr(0, n)
    return hasattr(o, n)


def getattr_(o, n, *d):
    if type(o) is SymVal and not hasattr_(o, n):
        if d:
            return d[0]
        raise AttributeError(n)
    return getattr(o, n, *d)


def callable_(o):
    if type(o) is SymVal:
        return False
    return callable(o)


def hash_(o):
    c = CTX[0]
    if c is None or type(o) is not SymVal and not isinstance(o, (str, tuple, int)):
        return hash(o)
    if is_symkey(o) or c.path_data.get("hash"):
        # equal values hash equal; different values are taken to hash differently
        _hashcheck(o)
        for x, h in c.path_data.get("hash", ()):
            if eq(x, o):
                return h
    h = hash(o) if not is_symkey(o) else (1 << 61) + 977 * len(c.path_data.get("hash", ()))
    c.path_data.setdefault("hash", []).append((o, h))
    return h


def ord_(c):
    return sint(code(c)) if type(c) is str and len(c) == 1 and sym(c) else ord(c)


def chr_(n):
    return ch(n.t) if type(n) is SymInt else chr(n)


def copy_(x):
    t = type(x)
    if t is SymVal:
        return deepcopy_(x, shallow=True)
    if t in (SymInt, SymBytes):
        return x
    return _copy.copy(x)


MUTABLE = ("list0", "list1", "list", "listsub", "dict0", "dict", "set", "obj")


def deepcopy_(x, memo=None, shallow=False):
    t = type(x)
    if t is SymVal:
        if decide(x.is_kind(MUTABLE)):
            v = x.exemplar()
            return _copy.copy(v) if shallow else _copy.deepcopy(v)
        if not shallow and decide(x.is_tuple()):
            es = [deepcopy_(e) for e in x]
            if all(a is b for a, b in zip(es, x)):
                return x
            return tuple(es)
        return x
    if t in (SymInt, SymBytes, str):
        return x
    if t is list:
        return [deepcopy_(e) for e in x]
    if t is tuple:
        es = tuple(deepcopy_(e) for e in x)
        return x if all(a is b for a, b in zip(es, x)) else es
    if t is dict:
        return {k: deepcopy_(v) for k, v in x.items()}
    return _copy.deepcopy(x, memo)


def dictsum(m):
    return m


class _LRU:
    """functools.lru_cache / cache with symbolic keys."""

    def __init__(self, fn, maxsize, typed):
        self.fn = fn
        self.maxsize = maxsize
        self.typed = typed
        self.d = {}
        functools.update_wrapper(self, fn)

    def __call__(self, *a, **k):
        key = a + ((_MARK,) + tuple(x for kv in sorted(k.items()) for x in kv) if k else ())
        if self.typed:
            key += tuple(type_(x) for x in a)
        _hashcheck(key)
        if is_symkey(key) or any(is_symkey(x) for x in self.d):
            f = find_key(self.d, key)
        else:
            f = key if key in self.d else _MISS
        if f is not _MISS:
            v = self.d.pop(f)
            self.d[f] = v
            return v
        v = call(self.fn, *a, **k)
        self.d[key] = v
        if self.maxsize is not None and len(self.d) > self.maxsize:
            del self.d[next(iter(self.d))]
        return v

    def __get__(self, o, cls=None):
        return self if o is None else _MT(self, o)

    def cache_clear(self):
        self.d.clear()

    def cache_info(self):
        return functools._CacheInfo(0, 0, self.maxsize, len(self.d))


class _Mark:
    def __repr__(self):
        return "<kw>"


_MARK = _Mark()


def lru_cache_(maxsize=128, typed=False):
    if callable(maxsize):
        return _LRU(maxsize, 128, False)
    return lambda fn: _LRU(fn, maxsize, typed)


def cache_(fn):
    return _LRU(fn, None, False)


def re_compile(pattern, flags=0):
    if type(pattern) is str and sym(pattern):
        try:
            return regex.compile_(pattern, flags)
        except Fallback:
            return _concretise(re.compile, (pattern, flags), {})
    return re.compile(pattern, flags)


def re_escape(s):
    if type(s) is str and sym(s):
        return regex.escape(s)
    return re.escape(s)


def _re_fn(name):
    def f(pattern, *a, **k):
        if name in ("sub", "subn"):
            flags = k.pop("flags", 0)
            if len(a) > 3:
                flags = a[3]
                a = a[:3]
        elif name == "split":
            flags = k.pop("flags", 0)
        else:
            flags = k.pop("flags", 0)
            if len(a) > 1:
                flags = a[1]
                a = a[:1]
        p = pattern if isinstance(pattern, Pattern) else re_compile(pattern, flags)
        return pattern_method(p, name, a, k)
    return f


def pattern_symbolic(p):
    return type(p.pattern) is str and any(BASE_ <= c < MAX_ for c in p.pattern)


BASE_ = chr(strs.BASE)
MAX_ = chr(0x10FFFF)


def pattern_method(p, name, a, k):
    names = {"sub": ("repl", "string", "count"), "subn": ("repl", "string", "count"), "split": ("string", "maxsplit")}
    order = names.get(name, ("string", "pos", "endpos"))
    args = dict(zip(order, a))
    args.update(k)
    s = args.get("string")
    if type(s) is SymBytes or type(s) is SymVal:
        return _concretise(getattr(p, name), a, k)
    symbolic = type(s) is str and (sym(s) or pattern_symbolic(p))
    if not symbolic:
        if name in ("sub", "subn") and not isinstance(args.get("repl"), str) and callable(args.get("repl")):
            r = args["repl"]
            args["repl"] = r if type(r) is _FT else (lambda m: call(r, m))
        elif name in ("sub", "subn") and type(args.get("repl")) is str and sym(args["repl"]):
            return getattr(regex, name)(p, args["repl"], s, args.get("count", 0))
        return getattr(p, name)(**args)
    try:
        vals = [args[o] for o in order if o in args]
        kw = {}
        f = regex.OPS[name]
        return f(p, *vals) if list(args) == list(order[:len(args)]) else f(p, **_rekw(name, args))
    except (Fallback, regex.Explosion) as e:
        CTX[0].taint("regex not interpreted: %s" % type(e).__name__)
        s2 = fix_all(s)
        args["string"] = s2
        if "repl" in args and not isinstance(args["repl"], str):
            r = args["repl"]
            args["repl"] = lambda m: call(r, m)
        p2 = p
        if pattern_symbolic(p):
            t = "".join(chr(strs.TERMS[ord(c) - strs.ESCB].ev(CTX[0].model)) if strs.ESCB <= ord(c) < 0x10FFFF else c for c in p.pattern)
            p2 = re.compile(re.escape(t), p.flags)
        return getattr(p2, name)(**args)


def _rekw(name, args):
    m = {"string": "s"}
    return {m.get(k, k): v for k, v in args.items()}


# methods ----------------------------------------------------------------------
def _str_method(s, name, a, k):
    """s.name(*a, **k) where s or an argument is symbolic."""
    f = strs.METHODS.get(name)
    if f is not None:
        a2 = tuple(conc_int(x) if type(x) is SymInt else x for x in a)
        return f(s, *a2, **k)
    if name == "encode":
        return str_encode(s, *a, **k)
    if name in ("format", "format_map"):
        if sym(s):
            cs = [t for t in codes(s) if type(t) is not int]
            if decide(c_or([c_in(t, BRACES) for t in cs])):
                raise Fallback
        if name == "format_map":
            return s.format(**{x: a[0][x] for x in a[0]})
        return str.format(s, *[_fa(x) for x in a], **{x: _fa(v) for x, v in k.items()})
    if name == "join":
        return s.join(list(a[0]))
    if name in ("ljust", "rjust", "center"):
        return getattr(s, name)(*[conc_int(x) for x in a])
    if name == "__eq__":
        return eq(s, a[0])
    if name == "__ne__":
        return ne(s, a[0])
    if name == "__lt__":
        return lt(s, a[0])
    if name == "__mod__":
        return mod(s, a[0])
    if name == "__getitem__":
        return getitem(s, a[0])
    if name in strs.MOVE:
        return getattr(s, name)(*a, **k)
    raise Fallback


class _Rep(str):
    """Format argument whose repr stays symbolic."""

    def __repr__(self):
        return "'" + str.__str__(self) + "'"


def _fa(x):
    return _Rep(x) if type(x) is str and sym(x) else x


BRACES = CS.of(map(ord, "{}"))


def _bytes_method(b, name, a, k):
    if name in ("startswith", "endswith", "find", "replace", "split", "partition", "rpartition", "strip", "lstrip",
                "rstrip", "count", "index", "rfind", "removeprefix", "removesuffix"):
        a2 = [tuple(latin(y) for y in x) if isinstance(x, tuple) else latin(x) if isinstance(x, bytes) else x for x in a]
        if name in ("split", "strip", "lstrip", "rstrip") and (not a2 or a2[0] is None):
            raise Fallback
        r = strs.METHODS[name](b.s if type(b) is SymBytes else latin(b), *a2, **k)
        if type(r) is str:
            return mkbytes(r)
        if type(r) in (list, tuple):
            return type(r)(mkbytes(x) for x in r)
        return r
    if name in ("isdigit", "isdecimal"):
        s = b.s
        return bool(s) and decide(c_and([c_in(u, CS.rng((48, 57))) for u in codes(s)]))
    if name == "join":
        xs = list(a[0])
        return mkbytes((b.s if type(b) is SymBytes else latin(b)).join(latin(x) for x in xs))
    raise Fallback


def _dict_method(d, name, a, k):
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__delitem__", "__setitem__", "move_to_end"):
        kk = a[0]
        if is_symkey(kk) or any(is_symkey(x) for x in d):
            _hashcheck(kk)
            f = find_key(d, kk)
            if f is _MISS:
                if name == "get":
                    return a[1] if len(a) > 1 else k.get("default")
                if name == "__contains__":
                    return False
                if name == "pop":
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(kk)
                if name == "setdefault":
                    v = a[1] if len(a) > 1 else None
                    d[kk] = v
                    return v
                if name == "__setitem__":
                    d[kk] = a[1]
                    return None
                if name == "__getitem__":
                    return getitem(d, kk)
                raise KeyError(kk)
            if name == "__getitem__":
                return dict.__getitem__(d, f)
            return getattr(d, name)(f, *a[1:], **k)
        return getattr(d, name)(*a, **k)
    if name == "update":
        if a:
            m = a[0]
            if hasattr(m, "keys"):
                for x in m.keys():
                    setkey(d, x, getitem(m, x))
            else:
                for x, v in m:
                    setkey(d, x, v)
        for x, v in k.items():
            setkey(d, x, v)
        return None
    if name == "fromkeys":
        v = a[1] if len(a) > 1 else None
        return mkdict((x, v) for x in a[0])
    if name == "__eq__":
        return eq(d, a[0])
    return getattr(d, name)(*a, **k)


def _set_method(s, name, a, k):
    if name == "add":
        s.add(canon(s, a[0]))
        return None
    if name in ("discard", "remove", "__contains__"):
        f = find_key(s, a[0])
        if f is _MISS:
            if name == "__contains__":
                return False
            if name == "discard":
                return None
            raise KeyError(a[0])
        return getattr(s, name)(f)
    if name == "update":
        for it in a:
            for x in it:
                s.add(canon(s, x))
        return None
    if any(is_sym(x) for x in s) or any(is_sym(list(x)) for x in a if hasattr(x, "__iter__")):
        if name == "union":
            return type(s)(mkset(list(s) + [x for it in a for x in it]))
        if name in ("difference", "intersection", "issubset", "issuperset", "isdisjoint"):
            o = mkset([x for it in a for x in it])
            inn = [x for x in s if contains(x, o)]
            if name == "difference":
                return type(s)(x for x in s if x not in inn)
            if name == "intersection":
                return type(s)(inn)
            if name == "isdisjoint":
                return not inn
            if name == "issubset":
                return len(inn) == len(s)
            return all(contains(x, s) for x in o)
        if name in ("copy", "clear", "__len__", "__iter__", "pop"):
            return getattr(s, name)(*a, **k)
        raise Fallback
    return getattr(s, name)(*a, **k)


def _list_method(l, name, a, k):
    if name == "index":
        for i in range(*slice(*(list(a[1:]) if len(a) == 3 else ([a[1], None] if len(a) == 2 else [None]))).indices(len(l))) if len(a) > 1 else range(len(l)):
            if eq(l[i], a[0]):
                return i
        raise ValueError("not in list")
    if name == "count":
        return sum(1 for x in l if eq(x, a[0]))
    if name == "remove":
        for i, x in enumerate(l):
            if eq(x, a[0]):
                del l[i]
                return None
        raise ValueError("list.remove(x): x not in list")
    if name == "sort":
        l[:] = sorted_(l, **k)
        return None
    if name in ("insert", "pop") and a and type(a[0]) is SymInt:
        a = (conc_int(a[0]),) + tuple(a[1:])
    if name == "__getitem__":
        return getitem(l, a[0])
    return getattr(l, name)(*a, **k)


SAFE = set()      # native callables that only move their arguments
for _f in (builtins.list, builtins.tuple, builtins.enumerate, builtins.zip, builtins.iter, builtins.next, builtins.reversed,
           builtins.len, builtins.id, builtins.print, builtins.bool, builtins.super, builtins.slice,
           builtins.setattr, builtins.delattr, builtins.object, builtins.property, builtins.staticmethod,
           builtins.classmethod, builtins.vars, builtins.dir, builtins.range, builtins.format,
           itertools.chain, itertools.chain.from_iterable, itertools.count, itertools.islice, itertools.repeat,
           itertools.cycle, itertools.tee, itertools.zip_longest, itertools.compress, itertools.product, itertools.pairwise,
           functools.partial, functools.wraps, functools.update_wrapper, types.MappingProxyType, collections.deque,
           types.SimpleNamespace, types.MethodType, collections.namedtuple):
    try:
        SAFE.add(_f)
    except TypeError:
        pass


def _fold(op):
    return lambda a, b: op(a, b)


HAND = {
    builtins.isinstance: isinstance_, builtins.issubclass: issubclass_, builtins.type: type_, builtins.str: str_, builtins.bytes: bytes_, builtins.int: int_,
    builtins.dict: dict_, builtins.set: set_, builtins.frozenset: frozenset_, builtins.sorted: sorted_,
    builtins.min: _minmax("min"), builtins.max: _minmax("max"), builtins.map: map_, builtins.filter: filter_,
    builtins.any: any_, builtins.all: all_, builtins.sum: sum_, builtins.hasattr: hasattr_, builtins.getattr: getattr_,
    builtins.callable: callable_, builtins.hash: hash_, builtins.ord: ord_, builtins.chr: chr_, builtins.repr: repr_,
    builtins.ascii: repr_,
    functools.reduce: reduce_, functools.lru_cache: lru_cache_, functools.cache: cache_,
    collections.OrderedDict: odict_,
    re.compile: re_compile, re.escape: re_escape,
    _copy.copy: copy_, _copy.deepcopy: deepcopy_,
    operator.eq: eq, operator.ne: ne, operator.is_: is_, operator.is_not: is_not, operator.getitem: getitem,
    operator.contains: lambda c, x: contains(x, c), operator.mod: mod, operator.lt: lt, operator.gt: gt, operator.le: le,
    operator.ge: ge, operator.setitem: lambda o, k, v: setitem(v, o, k),
}
for _n in ("match", "fullmatch", "search", "finditer", "findall", "sub", "subn", "split"):
    HAND[getattr(re, _n)] = _re_fn(_n)

_SELF_BUILTIN = (types.BuiltinMethodType, types.MethodWrapperType, type(re.compile("").sub))


def _lib(g):
    return "__rt__" in g or "__symex__" in g


def call(f, *a, **k):
    t = type(f)
    if work.METER[0]:
        work.charge(1)
        if type(f).__hash__ is not None and f in _EAGER:
            return _eager(f, a, k)
    if t is SymType:
        f = f.pick()
        t = type(f)
    if t is _FT:
        g = f.__globals__
        if "__rt__" in g or "__symex__" in g:
            return f(*a, **k)
        h = HAND.get(f)
        if h is not None:
            return h(*a, **k)
        if a and hasattr(f, "dispatch") and hasattr(f, "registry"):
            return call(_dispatch(f, a[0]), *a, **k)
        return native(f, a, k)
    if t is _MT:
        fn = f.__func__
        if type(fn) is _FT and _lib(fn.__globals__) or type(fn) is _LRU:
            return f(*a, **k)
        return method(f, f.__self__, fn.__name__ if hasattr(fn, "__name__") else "?", a, k)
    if t is type or isinstance(f, type):
        h = HAND.get(f)
        if h is not None:
            return h(*a, **k)
        if f in SAFE:
            return f(*a, **k)
        mod_ = f.__module__ or ""
        if mod_.startswith(("sqlparams", "symex", "harness")) or issubclass(f, BaseException):
            return f(*a, **k)
        return native(f, a, k)
    if t in _SELF_BUILTIN:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            h = HAND.get(f)
            if h is not None:
                return h(*a, **k)
            return native(f, a, k)
        return method(f, s, f.__name__, a, k)
    if t is functools.partial:
        kw = dict(f.keywords)
        kw.update(k)
        return call(f.func, *(f.args + a), **kw)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType):
        # str.upper(x), dict.get(d, k), object.__setattr__(...)
        h = HAND.get(f)
        if h:
            return h(*a, **k)
        if a and f.__objclass__ is not object:
            if type(a[0]) is str and f.__objclass__ is str or isinstance(a[0], (list, dict, set, bytes)):
                return method(getattr(a[0], f.__name__, f), a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    try:
        h = HAND.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t is _LRU:
        return f(*a, **k)
    cl = getattr(t, "__call__", None)
    if type(cl) is _FT and _lib(cl.__globals__):
        return f(*a, **k)
    if isinstance(f, operator.itemgetter):
        keys = f.__reduce__()[1]
        r = tuple(getitem(a[0], x) for x in keys)
        return r[0] if len(r) == 1 else r
    return native(f, a, k)


_EAGER = ()


def _eager(f, a, k):
    # functions that build something of every element
    r = (HAND.get(f) or f)(*a, **k)
    work.charge(1 + (work.size(r) if f in _MAKERS else sum(work.size(x) for x in a)))
    return r


_MAKERS = (builtins.list, builtins.tuple, builtins.set, builtins.frozenset, builtins.dict, builtins.sorted, collections.deque,
           collections.OrderedDict, collections.Counter)
_EAGER = frozenset(_MAKERS + (builtins.sum, builtins.min, builtins.max, builtins.any, builtins.all, _copy.copy, _copy.deepcopy))


counted = work.counted


def joined(x):
    """A formatted text."""
    work.charge(len(x) // work.COPY)
    return x


def add(a, b):
    """a + b"""
    r = a + b
    if work.METER[0]:
        # a text that is appended to grows in place
        work.charge(1 + (len(b) // work.COPY if isinstance(r, (str, bytes)) else len(r) if isinstance(r, (list, tuple)) else 0))
    return r


def _dispatch(f, x):
    """The implementation functools.singledispatch chooses."""
    if type(x) is SymVal:
        by = {}
        for n in KIND_NAMES:
            by.setdefault(f.dispatch(type(kind_sample(n))), []).append(n)
        fs = list(by)
        return fs[choose([x.is_kind(by[g]) for g in fs])]
    return f.dispatch(_picked(type_(x)))


def method(f, s, name, a, k):
    """Native bound method."""
    if not work.METER[0]:
        return _method(f, s, name, a, k)
    work.before(s, name, a)
    r = _method(f, s, name, a, k)
    if isinstance(s, (str, bytes)):
        work.after(s, name, a, r)
    return r


def _method(f, s, name, a, k):
    t = type(s)
    if t is str:
        if sym(s) or any(is_sym(x) for x in a) or k and any(is_sym(x) for x in k.values()):
            try:
                return _str_method(s, name, a, k)
            except Fallback:
                return _concretise(f, a, k)
        if name == "join":
            return s.join(list(a[0]))
        return f(*a, **k)
    if t is Pattern:
        if name in regex.OPS:
            return pattern_method(s, name, a, k)
        return f(*a, **k)
    if t is SymBytes or t is bytes:
        if t is SymBytes or any(is_sym(x) for x in a):
            try:
                return _bytes_method(s, name, a, k)
            except Fallback:
                return _concretise(f, a, k)
        return f(*a, **k)
    if t is SymVal or t is SymInt or t is regex.SymMatch:
        return f(*a, **k)
    if t is dict or isinstance(s, dict):
        if t is dict or t in (collections.OrderedDict, collections.defaultdict, collections.Counter):
            return _dict_method(s, name, a, k)
        return f(*a, **k)
    if s is dict and name == "fromkeys":
        return _dict_method({}, name, a, k)
    if s is str and name == "maketrans":
        return f(*a, **k)
    if t in (set, frozenset):
        try:
            return _set_method(s, name, a, k)
        except Fallback:
            return _concretise(f, a, k)
    if t is list or t is tuple or t is collections.deque:
        return _list_method(s, name, a, k)
    if isinstance(s, collections.abc.Mapping) and name in ("get", "__getitem__", "__contains__") and a and is_symkey(a[0]) and not hasattr(t, "__symget__"):
        f2 = find_key(s, a[0])
        if f2 is _MISS:
            if name == "get":
                return a[1] if len(a) > 1 else k.get("default")
            if name == "__contains__":
                return False
            raise KeyError(a[0])
        return getattr(s, name)(f2, *a[1:], **k)
    return f(*a, **k)


TRANSPARENT = ("typing", "types", "abc", "enum", "dataclasses", "logging", "warnings", "contextlib", "io", "_io", "threading",
               "_thread", "weakref", "inspect", "collections", "itertools", "functools", "builtins", "_collections",
               "_functools", "operator", "_operator", "string", "_contextvars", "contextvars", "sys", "gc", "_weakref",
               "time", "os", "_abc", "collections.abc", "_collections_abc")


def native(f, a, k):
    """A native (or library) callable without interpretation."""
    try:
        safe = f in SAFE
    except TypeError:
        safe = False
    if safe:
        return f(*a, **k)
    if not (any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values())):
        return f(*a, **k)
    m = getattr(f, "__module__", None) or ""
    if m in TRANSPARENT and getattr(f, "__name__", "") not in ("Counter", "defaultdict", "ChainMap", "UserDict", "eval", "exec"):
        return f(*a, **k)
    return _concretise(f, a, k)


def deco(d):
    def apply(fn):
        return call(d, fn)
    if d in (staticmethod, classmethod, property):
        return d
    return apply
