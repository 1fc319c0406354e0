"""Symbolic strings.

A symbolic string is a native `str` in which some characters are code points of
plane 15 standing for a symbolic character (an integer `Term`): concatenation,
joining, formatting, slicing and storing are then CPython's own operations, and
only operations that look at the content have to be interpreted (this module).
Plane 16 code points stand for "the same character, escaped by re.escape".
"""
import unicodedata
from .core import (CS, EMPTY, Term, Var, Mapped, mapped, lin, DivMod, c_in, c_eq, c_lt, c_and, c_or,
                   c_not, choose, decide, curdom, bounds, CTX, var, PathEnd)

BASE = 0xF0000
ESCB = 0x100000
LIM = 0xFFF0
PUA0 = chr(BASE)

TERMS = []
INDEX = {}


def ch(t):
    """Character of a code point or term."""
    if type(t) is int:
        return chr(t)
    i = INDEX.get(id(t))
    if i is None:
        i = len(TERMS)
        if i >= LIM:
            raise RuntimeError("too many symbolic characters")
        TERMS.append(t)
        INDEX[id(t)] = i
    return chr(BASE + i)


def code(c):
    """Code point or term of a character."""
    o = ord(c)
    if o < BASE:
        return o
    if o >= ESCB:
        return TERMS[o - ESCB]
    return TERMS[o - BASE]


def sym(s):
    """Does the str hold symbolic characters?"""
    return bool(s) and max(s) >= PUA0


def codes(s):
    return [code(c) for c in s]


def mk(cs):
    return "".join([ch(c) for c in cs])


def alphabet():
    a = set(range(0x100))
    a |= {0x131, 0x17F, 0x178, 0x212A, 0x301, 0x3B1, 0x4E2D, 0x2028, 0x2029, 0x3000, 0x1F600, 0xFF1A, 0xFF05}
    a |= set(range(0x660, 0x66A)) | set(range(0xFF10, 0xFF1A))
    return CS.of(a)


ALPHA = alphabet()
LATIN = CS.rng((0, 0xFF))
ASCII = CS.rng((0, 0x7F))
# Code points any character term can take (the alphabet closed under case mapping).
CASED = [0x131, 0x130, 0x17F, 0x149, 0x1C5, 0x1C6, 0x390, 0x3C2, 0x3C3, 0x1E9E, 0xFB01]
_u = set(ALPHA) | set(CASED)
for _i in range(3):
    for _c in list(_u):
        for _f in (str.upper, str.lower, str.swapcase, str.casefold, str.title):
            _u.update(map(ord, _f(chr(_c))))
UNIVERSE = CS.of(_u)


def charvar(name, dom=ALPHA):
    return var(name, dom)


def symstr(name, n, dom=ALPHA):
    """Symbolic string of length n; dom: one CS or a list of them."""
    return mk([var("%s[%d]" % (name, i), dom[i] if isinstance(dom, (list, tuple)) else dom) for i in range(n)])


_SETS = {}


def charset(key, pred):
    s = _SETS.get(key)
    if s is None:
        s = _SETS[key] = CS.of(c for c in UNIVERSE if pred(chr(c)))
    return s


def c_ch(c, cs):
    """Condition: character (code or Term) in CS of UNIVERSE (native codes outside
    the universe must be handled by the caller)."""
    return c_in(c, cs)


# ---------------------------------------------------------------- conditions
def eq_cond(a, b):
    """Condition that two strings are equal."""
    if a is b or a == b:
        return True
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x == y:
            continue
        c = c_eq(code(x), code(y))
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return c_and(out)


def lt_cond(a, b):
    """Lexicographic order."""
    n = min(len(a), len(b))
    res = len(a) < len(b)
    for i in reversed(range(n)):
        x, y = code(a[i]), code(b[i])
        e = c_eq(x, y)
        l = c_lt(x, y)
        res = c_or([l, c_and([e, res])])
    return res


def sub_eq(s, i, t):
    """Condition: s[i:i+len(t)] == t."""
    if i < 0 or i + len(t) > len(s):
        return False
    return eq_cond(s[i:i + len(t)], t)


# ------------------------------------------------------------------ str methods
class Fallback(Exception):
    """The operation is not interpreted: the caller concretises."""


def _slice(s, args):
    n = len(s)
    st = args[0] if len(args) > 0 and args[0] is not None else 0
    en = args[1] if len(args) > 1 and args[1] is not None else n
    st, en, _ = slice(st, en).indices(n)
    return st, en


def find(s, t, *rng):
    st, en = _slice(s, rng)
    if rng and rng[0] is not None and rng[0] > len(s):
        return -1
    ix = [i for i in range(st, en - len(t) + 1)]
    conds = [sub_eq(s, i, t) for i in ix]
    k = choose(conds + [True])
    return ix[k] if k < len(ix) else -1


def rfind(s, t, *rng):
    st, en = _slice(s, rng)
    if rng and rng[0] is not None and rng[0] > len(s):
        return -1
    ix = [i for i in range(en - len(t), st - 1, -1)]
    conds = [sub_eq(s, i, t) for i in ix]
    k = choose(conds + [True])
    return ix[k] if k < len(ix) else -1


def index(s, t, *rng):
    i = find(s, t, *rng)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(s, t, *rng):
    i = rfind(s, t, *rng)
    if i < 0:
        raise ValueError("substring not found")
    return i


def contains(s, t):
    if not isinstance(t, str):
        raise TypeError("'in <string>' requires string as left operand, not " + type(t).__name__)
    return find(s, t) >= 0


def count(s, t, *rng):
    st, en = _slice(s, rng)
    if not t:
        return en - st + 1
    n = 0
    i = st
    while True:
        i = find(s, t, i, en)
        if i < 0:
            return n
        n += 1
        i += len(t)


def startswith(s, p, *rng):
    st, en = _slice(s, rng)
    if rng and rng[0] is not None and rng[0] > len(s):
        return False
    ps = p if isinstance(p, tuple) else (p,)
    for x in ps:
        if not isinstance(x, str):
            raise TypeError("startswith first arg must be str or a tuple of str, not " + type(x).__name__)
    return decide(c_or([sub_eq(s, st, x) if st + len(x) <= en else False for x in ps]))


def endswith(s, p, *rng):
    st, en = _slice(s, rng)
    ps = p if isinstance(p, tuple) else (p,)
    for x in ps:
        if not isinstance(x, str):
            raise TypeError("endswith first arg must be str or a tuple of str, not " + type(x).__name__)
    return decide(c_or([sub_eq(s, en - len(x), x) if en - len(x) >= st else False for x in ps]))


def replace(s, old, new, count=-1):
    if count is None or count < 0:
        count = 1 << 30
    out = []
    i = 0
    n = 0
    if not old:
        if count == 0:
            return s
        for k, c in enumerate(s):
            out.append(new if n < count else "")
            n += 1
            out.append(c)
        if n < count:
            out.append(new)
        return "".join(out)
    while n < count:
        j = find(s, old, i)
        if j < 0:
            break
        out.append(s[i:j])
        out.append(new)
        i = j + len(old)
        n += 1
    out.append(s[i:])
    return "".join(out)


_WS = lambda: charset("isspace", str.isspace)


def _is(c, cs):
    return decide(c_in(code(c), cs))


def split(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        maxsplit = 1 << 30
    out = []
    if sep is None:
        i, n = 0, len(s)
        while True:
            while i < n and _is(s[i], _WS()):
                i += 1
            if i >= n:
                return out
            if len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                return out
            j = i
            while j < n and not _is(s[j], _WS()):
                j += 1
            out.append(s[i:j])
            i = j
    if not sep:
        raise ValueError("empty separator")
    i = 0
    while len(out) < maxsplit:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        raise Fallback
    out = []
    e = len(s)
    while len(out) < maxsplit:
        j = rfind(s, sep, 0, e)
        if j < 0:
            break
        out.append(s[j + len(sep):e])
        e = j
    out.append(s[:e])
    return out[::-1]


def partition(s, sep):
    if not sep:
        raise ValueError("empty separator")
    i = find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep):])


def rpartition(s, sep):
    if not sep:
        raise ValueError("empty separator")
    i = rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def _strip_pred(chars):
    if chars is None:
        w = _WS()
        return lambda c: decide(c_in(code(c), w))
    cs = codes(chars)
    return lambda c: decide(c_or([c_eq(code(c), x) for x in cs]))


def lstrip(s, chars=None):
    p = _strip_pred(chars)
    i = 0
    while i < len(s) and p(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    p = _strip_pred(chars)
    i = len(s)
    while i > 0 and p(s[i - 1]):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


def removesuffix(s, p):
    return s[:len(s) - len(p)] if p and endswith(s, p) else s


_LINE = lambda: charset("linebreak", lambda c: len(("a" + c + "b").splitlines()) > 1)


def splitlines(s, keepends=False):
    out = []
    i = 0
    n = len(s)
    start = 0
    while i < n:
        if _is(s[i], _LINE()):
            j = i + 1
            if j < n and decide(c_and([c_eq(code(s[i]), 13), c_eq(code(s[j]), 10)])):
                j += 1
            out.append(s[start:j] if keepends else s[start:i])
            start = i = j
        else:
            i += 1
    if start < n:
        out.append(s[start:])
    return out


_CASE = {}


def _case_table(name):
    t = _CASE.get(name)
    if t is None:
        f = getattr(str, name)
        offs = {}
        multi = set()
        for c in UNIVERSE:
            r = f(chr(c))
            if len(r) != 1:
                multi.add(c)
            else:
                offs.setdefault(ord(r) - c, set()).add(c)
        t = _CASE[name] = ({k: CS.of(v) for k, v in offs.items()}, CS.of(multi))
    return t


def _case(name):
    f = getattr(str, name)

    def op(s):
        offs, multi = _case_table(name)
        if name == "lower" and any(ord(c) in (0x3A3,) for c in s):
            raise Fallback
        out = []
        for c in s:
            t = code(c)
            if type(t) is int:
                out.append(f(c))
                continue
            t = pin(t)
            if type(t) is int:
                out.append(f(chr(t)))
                continue
            if decide(c_in(t, multi)):
                t = fix(t)
                out.append(f(chr(t)))
                continue
            out.append(ch(map_term(t, offs)))
        return "".join(out)
    return op


def domset(t):
    """Over-approximation of the values of a character term on this path."""
    if type(t) is int:
        return CS(((t, t),))
    if type(t) is Var:
        return curdom(t)
    if type(t) is Mapped:
        return t.image()
    lo, hi = bounds(t)
    return CS(((max(lo, 0), hi),))


def map_term(t, offs):
    """Apply a piecewise offset function {offset: CS} to a term."""
    d = domset(t)
    pieces = [(d & s, o) for o, s in offs.items() if (d & s).r]
    if len(pieces) == 1 and pieces[0][1] == 0:
        return t
    if type(t) not in (Var, Mapped):
        t2 = fix(t)
        for s, o in pieces:
            if t2 in s:
                return t2 + o
        return t2
    # pieces over the whole base domain so that the term does not depend on the path
    base = t
    full = tuple(sorted(((s, o) for o, s in offs.items()), key=lambda p: p[1]))
    if type(base) is Var:
        full = tuple((s & base.dom, o) for s, o in full if (s & base.dom).r)
    return mapped(base, full)


def pin(t):
    """The value of a term when the path fixes it."""
    if type(t) is int:
        return t
    if type(t) is Var:
        r = curdom(t).r
        return r[0][0] if len(r) == 1 and r[0][0] == r[0][1] else t
    if type(t) is Mapped and type(t.base) is Var:
        b = pin(t.base)
        if type(b) is int:
            for s, o in t.pieces:
                if b in s:
                    return b + o
    return t


def fix(t, cap=400):
    """Fork over all values of a term."""
    t = pin(t)
    if type(t) is int:
        return t
    d = list(domset(t))
    if len(d) > cap:
        raise Fallback
    return d[choose([c_eq(t, x) for x in d])]


def _all(name, empty=False):
    f = getattr(str, name)

    def op(s):
        if not s:
            return empty
        cs = charset(name, f)
        out = []
        for c in s:
            t = code(c)
            out.append(f(c) if type(t) is int else c_in(t, cs))
        return decide(c_and(out))
    return op


def isidentifier(s):
    if not s:
        return False
    a = charset("idstart", str.isidentifier)
    b = charset("idcont", lambda c: ("a" + c).isidentifier())
    out = []
    for i, c in enumerate(s):
        t = code(c)
        out.append(c_in(t, b if i else a) if type(t) is not int else (("a" + c) if i else c).isidentifier())
    return decide(c_and(out))


def _cased(which):
    def op(s):
        up = charset("up1", lambda c: c.isupper() or c.istitle())
        lo = charset("lo1", str.islower)
        tcs = codes(s)
        bad, good = (lo, up) if which == "isupper" else (up, lo)
        return decide(c_and([c_not(c_or([c_in(t, bad) for t in tcs])), c_or([c_in(t, good) for t in tcs])]))
    return op


def translate(s, table):
    out = []
    keys = [k for k in table] if hasattr(table, "keys") else None
    if keys is None:
        raise Fallback
    for c in s:
        t = code(c)
        k = choose([c_eq(t, x) for x in keys] + [True])
        if k == len(keys):
            out.append(c)
            continue
        v = table[keys[k]]
        out.append("" if v is None else chr(v) if isinstance(v, int) else v)
    return "".join(out)


_DEC = []


def digit_table():
    if not _DEC:
        offs = {}
        for c in UNIVERSE:
            d = unicodedata.decimal(chr(c), None)
            if d is not None:
                offs.setdefault(d - c, set()).add(c)
        _DEC.append(({k: CS.of(v) for k, v in offs.items()}, CS.of(c for v in offs.values() for c in v)))
    return _DEC[0]


def parse_int(s, base=10):
    """int(str): an int or a Term."""
    if base != 10:
        raise Fallback
    if s in FMT:
        return FMT[s]
    offs, dec = digit_table()
    if s and decide(c_and([c_in(t, dec) if type(t) is not int else chr(t).isdecimal() for t in codes(s)])):
        val = 0
        ts = []
        k = 1
        for c in reversed(s):
            t = pin(code(c))
            if type(t) is int:
                val += k * unicodedata.decimal(chr(t))
            else:
                if (domset(t) - CS.rng((48, 57))).r:
                    t = map_term(t, offs)
                else:
                    t = lin(-48, [(1, t)])
                ts.append((k, t))
            k *= 10
        return lin(val, ts)
    # not all digits: whitespace, signs, underscores ... are rare; decide the common
    # failure precisely and leave the rest to concretisation.
    ok = charset("intch", lambda c: c.isspace() or c in "+-_" or c.isdecimal())
    if not s or decide(c_or([c_not(c_in(t, ok)) if type(t) is not int else not (chr(t).isspace() or chr(t) in "+-_" or chr(t).isdecimal()) for t in codes(s)])):
        raise ValueError("invalid literal for int() with base 10: %r" % "?")
    raise Fallback


def fmt_int(t):
    """str(int) of a term: native string with symbolic digits."""
    if type(t) is int:
        return str(t)
    if decide(c_lt(t, 0)):
        return "-" + fmt_int(lin(0, [(-1, t)]))
    lo, hi = bounds(t)
    n = len(str(max(hi, 0)))
    k = choose([c_lt(t, 10 ** j) for j in range(1, n)] + [True]) + 1
    out = []
    for j in reversed(range(k)):
        q = divmod_term(t, 10 ** j, False) if j else t
        d = divmod_term(q, 10, True) if j < k - 1 else q
        d = lin(48, [(1, d)])
        out.append(ch(intern_term(d)))
    r = "".join(out)
    if sym(r):
        FMT[r] = t
    return r


FMT = {}       # text of an integer term -> the term
_DM = {}
_INT = {}


def divmod_term(t, k, mod):
    if type(t) is int:
        return t % k if mod else t // k
    key = (id(t), k, mod)
    r = _DM.get(key)
    if r is None:
        r = _DM[key] = (t, DivMod(t, k, mod))
    return r[1]


def intern_term(t):
    if type(t) is int or type(t) in (Var, Mapped):
        return t
    if hasattr(t, "ts"):
        key = (t.c, tuple((k, id(x)) for k, x in t.ts))
        r = _INT.get(key)
        if r is None:
            r = _INT[key] = t
            _INT[("keep", key)] = t.ts
        return r
    return t


METHODS = {
    "find": find, "rfind": rfind, "index": index, "rindex": rindex, "count": count,
    "startswith": startswith, "endswith": endswith, "replace": replace, "split": split, "rsplit": rsplit,
    "partition": partition, "rpartition": rpartition, "strip": strip, "lstrip": lstrip, "rstrip": rstrip,
    "removeprefix": removeprefix, "removesuffix": removesuffix, "splitlines": splitlines,
    "upper": _case("upper"), "lower": _case("lower"), "casefold": _case("casefold"), "swapcase": _case("swapcase"),
    "isdigit": _all("isdigit"), "isdecimal": _all("isdecimal"), "isnumeric": _all("isnumeric"),
    "isalpha": _all("isalpha"), "isalnum": _all("isalnum"), "isspace": _all("isspace"),
    "isascii": _all("isascii", True), "isprintable": _all("isprintable", True),
    "isidentifier": isidentifier, "isupper": _cased("isupper"), "islower": _cased("islower"),
    "translate": translate, "__contains__": contains,
}
# Methods that only move characters: CPython's own implementation is exact.
MOVE = {"join", "__add__", "__mul__", "__rmul__", "__getitem__", "__len__", "__iter__", "zfill_", "ljust", "rjust",
        "center", "__str__", "__getnewargs__", "__sizeof__", "__reduce__", "__init__", "__new__"}


def conc(s, m):
    """Value of a symbolic string under a model."""
    if not sym(s):
        return s
    return "".join(chr(t if type(t) is int else t.ev(m)) for t in codes(s))
