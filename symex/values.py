"""Symbolic values other than strings: integers, byte strings, and parameter
values whose kind, size and content the solver chooses."""
import collections
from .core import (CS, Term, Var, c_in, c_eq, c_lt, c_and, c_or, c_not, choose, decide, curdom, bounds, lin, var,
                   CTX, PathEnd, EMPTY, cs1)
from . import strs
from .strs import sym, code, codes, ch, mk, fmt_int, divmod_term, fix, Fallback

__symex__ = True


# ------------------------------------------------------------------- integers
def term(x):
    return x.t if type(x) is SymInt else x


def sint(t):
    return int(t) if type(t) is bool else t if type(t) is int else SymInt(t)


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __add__(self, o):
        return sint(lin(0, [(1, self.t), (1, term(o))])) if _isint(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return sint(lin(0, [(1, self.t), (-1, term(o))])) if _isint(o) else NotImplemented

    def __rsub__(self, o):
        return sint(lin(0, [(-1, self.t), (1, term(o))])) if _isint(o) else NotImplemented

    def __mul__(self, o):
        if type(o) is int:
            return sint(lin(0, [(o, self.t)]))
        return conc_int(self) * o
    __rmul__ = __mul__

    def __neg__(self):
        return sint(lin(0, [(-1, self.t)]))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return sint(divmod_term(self.t, o, False)) if type(o) is int and o > 0 else conc_int(self) // o

    def __mod__(self, o):
        return sint(divmod_term(self.t, o, True)) if type(o) is int and o > 0 else conc_int(self) % o

    def __divmod__(self, o):
        return (self // o, self % o)

    def __eq__(self, o):
        return decide(c_eq(self.t, term(o))) if _isint(o) else (conc_int(self) == o if isinstance(o, float) else NotImplemented)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return decide(c_lt(self.t, term(o)))

    def __gt__(self, o):
        return decide(c_lt(term(o), self.t))

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __bool__(self):
        return decide(c_not(c_eq(self.t, 0)))

    def __hash__(self):
        return id(self) // 16

    def __index__(self):
        return conc_int(self)
    __int__ = __index__

    def __str__(self):
        return fmt_int(self.t)
    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return fmt_int(self.t)
        return format(conc_int(self), spec)

    def bit_length(self):
        return conc_int(self).bit_length()


def _isint(o):
    return type(o) in (int, bool, SymInt)


def conc_int(x, cap=64):
    """Fork over the values of a symbolic integer (concretise when too many)."""
    if type(x) is not SymInt:
        return x
    lo, hi = bounds(x.t)
    if hi - lo < cap:
        vals = list(range(lo, hi + 1))
        return vals[choose([c_eq(x.t, v) for v in vals])]
    c = CTX[0]
    v = x.t.ev(c.model)
    c.taint("symbolic integer concretised")
    c.assume(c_eq(x.t, v))
    return v


# ----------------------------------------------------------------------- bytes
class SymBytes(bytes):
    """bytes whose latin-1 text is the symbolic string .s"""

    def __new__(cls, s):
        o = bytes.__new__(cls, b"?" * len(s))
        o.s = s
        return o

    def decode(self, encoding="utf-8", errors="strict"):
        return bytes_decode(self, encoding, errors)

    def __add__(self, o):
        return SymBytes(self.s + latin(o))

    def __radd__(self, o):
        return SymBytes(latin(o) + self.s)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.s[i])
        return sint(code(self.s[i]))

    def __iter__(self):
        return iter([sint(code(c)) for c in self.s])

    def __eq__(self, o):
        return isinstance(o, bytes) and decide(strs.eq_cond(self.s, latin(o)))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "b'%s'" % self.s


def mkbytes(s):
    return SymBytes(s) if sym(s) else s.encode("latin1")


def latin(b):
    return b.s if type(b) is SymBytes else bytes(b).decode("latin1")


_CODEC = {}


def codec_table(enc):
    import codecs
    try:
        name = codecs.lookup(enc).name
    except (LookupError, TypeError):
        return None
    t = _CODEC.get(name)
    if t is None:
        dec = {}
        ok = True
        for b in range(256):
            try:
                s = bytes([b]).decode(name)
            except (UnicodeDecodeError, UnicodeError):
                continue
            if len(s) != 1:
                ok = False
                break
            dec[b] = ord(s)
        if ok and name in ("utf-8", "utf-7", "utf-16", "utf-32", "cp932", "utf_8_sig", "utf-8-sig"):
            ok = False
        t = _CODEC[name] = dec if ok else False
    return t


def bytes_decode(b, encoding="utf-8", errors="strict"):
    """SymBytes.decode."""
    tab = codec_table(encoding)
    s = b.s
    ts = codes(s)
    if errors != "strict" or tab is None:
        raise Fallback
    if tab is False:
        if decide(c_and([c_in(t, strs.ASCII) for t in ts])) and encoding.lower().replace("_", "-").startswith(("utf-8", "utf8")):
            return s
        raise Fallback
    good = CS.of(tab)
    if not decide(c_and([c_in(t, good) for t in ts])):
        raise UnicodeDecodeError(encoding, b"?", 0, 1, "symbolic")
    offs = {}
    for k, v in tab.items():
        offs.setdefault(v - k, set()).add(k)
    offs = {o: CS.of(x) for o, x in offs.items()}
    out = []
    for c, t in zip(s, ts):
        out.append(chr(tab[t]) if type(t) is int else ch(strs.map_term(t, offs)))
    return "".join(out)


def str_encode(s, encoding="utf-8", errors="strict"):
    """str.encode of a symbolic string."""
    tab = codec_table(encoding)
    ts = codes(s)
    if tab is None:
        raise Fallback
    if tab is False:
        if decide(c_and([c_in(t, strs.ASCII) for t in ts])) and encoding.lower().replace("_", "-").startswith(("utf-8", "utf8")):
            return SymBytes(s)
        raise Fallback
    inv = {v: k for k, v in tab.items()}
    good = CS.of(inv)
    bad = c_not(c_and([c_in(t, good) for t in ts]))
    if decide(bad):
        if errors != "strict":
            raise Fallback
        raise UnicodeEncodeError(encoding, "?", 0, 1, "symbolic")
    offs = {}
    for k, v in inv.items():
        offs.setdefault(v - k, set()).add(k)
    offs = {o: CS.of(x) for o, x in offs.items()}
    out = []
    for t in ts:
        out.append(chr(inv[t]) if type(t) is int else ch(strs.map_term(t, offs)))
    return mkbytes("".join(out))


# ------------------------------------------------------------ parameter values
class Obj:
    """An opaque value, recognised by identity."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "<%s>" % (self.tag,)


class TupleSub(tuple):
    pass


class ListSub(list):
    pass


class StrSub(str):
    pass


_NT = {}


def ntype(n):
    t = _NT.get(n)
    if t is None:
        t = _NT[n] = collections.namedtuple("NT%d" % n, ["f%d" % i for i in range(n)])
    return t


# kind -> (builder of a concrete value from a tag, tuple-like?)
KINDS = collections.OrderedDict([
    ("obj", lambda t: Obj("v%s" % t)),
    ("none", lambda t: None),
    ("false", lambda t: False),
    ("true", lambda t: True),
    ("int0", lambda t: 0),
    ("int", lambda t: 1000 + t),
    ("float", lambda t: 0.5 + t),
    ("str0", lambda t: ""),
    ("str", lambda t: "val%d" % t),
    ("strsub", lambda t: StrSub("val%d" % t)),
    ("bytes", lambda t: b"val%d" % t),
    ("list0", lambda t: []),
    ("list1", lambda t: ["e%d" % t]),
    ("list", lambda t: ["e%d" % t, 2]),
    ("listsub", lambda t: ListSub([t, 2])),
    ("dict0", lambda t: {}),
    ("dict", lambda t: {"k%d" % t: 1}),
    ("set", lambda t: {t, 50}),
    ("fset", lambda t: frozenset([t, 51])),
    ("range", lambda t: range(t + 2)),
    ("tuple", None),
    ("ntuple", None),
    ("tsub", None),
])
KIND_NAMES = list(KINDS)
KIDX = {k: i for i, k in enumerate(KIND_NAMES)}
TUPLES = ("tuple", "ntuple", "tsub")
SCALARS = ("none", "false", "int0", "int", "str0", "str", "list", "dict0", "obj")
ALLK = tuple(k for k in KIND_NAMES)
_TYPES = {}


def kind_sample(k):
    s = _TYPES.get(k)
    if s is None:
        if k == "tuple":
            s = (1,)
        elif k == "ntuple":
            s = ntype(1)(1)
        elif k == "tsub":
            s = TupleSub((1,))
        else:
            s = KINDS[k](0)
        _TYPES[k] = s
    return s


def kinds_cs(names):
    return CS.of(KIDX[n] for n in names)


class SymVal:
    """Parameter value: kind (among `kinds`), tag, and for tuple kinds a length
    and elements, all chosen by the solver on demand."""
    __slots__ = ("name", "kinds", "maxlen", "minlen", "depth", "elem_kinds", "ntags", "tag0", "_kids", "_ex", "_conc", "origin")

    def __init__(self, name, kinds=ALLK, maxlen=2, minlen=0, elem_kinds=None, ntags=2, depth=1, origin=None, tag0=0):
        self.name = name
        self.kinds = kinds_cs(kinds)
        self.maxlen = maxlen
        self.minlen = minlen
        self.elem_kinds = elem_kinds
        self.ntags = ntags
        self.tag0 = tag0
        self.depth = depth
        self._kids = {}
        self._ex = {}
        self._conc = None
        self.origin = origin

    # -- solver variables
    def k(self):
        return var(self.name + ".kind", self.kinds)

    def tag(self):
        return var(self.name + ".tag", CS.rng((self.tag0, self.tag0 + self.ntags - 1)))

    def n(self):
        return var(self.name + ".len", CS.rng((self.minlen, self.maxlen)))

    def is_kind(self, names):
        s = self.kinds & kinds_cs(names)
        if not s.r:
            return False
        if s == self.kinds:
            return True
        return c_in(self.k(), s)

    def is_tuple(self):
        return self.is_kind(TUPLES)

    def length_is(self, i):
        if self.minlen == self.maxlen:
            return i == self.minlen
        return c_eq(self.n(), i)

    def elem(self, i):
        e = self._kids.get(i)
        if e is None:
            if self.elem_kinds is not None:
                ks = self.elem_kinds
            elif self.depth > 0:
                ks = SCALARS + ("tuple",)
            else:
                ks = SCALARS
            e = self._kids[i] = SymVal("%s.%d" % (self.name, i), ks, maxlen=2, ntags=self.ntags, tag0=self.tag0, depth=self.depth - 1,
                                       elem_kinds=self.elem_kinds if self.depth > 0 else None)
        return e

    def size(self):
        """Concrete length (tuple kinds), forking."""
        if self.minlen == self.maxlen:
            return self.minlen
        ns = list(range(self.minlen, self.maxlen + 1))
        return ns[choose([c_eq(self.n(), i) for i in ns])]

    def kind(self):
        ks = list(self.kinds)
        if len(ks) == 1:
            return KIND_NAMES[ks[0]]
        return KIND_NAMES[ks[choose([c_eq(self.k(), i) for i in ks])]]

    def exemplar(self, k=None):
        """A concrete value of the (forked) kind and tag; not for tuple kinds."""
        k = k or self.kind()
        t = self.tag0 + (choose([c_eq(self.tag(), self.tag0 + i) for i in range(self.ntags)]) if self.ntags > 1 else 0)
        key = (k, t)
        if key not in self._ex:
            self._ex[key] = Obj("%s.%s" % (self.name, t)) if k == "obj" else KINDS[k](t)
        return self._ex[key]

    # -- concretisation under a model (memoised per model object)
    def value(self, m):
        if self._conc is not None and self._conc[0] is m:
            return self._conc[1]
        k = KIND_NAMES[m.val(self.k())] if len(list(self.kinds)) > 1 else KIND_NAMES[list(self.kinds)[0]]
        if k in TUPLES:
            n = m.val(self.n()) if self.minlen != self.maxlen else self.minlen
            es = [self.elem(i).value(m) for i in range(n)]
            v = tuple(es) if k == "tuple" else TupleSub(es) if k == "tsub" else ntype(n)(*es)
        else:
            t = m.val(self.tag()) if self.ntags > 1 else self.tag0
            v = self._ex.get((k, t))
            if v is None:
                v = self._ex[(k, t)] = Obj("%s.%s" % (self.name, t)) if k == "obj" else KINDS[k](t)
        self._conc = (m, v)
        return v

    # -- python protocol
    @property
    def __class__(self):
        k = self.kind()
        if k == "ntuple":
            return ntype(self.size())
        return type(kind_sample(k))

    def __bool__(self):
        if decide(self.is_tuple()):
            return not decide(self.length_is(0))
        return decide(self.is_kind([k for k in KIND_NAMES if k not in TUPLES and bool(kind_sample(k))]))

    def __len__(self):
        if decide(self.is_tuple()):
            return self.size()
        return len(self.exemplar())

    def __iter__(self):
        if decide(self.is_tuple()):
            return self._iter()
        return iter(self.exemplar())

    def _iter(self):
        i = 0
        while i < self.maxlen:
            if i >= self.minlen and decide(self.length_is(i)):
                return
            yield self.elem(i)
            i += 1

    def __reversed__(self):
        if decide(self.is_tuple()):
            return iter([self.elem(i) for i in reversed(range(self.size()))])
        return reversed(self.exemplar())

    def __getitem__(self, i):
        if decide(self.is_tuple()):
            n = self.size()
            i = conc_int(i)
            if isinstance(i, slice):
                return tuple(self.elem(j) for j in range(*i.indices(n)))
            if not -n <= i < n:
                raise IndexError("tuple index out of range")
            return self.elem(i % n)
        return self.exemplar()[i]

    def __contains__(self, x):
        from . import rt
        if decide(self.is_tuple()):
            return any(rt.eq(e, x) for e in self._iter())
        return x in self.exemplar()

    def __add__(self, o):
        if decide(self.is_tuple()):
            return tuple(self) + (tuple(o) if isinstance(o, (tuple, SymVal)) else o)
        return self.exemplar() + o

    def __radd__(self, o):
        if decide(self.is_tuple()):
            return o + tuple(self)
        return o + self.exemplar()

    def __mul__(self, o):
        if decide(self.is_tuple()):
            return tuple(self) * o
        return self.exemplar() * o

    def __eq__(self, o):
        from . import rt
        return rt.eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return _plain(self) < _plain(o)

    def __gt__(self, o):
        return _plain(self) > _plain(o)

    def __hash__(self):
        return id(self) // 16

    def __str__(self):
        return vtext(self)
    __repr__ = __str__

    def __format__(self, spec):
        return vtext(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        k = self.kind()
        if k in TUPLES:
            n = self.size()
            es = [self.elem(i) for i in range(n)]
            v = tuple(es) if k == "tuple" else TupleSub(es) if k == "tsub" else ntype(n)(*es)
            return getattr(v, name)
        return getattr(self.exemplar(k), name)


class SymType:
    """type(value) of a symbolic value, undecided until something needs it."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @property
    def __class__(self):
        return type

    def pick(self):
        return self.v.__class__

    def is_(self, t):
        v = self.v
        for n, x in _NT.items():
            if x is t:
                return c_and([v.is_kind(["ntuple"]), v.length_is(n)])
        return v.is_kind([k for k in KIND_NAMES if k != "ntuple" and type(kind_sample(k)) is t])

    def sub(self, cls):
        """Condition: issubclass of cls."""
        return self.v.is_kind([k for k in KIND_NAMES if issubclass(type(kind_sample(k)), cls)])

    def __eq__(self, o):
        from . import rt
        return rt.eq(self, o)

    def __hash__(self):
        return id(self.v) // 16

    def __call__(self, *a, **k):
        return self.pick()(*a, **k)

    def __getattr__(self, name):
        return getattr(self.pick(), name)

    def __str__(self):
        return str(self.pick())

    def __repr__(self):
        return repr(self.pick())

    def __format__(self, spec):
        return format(self.pick(), spec)


def _plain(v):
    if type(v) is SymVal:
        return v.exemplar() if not decide(v.is_tuple()) else tuple(map(_plain, v))
    return v


VTEXT = []


def vtext(v):
    """The text of a value: a private character, so that a query it reaches is
    recognisably wrong."""
    for i, x in enumerate(VTEXT):
        if x is v:
            return chr(0xE000 + i)
    if len(VTEXT) > 4000:
        VTEXT.clear()
    VTEXT.append(v)
    return chr(0xE000 + len(VTEXT) - 1)


def has_vtext(s):
    return any(0xE000 <= ord(c) < 0xF000 for c in s)


# concrete value from a symbolic structure
def conc(x, m):
    t = type(x)
    if t is str:
        return strs.conc(x, m)
    if t is SymVal:
        return x.value(m)
    if t is SymType:
        return type(x.v.value(m))
    if t is SymInt:
        return x.t.ev(m)
    if t is SymBytes:
        return strs.conc(x.s, m).encode("latin1")
    if t is list:
        return [conc(e, m) for e in x]
    if t is tuple:
        return tuple(conc(e, m) for e in x)
    if t is dict:
        return {conc(k, m): conc(v, m) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[conc(e, m) for e in x])
    if isinstance(x, TupleSub):
        return TupleSub(conc(e, m) for e in x)
    if hasattr(x, "__conc__"):
        return x.__conc__(m)
    return x
