"""Building symbolic inputs, running the library on them, and judging the
outcome.  The same code runs symbolically (exploration), under a fixed model
(rebuilding a counterexample) and on concrete data (replay)."""
import collections
import collections.abc
import types
from .core import CS, CTX, Model, PathEnd, var, c_in, c_eq, c_and, c_or, c_not, c_lt, choose, decide, lin
from . import core, strs, rt, spec, values
from .strs import sym, code, ch, symstr, ALPHA, LATIN, ASCII
from .values import StrSub, SymVal, SymInt, SymBytes, Obj, sint, term, conc, mkbytes, TUPLES, ALLK, SCALARS, ntype, kinds_cs
from .spec import Bad, INIT, FAMILY

__symex__ = True

WORDD = CS.of([ord(c) for c in "_aAbBzZ09sS"] + [0xE9, 0x3B1, 0xFF15])
DOMS = {
    "full": ALPHA,
    "latin": LATIN,
    "ascii": ASCII,
    "mark": CS.of(map(ord, ":?%$@()\"'s_aA09 \t\n\r-/*\\{}[.^|+") ) | CS.of([0xE9, 0xFF15]),
    # letters with unusual case relations (several letters in one case, or one-way)
    "cased": CS.of(list(map(ord, "aAsSiI\xdf\xb5\xe9\xc9\xff")) + strs.CASED),
    "few": CS.of(map(ord, ":?%$@()s\"a1 ")),
    "digit": CS.rng((48, 57)),
    "udigit": CS.rng((48, 57), (0x660, 0x669), (0xFF10, 0xFF19)),
    "letter": CS.rng((65, 90), (97, 122)),
    "word": WORDD,
    "asciiword": CS.rng((48, 57), (65, 90), (95, 95), (97, 122)),
    "nonmark": ALPHA - CS.of(map(ord, ":?%$@")),
    "blank": CS.of([32, 9]),
    "nl": CS.of([10, 13, 32, 9, 0xB, 0xC, 0x85, 0x2028]),
}


class FixedCtx:
    """Follows one model: rebuilds a path's inputs outside exploration."""

    def __init__(self, model):
        self.model = model
        self.doms = {}
        self.speclog = None
        self.taints = {}
        self.path_taint = []

    def declare(self, v):
        pass

    def choose(self, conds, only_first=False, label=""):
        for i, c in enumerate(conds):
            if c is True or c is not False and c.ev(self.model):
                return i
        raise PathEnd("fixed")

    def assume(self, cond):
        if cond is True or cond is not False and cond.ev(self.model):
            return
        raise PathEnd("assume")

    def tick(self):
        pass

    def taint(self, why):
        self.path_taint.append(why)


def assume(cond):
    if cond is True:
        return
    c = CTX[0]
    if c is None:
        if cond is False:
            raise PathEnd("assume")
        return
    if cond is False:
        raise PathEnd("assume")
    c.assume(cond)


# ------------------------------------------------------------------ containers
class MapOnly(collections.abc.Mapping):
    """A read-only mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return rt.getitem(self.d, k)

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return rt.contains(k, self.d)


class SeqOnly(collections.abc.Sequence):
    """A read-only sequence that is neither list nor tuple."""

    def __init__(self, l):
        self.l = l

    def __getitem__(self, i):
        return rt.getitem(self.l, i)

    def __len__(self):
        return len(self.l)


class MissDict(dict):
    """dict with a __missing__ that must not be triggered for present keys."""

    def __missing__(self, k):
        raise KeyError(k)


def wrap(kind, x):
    """Put plain parameters into the container the job asks for."""
    if kind in (None, "plain", "dict", "list"):
        return x
    if kind == "odict":
        return collections.OrderedDict(x)
    if kind == "proxy":
        return types.MappingProxyType(x)
    if kind == "userdict":
        u = collections.UserDict()
        u.data = dict(x)
        return u
    if kind == "custom":
        return MapOnly(x) if isinstance(x, dict) else SeqOnly(x)
    if kind == "missdict":
        return MissDict(x)
    if kind == "tuple":
        return tuple(x)
    if kind == "ntuple":
        return ntype(len(x))(*x)
    if kind == "deque":
        return collections.deque(x)
    if kind == "userlist":
        return collections.UserList(x)
    raise AssertionError(kind)


class SymList:
    """A list of opaque values whose length is symbolic (index lookups with
    symbolic numbers need no case split over the positions)."""
    __symtype__ = list

    def __init__(self, name, lo, hi):
        self.name = name
        self.lo, self.hi = lo, hi
        self.items = []          # (index term, Obj)
        self._m = None

    @property
    def __class__(self):
        return list

    def length(self):
        return var(self.name + ".len", CS.rng((self.lo, self.hi)))

    def at(self, t):
        """The element at index term t (must be in range)."""
        conds = [c_eq(t, i) for i, _ in self.items]
        k = choose(conds + [True])
        if k < len(self.items):
            return self.items[k][1]
        o = Obj("%s#%d" % (self.name, len(self.items)))
        self.items.append((t, o))
        return o

    def __symget__(self, k):
        if type(k) is slice:
            return [self.__symget__(i) for i in range(*slice(rt.conc_int(k.start), rt.conc_int(k.stop), rt.conc_int(k.step)).indices(len(self)))]
        t = term(k)
        n = self.length()
        if decide(c_lt(t, 0)):
            t = lin(0, [(1, t), (1, n)])
            if decide(c_lt(t, 0)):
                raise IndexError("list index out of range")
            return self.at(t)
        if not decide(c_lt(t, n)):
            raise IndexError("list index out of range")
        return self.at(t)

    __getitem__ = __symget__

    def __len__(self):
        return rt.conc_int(SymInt(self.length()), 1000)

    def __symlen__(self):
        return SymInt(self.length())

    def __bool__(self):
        return not decide(c_eq(self.length(), 0))

    def __iter__(self):
        i = 0
        while decide(c_lt(i, self.length())):
            yield self.at(i)
            i += 1

    def __conc__(self, m):
        if self._m is not None and self._m[0] is m:
            return self._m[1]
        n = m.val(self.length())
        out = [Obj("filler%d" % i) for i in range(n)]
        for t, o in self.items:
            i = t if type(t) is int else t.ev(m)
            if 0 <= i < n:
                out[i] = o
        self._m = (m, out)
        return out


collections.abc.Sequence.register(SymList)


# ----------------------------------------------------------------------- building
def seg_dom(d):
    return DOMS[d] if isinstance(d, str) else CS.of(map(ord, d["chars"]))


def segment(name, sg):
    if isinstance(sg, str):
        return sg
    if "s" in sg:
        return symstr(name, sg["s"], seg_dom(sg.get("dom", "full")))
    if "id" in sg:
        w = seg_dom(sg.get("dom", "word"))
        return symstr(name, sg["id"], [spec.IDSTART & w] + [w] * (sg["id"] - 1))
    if "num" in sg:
        return symstr(name, sg["num"], seg_dom(sg.get("dom", "digit")))
    raise AssertionError(sg)


def build_text(job, key="sql", name="q"):
    segs = job[key]
    if isinstance(segs, int):
        segs = [{"s": segs, "dom": job.get("dom", "full")}]
    return "".join(repeated("%s%d" % (name, i), s["pump"], job["n"]) if isinstance(s, dict) and "pump" in s else segment("%s%d" % (name, i), s)
                   for i, s in enumerate(segs))


def repeated(name, segs, n):
    """n copies of a text, of which each may hold its own number."""
    ws = [s["count"] if isinstance(s, dict) and "count" in s else segment("%s_%d" % (name, j), s) for j, s in enumerate(segs)]
    return "".join(str(w + i) if type(w) is int else w for i in range(n) for w in ws)


def build_esc(job):
    e = job.get("esc")
    if isinstance(e, dict):
        s = symstr("esc", e["sym"], seg_dom(e.get("dom", "ascii")))
        return s
    return e


def build_comments(job):
    c = job.get("comments")
    if not isinstance(c, list):
        return c
    out = []
    for i, st in enumerate(c):
        if isinstance(st, dict):
            if "pair" in st:
                out.append((marker("cm%da" % i, st["pair"][0]), marker("cm%db" % i, st["pair"][1])))
            else:
                out.append(marker("cm%d" % i, st["sym"]))
        elif isinstance(st, list):
            out.append(tuple(st))
        else:
            out.append(st)
    return out


MARKD = ASCII - CS.of([9, 10, 13, 32])


def marker(name, n):
    if isinstance(n, str):
        return n
    return symstr(name, n, MARKD)


def mkval(job, name, i=0, tag0=0):
    """The i-th parameter value.  Specs: a kind-set name, "tup:a-b" (a plain
    object or a tuple of that size), "T:a-b" (a tuple), "TT:a-b" (any tuple kind)."""
    kinds = job.get("vals", "obj")
    if isinstance(kinds, list):
        kinds = kinds[min(i, len(kinds) - 1)]
    if kinds == "obj":
        kinds = "notuple"
    if kinds == "hostile":
        return (Hostile, HostileSeq)[i % 2](name)
    if kinds == "inner":
        return [[Obj(name), [1]], {"k": Obj(name + "k")}, (Obj(name + "t"), [2])][i % 3]
    lo, hi = 0, 2
    if ":" in kinds:
        kinds, _, r = kinds.partition(":")
        lo, _, hi = r.partition("-")
        lo, hi = int(lo), int(hi or lo)
    ks = KINDSETS.get(kinds) or tuple(kinds.split(","))
    return SymVal(name, ks, maxlen=hi, minlen=lo, depth=1, elem_kinds=job.get("elems"), ntags=job.get("tags", 1), tag0=tag0)


class Hostile:
    """A value that may only be passed on (as array libraries have them, say)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name

    def _no(self, *args):
        raise NotImplementedError("a value was looked into")
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __str__ = __format__ = __bytes__ = _no
    __int__ = __float__ = __index__ = __copy__ = __deepcopy__ = __reduce__ = __add__ = __mod__ = __or__ = _no


class HostileSeq(Hostile):
    __len__ = __iter__ = __contains__ = __getitem__ = __setitem__ = __call__ = Hostile._no


def anyval(name):
    """A value nothing should depend on: of any kind."""
    return SymVal(name, ALLK, maxlen=2, depth=1, ntags=1)


def nth(x, r):
    return x[r % len(x)] if isinstance(x, (list, tuple)) else x


KINDSETS = {
    "all": ALLK, "scalar": SCALARS, "tup": tuple(k for k in ALLK if k not in ("ntuple", "tsub")), "T": ("tuple",), "TT": TUPLES,
    "mix": ("obj", "none", "list", "str", "tuple", "ntuple"),
    "falsy": ("none", "false", "int0", "str0", "list0", "dict0", "tuple"),
    "notuple": tuple(k for k in ALLK if k not in TUPLES),
}


def link_shape(a, b):
    """Assume two values have the same shape: both tuples of one size or neither."""
    if type(a) is not SymVal:
        return
    assume(c_or([c_and([a.is_tuple(), b.is_tuple()]), c_and([c_not(a.is_tuple()), c_not(b.is_tuple())])]))
    if a.minlen != a.maxlen or b.minlen != b.maxlen:
        assume(c_or([c_not(a.is_tuple()), c_eq(a.n(), b.n())]))


class Slots:
    """Distinct parameters of a query, in first-seen order."""

    def __init__(self):
        self.keys = []
        self.of = []         # per placeholder: index into keys


def slots_named(toks):
    sl = Slots()
    for t in toks:
        for i, k in enumerate(sl.keys):
            if decide(strs.eq_cond(k, t.name)):
                sl.of.append(i)
                break
        else:
            sl.of.append(len(sl.keys))
            sl.keys.append(t.name)
    return sl


def slots_num(toks):
    sl = Slots()
    for t in toks:
        for i, k in enumerate(sl.keys):
            if decide(c_eq(k, t.num)):
                sl.of.append(i)
                break
        else:
            sl.of.append(len(sl.keys))
            sl.keys.append(t.num)
    return sl


def slots_ord(toks):
    sl = Slots()
    for i, t in enumerate(toks):
        sl.keys.append(i)
        sl.of.append(i)
    return sl


def slots_oracle(toks):
    """Distinct in-parameters: the upper-cased or the quoted name."""
    sl = Slots()
    for t in toks:
        nm = t.name if t.quoted else spec.upper(t.name)
        for i, k in enumerate(sl.keys):
            if decide(strs.eq_cond(k, nm)):
                sl.of.append(i)
                break
        else:
            sl.of.append(len(sl.keys))
            sl.keys.append(nm)
    return sl


MISSING = "<missing>"


def build_query(job, cfg, key="sql", name="q"):
    """The query and its placeholders: (text, parts)."""
    text = build_text(job, key, name)
    if job.get("bytes"):
        assume(c_and([c_in(code(c), LATIN) for c in text]))
    st = cfg["comments"]
    seen = spec.strip_comments(text, spec.DEFAULT if st is True else st or ())
    toks = spec.lex(cfg["in"], seen, spec.escape_of(cfg["in"], cfg["esc"]))
    parts = spec.parts_of(cfg["in"], cfg["out"], toks)
    return text, parts


def case_key(name, tag, job):
    """A mapping key for an oracle parameter: forms chosen by the solver."""
    forms = job.get("keyforms", ["exact", "upper", "lower", "quoted"])
    k = choose_var(tag + ".form", len(forms))
    f = forms[k]
    if f == "exact":
        return name
    if f == "upper":
        return spec.upper(name)
    if f == "lower":
        return strs.METHODS["lower"](name) if sym(name) else name.lower()
    if f == "swap":
        return strs.METHODS["swapcase"](name) if sym(name) else name.swapcase()
    if f == "quoted":
        return '"' + name + '"'
    if f == "quoteup":
        return '"' + spec.upper(name) + '"'
    raise AssertionError(f)


def choose_var(name, n):
    """A solver-chosen number in range(n), forked."""
    if n == 1:
        return 0
    v = var(name, CS.rng((0, n - 1)))
    return choose([c_eq(v, i) for i in range(n)])


def config(job):
    return {"in": job["in"], "out": job["out"], "esc": build_esc(job), "expand": job.get("expand"),
            "comments": build_comments(job), "quotes": job.get("quotes")}


def build(job):
    """Inputs of a format/formatmany call with what the properties expect."""
    cfg = config(job)
    check_cfg(job, cfg)
    text, parts = build_query(job, cfg, name="q" + job.get("_q", ""))
    toks = [p[1] for p in parts if p[0] == "par"]
    if len(toks) > job.get("maxpar", 999):
        raise PathEnd("cut")
    if len(toks) < job.get("minpar", 0):
        raise PathEnd("cut")
    fam = FAMILY[cfg["in"]]
    rows = job.get("rows", 0)
    nrow = max(rows, 1)
    miss = job.get("missing")
    inp = {"cfg": cfg, "sql": text, "many": rows, "bytes": bool(job.get("bytes"))}
    rowvals = []
    params = []
    listed = fam == "numeric" and job.get("numparams", "symlist") in ("symlist", "list")
    if fam == "named" and cfg["in"] != "named_oracle":
        sl = slots_named(toks)
    elif fam == "named":
        sl = slots_oracle(toks)
    elif fam == "numeric":
        sl = slots_num(toks)
    else:
        sl = slots_ord(toks)
    nk = len(sl.keys)
    missing = set()
    if miss is not None:
        if nk == 0:
            raise PathEnd("cut")
        missing.add(choose_var("miss%d" % nk, nk))
    # later rows may lack one too
    missrow = choose_var("missrow", nrow) if miss is not None and nrow > 1 else 0
    # one later row of another shape than the others
    dev = 1 + choose_var("dev", nrow - 1) if "devvals" in job else 0
    plain = job
    for r in range(nrow):
        job = dict(plain, vals=plain["devvals"], same_shape=False) if r and r == dev else plain
        vals = []
        for i in range(nk):
            v = mkval(job, "v%s%d_%d" % (job.get("_p", ""), r, i), i, job.get("tag0", 0))
            if r and job.get("same_shape", True) and not listed:
                link_shape(rowvals[0][i], v)
            vals.append(v)
        gone = missing if r == missrow else set()
        if job.get("alias") and nk > 1:
            # two parameters holding the very same value
            vals[1] = vals[0]
        if fam == "named" and cfg["in"] == "named_oracle":
            p = build_oracle(job, sl, toks, vals, gone, r)
        elif fam == "named":
            p = build_named(job, sl, vals, gone, r)
        elif fam == "numeric":
            p, vals = build_numeric(job, sl, vals, gone, r, params[0] if params else None)
        else:
            p, vals = build_ordinal(job, sl, vals, gone, r)
        rowvals.append([MISSING if i in gone or v is MISSING else v for i, v in enumerate(vals)])
        params.append(p)
    inp["params"] = params
    inp["slots"] = [[rowvals[r][i] for i in sl.of] for r in range(nrow)]
    inp["of"] = list(sl.of)
    inp["parts"] = [("lit", p[1]) if p[0] == "lit" else ("par",) for p in parts]
    ex = spec.expands(cfg["out"], cfg["expand"])
    shapes = []
    for r in range(nrow):
        sh = []
        for v in rowvals[r]:
            if ex and v is not MISSING and spec.is_tuple(v):
                sh.append(len(v))
            else:
                sh.append(None)
        shapes.append([sh[i] for i in sl.of])
    inp["shapes"] = shapes
    return inp


def check_cfg(job, cfg):
    """Preconditions on symbolic configuration (documented in DESIGN.md)."""
    e = cfg["esc"]
    if isinstance(e, str) and sym(e):
        if INIT[cfg["out"]] == "%" and INIT[cfg["in"]] != "%":
            assume(c_and([c_not(c_eq(code(c), 37)) for c in e]))


def build_named(job, sl, vals, gone, r):
    d = {}
    order = list(range(len(sl.keys)))
    if job.get("reverse"):
        order.reverse()
    extras = []
    for j, n in enumerate(list(job.get("extra", ())) + ["zz_%d" % j for j in range(nth(job.get("surplus", 0), r))]):
        k = symstr("x%d" % j, n, DOMS["word"]) if isinstance(n, int) else n
        for u in sl.keys:
            assume(c_not(strs.eq_cond(u, k)))
        for k2, _ in extras:
            assume(c_not(strs.eq_cond(k2, k)))
        extras.append((k, anyval("extra%s%d_%d" % (job.get("_p", ""), r, j))))
    for k, o in extras[::2]:
        d[k] = o
    for i in order:
        if i not in gone:
            d[keysub(job, sl.keys[i])] = vals[i]
    for k, o in extras[1::2]:
        d[k] = o
    return d


def build_oracle(job, sl, toks, vals, gone, r):
    d = {}
    order = list(range(len(sl.keys)))
    if job.get("reverse"):
        order.reverse()
    keys = []
    for i in order:
        # the name as some placeholder writes it
        t = next(t for t, o in zip(toks, sl.of) if o == i)
        k = case_key(t.name, "key%s%d" % ("r%d_" % r if r and job.get("rowforms") else "", i), job)
        keys.append((i, k))
    for j, n in enumerate(list(job.get("extra", ())) + ["zz_%d" % j for j in range(nth(job.get("surplus", 0), r))]):
        if isinstance(n, dict):
            k = '"' + symstr("x%d" % j, n["quoted"], DOMS["word"]) + '"'
        else:
            k = symstr("x%d" % j, n, DOMS["word"]) if isinstance(n, int) else n
        keys.append((-1 - j, k))
    # exactly one key for each distinct parameter; the others match nothing
    for a in range(len(keys)):
        for b in range(a):
            assume(c_not(strs.eq_cond(keys[a][1], keys[b][1])))
    for i, k in keys:
        for n, t in enumerate(toks):
            m = spec.oracle_matches(t, k)
            assume(m if sl.of[n] == i else c_not(m))
    for i, k in keys:
        if i in gone:
            continue
        d[keysub(job, k)] = vals[i] if i >= 0 else anyval("extra%s%d_%d" % (job.get("_p", ""), r, -i))
    return d


class IntSub(int):
    pass


def keysub(job, k):
    """The key, or an equal one of a subclass."""
    if job.get("keysub"):
        if type(k) is str and not sym(k):
            return StrSub(k)
        if type(k) is int:
            return IntSub(k)
    return k


def build_numeric(job, sl, vals, gone, r, first=None):
    pt = job.get("numparams", "symlist")
    if pt == "symlist":
        # a list of symbolic length; elements are looked up by number
        s = SymList("seq%s%d" % (job.get("_p", ""), r), 0, job.get("maxnum", 120))
        out = []
        for n in sl.keys:
            i = lin(-1, [(1, n)])
            if decide(c_and([c_not(c_lt(i, 0)), c_lt(i, s.length())])):
                out.append(s.at(i))
            else:
                out.append(MISSING)
        return s, out
    if pt == "list":
        # a concrete-length list of values; numbers beyond it are missing
        size = (job["sizes"][r] if "sizes" in job else job.get("size", 4)) + nth(job.get("surplus", 0), r)
        l = [mkval(job, "n%s%d_%d" % (job.get("_p", ""), r, j), j, job.get("tag0", 0)) for j in range(size)]
        if first is None:
            first = l
        elif job.get("same_shape", True):
            for a, b in zip(first, l):
                link_shape(a, b)
        out = []
        for n in sl.keys:
            k = choose([c_eq(n, j + 1) for j in range(size)] + [True])
            out.append(l[k] if k < size else MISSING)
        return l, out
    # mapping keyed by the integer or its digits
    d = {}
    for i, n in enumerate(sl.keys):
        if i in gone:
            continue
        f = choose_var("kf%d" % i, 2) if pt == "map" else {"mapint": 0, "mapstr": 1}[pt]
        nn = sint(n)
        k = nn if f == 0 else strs.fmt_int(n)
        d[keysub(job, k)] = vals[i]
    for j, k in enumerate(job.get("extra", ())):
        if isinstance(k, dict):       # a symbolic integer key nobody uses
            t = var("xk%d" % j, CS.rng((0, k["int"])))
            for n in sl.keys:
                assume(c_not(c_eq(t, n)))
            k = sint(t)
        d[k] = anyval("extra%s%d_%d" % (job.get("_p", ""), r, j))
    return d, vals


def build_ordinal(job, sl, vals, gone, r):
    n = len(sl.keys)
    surplus = nth(job.get("surplus", 0), r)
    pt = job.get("ordparams", "list")
    if pt == "list":
        cut = min(gone) if gone else n
        l = list(vals[:cut])
        if not gone:
            l += [anyval("s%s%d_%d" % (job.get("_p", ""), r, j)) for j in range(surplus)]
        return l, [v if i < cut else MISSING for i, v in enumerate(vals)]
    d = {}
    for i in range(n):
        if i in gone:
            continue
        f = choose_var("kf%d" % i, 2) if pt == "map" else {"mapint": 0, "mapstr": 1}[pt]
        d[keysub(job, i if f == 0 else str(i))] = vals[i]
    for j in range(surplus):
        d[n + j] = anyval("extra%s%d_%d" % (job.get("_p", ""), r, j))
    for k in job.get("extra", ()):
        d[k] = anyval("extra-%s%d%s" % (job.get("_p", ""), r, k))
    return d, vals


# ------------------------------------------------------------------------ running
def make(lib, cfg):
    kw = {}
    if cfg.get("esc") is not None:
        kw["escape_char"] = cfg["esc"]
    if cfg.get("expand") is not None:
        kw["expand_tuples"] = cfg["expand"]
    if cfg.get("comments") is not None:
        kw["strip_comments"] = cfg["comments"]
    if cfg.get("quotes") is not None:
        kw["allow_out_quotes"] = cfg["quotes"]
    return lib.SQLParams(cfg["in"], cfg["out"], **kw)


def guarded(fn, *a, **k):
    """Outcome of a call: ("ok", value) or ("exc", name, is-lookup-error)."""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__, isinstance(e, LookupError))


def run(lib, inp, job):
    cfg = inp["cfg"]
    sql = inp["sql"]
    if inp["bytes"]:
        sql = mkbytes(sql)
    ps = [wrap(job.get("ptype"), p) for p in inp["params"]]

    def go():
        conv = make(lib, cfg)
        if inp["many"]:
            return conv.formatmany(sql, rows_iter(job.get("rowiter"), ps))
        return conv.format(sql, ps[0])
    return guarded(go)


def rows_iter(kind, ps):
    if kind == "gen":
        return (p for p in ps)
    if kind == "iter":
        return iter(ps)
    if kind == "tuple":
        return tuple(ps)
    if kind == "fresh":
        # rows that nobody else keeps: where one was, the next but one may be
        return ({**p} if type(p) is dict else [*p] if type(p) is list else type(p)(p) for p in ps)
    return list(ps)


# ------------------------------------------------------------------------- oracles
def slot_parts(inp, r=0):
    out = []
    it = iter(zip(inp["slots"][r], inp["shapes"][r]))
    for p in inp["parts"]:
        if p[0] == "lit":
            out.append(p)
        else:
            v, sh = next(it)
            out.append(("slot", v, None if sh is None else list(v)))
    return out


def missing(inp):
    return any(v == MISSING if type(v) is str else False for row in inp["slots"] for v in row)


def judge(inp, out, job, values=True, numbering=True):
    """The full oracle for a single conversion: None or a reason."""
    if missing(inp):
        if out[0] == "ok":
            return "a parameter is missing but the call returned %s" % (brief(out[1]),)
        if not out[2]:
            return "a parameter is missing: %s is not a lookup error" % out[1]
        return None
    if out[0] != "ok":
        return "raised %s" % out[1]
    try:
        sql, params = out[1]
    except (TypeError, ValueError):
        return "the result is not a pair"
    if inp["bytes"] != isinstance(sql, bytes) or not isinstance(sql, (str, bytes)):
        return "the query came back as %s" % type(sql).__name__
    text = spec.text_of(sql)
    try:
        if not inp["many"]:
            res = spec.align(inp["cfg"]["out"], slot_parts(inp), text, params, check_values=values)
            if numbering:
                extra(inp, res, params, job)
        else:
            if type(params) is not list or len(params) != inp["many"]:
                return "%s parameter sets for %d rows" % (len(params) if isinstance(params, list) else "?", inp["many"])
            for r in range(inp["many"]):
                res = spec.align(inp["cfg"]["out"], slot_parts(inp, r), text, params[r], check_values=values)
                if numbering:
                    extra(inp, res, params[r], job)
    except Bad as e:
        return str(e)
    return None


def judge_text(inp, out, job):
    """Only the text of the query (placeholders of any name/number)."""
    if missing(inp):
        return None
    if out[0] != "ok":
        return "raised %s" % out[1]
    text = spec.text_of(out[1][0])
    try:
        spec.align(inp["cfg"]["out"], slot_parts(inp), text, out[1][1] if not inp["many"] else out[1][1][0],
                   check_values=False, check_used=False)
    except Bad as e:
        return str(e)
    return None


def extra(inp, res, params, job):
    """Numbering (C08) and naming (C14) of the output."""
    out = inp["cfg"]["out"]
    fam = FAMILY[out]
    infam = FAMILY[inp["cfg"]["in"]]
    if fam == "numeric":
        nxt = 1
        first = {}
        for k, g in enumerate(res):
            p = inp["of"][k]
            if infam != "ordinal" and p in first:
                if first[p] != g:
                    raise Bad("parameter %d is numbered %r and %r" % (p, first[p], g))
                continue
            first[p] = g
            for n in g:
                if n != nxt:
                    raise Bad("number %d where %d is next" % (n, nxt))
                nxt += 1
        if len(params) != nxt - 1:
            raise Bad("%d numbers but %d values" % (nxt - 1, len(params)))
    elif fam == "named":
        q = bool(inp["cfg"]["quotes"]) and out == "named_oracle"
        owner = {}
        for k, g in enumerate(res):
            p = inp["of"][k]
            for j, name in enumerate(g):
                if q:
                    if not (len(name) > 2 and name[0] == '"' and name[-1] == '"'):
                        raise Bad("name %s is not quoted" % name)
                    bare = name[1:-1]
                else:
                    bare = name
                e = spec.ident_end(bare, 0)
                if e != len(bare):
                    raise Bad("name %s is not an identifier" % name)
                key = (p, j, len(g) if inp["shapes"][0][k] is not None else None)
                for n2, o2 in owner.items():
                    if n2 == name and o2 != key:
                        raise Bad("name %s used for two parameters" % name)
                owner[name] = key


def brief(x):
    return repr(x)[:120]


# ------------------------------------------------------------------ output compare
def same_out(a, b):
    """Is the real outcome b the (concretised) symbolic outcome a?"""
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1] == b[1]
    return _eqv(a[1], b[1])


def _eqv(x, y):
    if x is y:
        return True
    if type(x) is Obj or type(y) is Obj:
        return type(x) is type(y) and x.tag == y.tag
    if isinstance(x, Hostile) or isinstance(y, Hostile):
        return type(x) is type(y) and x.name == y.name
    if type(x) is not type(y):
        return isinstance(x, (tuple, list)) and isinstance(y, type(x)) and len(x) == len(y) and all(map(_eqv, x, y))
    if isinstance(x, dict):
        return len(x) == len(y) and list(x) == list(y) and all(_eqv(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(_eqv, x, y))
    return x == y


# ------------------------------------------------------- relations between outcomes
def text_eq(a, b):
    """Equality of two query texts or keys (symbolic or not)."""
    if isinstance(a, bytes) != isinstance(b, bytes) or isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, bytes):
        return decide(strs.eq_cond(values.latin(a), values.latin(b)))
    if isinstance(a, str):
        return decide(strs.eq_cond(a, b))
    return a == b


def params_eq(a, b):
    """Equal parameter sets: the same keys bound to the very same objects."""
    if type(a) is not type(b) or len(a) != len(b):
        return False
    if isinstance(a, dict):
        for k, v in a.items():
            f = rt.find_key(b, k)
            if f is rt._MISS or b[f] is not v:
                return False
        return True
    return all(x is y for x, y in zip(a, b))


def result_diff(x, y, many=False):
    """None, or how two outcomes of the same call differ."""
    if x[0] != y[0]:
        return "%s / %s" % (brief(x), brief(y))
    if x[0] == "exc":
        return None if x[1] == y[1] else "raised %s / %s" % (x[1], y[1])
    (s1, p1), (s2, p2) = x[1], y[1]
    if not text_eq(s1, s2):
        return "queries %s / %s" % (brief(s1), brief(s2))
    if many:
        if type(p1) is not list or type(p2) is not list or len(p1) != len(p2):
            return "parameter sets %s / %s" % (brief(p1), brief(p2))
        ok = all(params_eq(a, b) for a, b in zip(p1, p2))
    else:
        ok = params_eq(p1, p2)
    return None if ok else "parameters %s / %s" % (brief(p1), brief(p2))
