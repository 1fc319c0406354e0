"""Reference semantics, written from the property statements (no regular
expressions, nothing imported from the library).  Works on symbolic strings
(every decision forks the exploration) and on native ones (replay)."""
from .core import CS, c_in, c_eq, c_and, c_or, c_not, c_lt, choose, decide, lin, CTX
from . import strs
from .strs import code, codes, sym, ch, charset, eq_cond, sub_eq
from .values import SymInt, SymVal, SymBytes, Obj, sint, term, TUPLES

__symex__ = True

INIT = {"format": "%", "named": ":", "named_dollar": "$", "named_oracle": ":", "named_sqlserver": "@", "numeric": ":",
        "numeric_dollar": "$", "pyformat": "%", "qmark": "?"}
FAMILY = {"format": "ordinal", "named": "named", "named_dollar": "named", "named_oracle": "named",
          "named_sqlserver": "named", "numeric": "numeric", "numeric_dollar": "numeric", "pyformat": "named",
          "qmark": "ordinal"}
STYLES = list(INIT)
NAMED = [s for s in STYLES if FAMILY[s] == "named"]
NUMERIC = [s for s in STYLES if FAMILY[s] == "numeric"]
ORDINAL = [s for s in STYLES if FAMILY[s] == "ordinal"]

IDSTART = CS.rng((65, 90), (95, 95), (97, 122))
BLANK = CS.of([9, 32])


def WORD():
    return charset("word", lambda c: c == "_" or c.isalnum())


def DIGIT():
    return charset("decimal", str.isdecimal)


def is_in(s, i, cs):
    return 0 <= i < len(s) and decide(c_in(code(s[i]), cs))


def is_at(s, i, t):
    return decide(sub_eq(s, i, t))


class Tok:
    """A placeholder: kind, text identifying the parameter, quoted?"""
    __slots__ = ("start", "end", "name", "quoted", "num")

    def __init__(self, start, end, name=None, quoted=False, num=None):
        self.start, self.end, self.name, self.quoted, self.num = start, end, name, quoted, num

    def __repr__(self):
        return "Tok(%r,%r,%r)" % (self.name, self.quoted, self.num)


def ident_end(s, i):
    """End of the longest identifier at i, or None."""
    if not is_in(s, i, IDSTART):
        return None
    j = i + 1
    w = WORD()
    while is_in(s, j, w):
        j += 1
    return j


def placeholder(style, s, i):
    """Placeholder starting exactly at i, or None."""
    init = INIT[style]
    if not is_at(s, i, init):
        return None
    if i > 0 and is_at(s, i - 1, init):
        return None
    if style == "qmark":
        if i + 1 < len(s) and is_at(s, i + 1, "?"):
            return None
        return Tok(i, i + 1)
    if style == "format":
        return Tok(i, i + 2) if is_at(s, i + 1, "s") else None
    if style == "pyformat":
        if not is_at(s, i + 1, "("):
            return None
        j = ident_end(s, i + 2)
        if j is None or not is_at(s, j, ")s"):
            return None
        return Tok(i, j + 2, s[i + 2:j])
    if FAMILY[style] == "numeric":
        j = i + 1
        while is_in(s, j, DIGIT()):
            j += 1
        if j == i + 1:
            return None
        return Tok(i, j, s[i + 1:j], num=strs.parse_int(s[i + 1:j]))
    if style == "named_oracle" and i + 1 < len(s) and is_at(s, i + 1, '"'):
        j = ident_end(s, i + 2)
        if j is None or not is_at(s, j, '"'):
            return None
        return Tok(i, j + 1, s[i + 2:j], quoted=True)
    j = ident_end(s, i + 1)
    return None if j is None else Tok(i, j, s[i + 1:j])


def lex(style, s, esc=None):
    """Tokens of a query: ("lit", char) / ("esc", char) / ("par", Tok)."""
    out = []
    i = 0
    init = INIT[style]
    n = len(s)
    while i < n:
        if esc and is_at(s, i, esc + init):
            out.append(("esc", init))
            i += len(esc) + 1
            continue
        p = placeholder(style, s, i)
        if p is not None:
            out.append(("par", p))
            i = p.end
            continue
        out.append(("lit", s[i]))
        i += 1
    return out


def escape_of(style, esc):
    if esc is True:
        return INIT[style]
    return esc or None


def parts_of(in_style, out_style, toks, esc=None):
    """Expected output as ("lit", text) and ("par", Tok) parts."""
    pin, pout = INIT[in_style] == "%", INIT[out_style] == "%"
    out = []

    def lit(t):
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + t)
        else:
            out.append(("lit", t))
    for k, v in toks:
        if k == "par":
            out.append((k, v))
        elif k == "esc":
            lit("%%" if pin and pout else v)
        else:
            if pout and not pin and is_at(v, 0, "%"):
                lit("%%")
            else:
                lit(v)
    return out


# ---------------------------------------------------------------------- comments
def strip_comments(s, styles):
    for st in styles or ():
        s = strip_one(s, st)
    return s


DEFAULT = (("/*", "*/"), "--")


def eol(s, i):
    while i < len(s) and not is_at(s, i, "\n"):
        i += 1
    return i


def strip_one(s, style):
    out = []
    i = 0                      # always at a line start
    n = len(s)
    while i < n:
        j = i
        while is_in(s, j, BLANK):
            j += 1
        if isinstance(style, str):
            if is_at(s, j, style):
                e = eol(s, j + len(style))
                i = min(e + 1, n)
                continue
        else:
            st, en = style
            if is_at(s, j, st):
                k = j + len(st)
                while k <= n - len(en) and not is_at(s, k, en):
                    k += 1
                if k <= n - len(en):
                    k += len(en)
                    if k < n and is_at(s, k, "\n"):
                        i = k + 1
                        continue
                    if k + 1 < n and is_at(s, k, "\r\n"):
                        i = k + 2
                        continue
                    # the rest of this line follows the comment
                    e = eol(s, k)
                    e = min(e + 1, n)
                    out.append(s[k:e])
                    i = e
                    continue
        e = min(eol(s, j) + 1, n)
        out.append(s[i:e])
        i = e
    return "".join(out)


# ------------------------------------------------------------------------ oracle
def upper(s):
    return strs.METHODS["upper"](s) if sym(s) else s.upper()


def oracle_matches(tok, key):
    """Condition: does a mapping key name this placeholder (C13)?"""
    n = len(key)
    quoted = n > 1 and decide(c_and([c_eq(code(key[0]), 34), c_eq(code(key[-1]), 34)]))
    want = tok.name if tok.quoted else upper(tok.name)
    have = key[1:-1] if quoted else upper(key)
    return eq_cond(want, have)


# --------------------------------------------------------------------- alignment
PRE = {"format": "%s", "named": ":", "named_dollar": "$", "named_oracle": ":", "named_sqlserver": "@", "numeric": ":",
       "numeric_dollar": "$", "pyformat": "%(", "qmark": "?"}
SUF = {"pyformat": ")s"}


class Bad(Exception):
    """The output is not what the property demands."""


def text_of(x):
    """The query text of an output (latin-1 for bytes)."""
    if type(x) is SymBytes:
        return x.s
    if isinstance(x, bytes):
        return x.decode("latin1")
    return x


def align(out_style, parts, sql, params, check_values=True, check_used=True):
    """Match the output query against the expected parts, resolving every output
    placeholder through the returned parameters.  parts: ("lit", text) or
    ("slot", value, expand) where expand is None (plain), or a list of element
    values.  Returns per slot the list of placeholders (name | number | position)
    or raises Bad."""
    fam = FAMILY[out_style]
    if type(params) is not (dict if fam == "named" else list):
        raise Bad("returned parameters are a %s" % type(params).__name__)
    steps = []
    for p in parts:
        if p[0] == "lit":
            steps.append(("t", p[1]))
        elif p[2] is None:
            steps.append(("p", p[1]))
        elif len(p[2]) == 0:
            steps.append(("t", "(NULL)"))
            steps.append(("e", None))
        else:
            steps.append(("b", None))
            for k, v in enumerate(p[2]):
                steps.append(("t", "(" if k == 0 else ","))
                steps.append(("p", v))
            steps.append(("t", ")"))
            steps.append(("x", None))
    keys = sorted(params, key=lambda k: -len(k)) if fam == "named" else None
    pre, suf = PRE[out_style], SUF.get(out_style, "")
    slots = []
    for p in parts:
        if p[0] == "slot":
            slots.append([])
    why = []

    def go(i, pos, used):
        while i < len(steps):
            k, v = steps[i]
            if k == "t":
                if not is_at(sql, pos, v):
                    why.append("text at %d: expected %s" % (pos, v))
                    return None
                pos += len(v)
                i += 1
                continue
            if k in "bxe":
                used = used + ((k, None),)
                i += 1
                continue
            break
        if i == len(steps):
            if pos != len(sql):
                why.append("surplus text at %d" % pos)
                return None
            return used
        v = steps[i][1]
        if fam == "ordinal":
            if not is_at(sql, pos, pre):
                why.append("no placeholder at %d" % pos)
                return None
            n = sum(1 for u in used if u[0] == "p")
            if check_values and (n >= len(params) or not same(params[n], v)):
                why.append("placeholder %d is bound to another value" % (n + 1))
                return None
            return go(i + 1, pos + len(pre), used + (("p", n),))
        if not is_at(sql, pos, pre):
            why.append("no placeholder at %d" % pos)
            return None
        q = pos + len(pre)
        if fam == "numeric":
            e = q
            while e < len(sql) and "0" <= sql[e] <= "9":
                e += 1
            hi = e
            while e > q:
                n = int(sql[q:e])
                if not (sql[q] == "0"):
                    if 1 <= n <= len(params) and (not check_values or same(params[n - 1], v)):
                        r = go(i + 1, e, used + (("p", n),))
                        if r is not None:
                            return r
                    elif e == hi:
                        why.append("placeholder %d is bound to another value" % n)
                e -= 1
            return None
        for k in keys:
            if not isinstance(k, str):
                why.append("a key is not a string")
                return None
            t = k + suf
            if q + len(t) > len(sql):
                continue
            c = sub_eq(sql, q, t)
            if c is False or not decide(c):
                continue
            if check_values and not same(params[k], v):
                why.append("placeholder %s is bound to another value" % k)
                continue
            r = go(i + 1, q + len(t), used + (("p", k),))
            if r is not None:
                return r
        why.append("no usable named placeholder at %d" % pos)
        return None

    used = go(0, 0, ())
    if used is None:
        raise Bad(why[-1] if why else "output does not match")
    # regroup per slot
    it = iter(used)
    res = []
    for p in parts:
        if p[0] != "slot":
            continue
        if p[2] is None:
            res.append([next(it)[1]])
        else:
            u = next(it)
            if u[0] == "e":
                res.append([])
            else:
                g = []
                for u in it:
                    if u[0] == "x":
                        break
                    g.append(u[1])
                res.append(g)
    if check_used:
        flat = [x for g in res for x in g]
        if fam == "ordinal":
            if len(flat) != len(params):
                raise Bad("%d placeholders but %d parameters" % (len(flat), len(params)))
        elif fam == "numeric":
            if set(flat) != set(range(1, len(params) + 1)):
                raise Bad("numbers %r with %d parameters" % (flat, len(params)))
        else:
            unused = [k for k in params if not any(k is x or k == x for x in flat)]
            if unused:
                raise Bad("unused keys %r" % (unused,))
    return res


def same(a, b):
    """The same object (symbolic values are compared by identity)."""
    if a is b:
        return True
    return False


# ---------------------------------------------------------------------- configs
def expands(out_style, expand):
    return (FAMILY[out_style] != "named") if expand is None else bool(expand)


def is_tuple(v):
    if type(v) is SymVal:
        return decide(v.is_tuple())
    return isinstance(v, tuple)


def tuple_items(v):
    return list(v)
