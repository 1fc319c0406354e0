"""Symbolic interpretation of CPython's regular expressions.

A compiled pattern is parsed with CPython's own parser (`re._parser`); the parse
tree is executed over a string of symbolic characters and yields the possible
matches in the engine's priority order, each with the condition under which the
engine reaches it.  The first whose condition holds is the match.
"""
import re
from re import _constants as K
from re import _parser
from .core import CS, EMPTY, c_in, c_eq, c_and, c_or, c_not, choose, decide, CTX, curdom
from . import strs, work
from .strs import UNIVERSE, code, codes, sym, BASE, ESCB, TERMS, Fallback

__symex__ = True
CAP = 20000


class Explosion(Exception):
    pass


_SETS = {}
_CATS = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S",
         K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}


def _txtset(txt, flags):
    key = (txt, flags & (re.I | re.A | re.S))
    r = _SETS.get(key)
    if r is None:
        p = re.compile(txt, key[1])
        r = _SETS[key] = (CS.of(c for c in UNIVERSE if p.fullmatch(chr(c))), p)
    return r


def _esc(c):
    return "\\" + chr(c) if chr(c) in r"\^-[]" or chr(c) in "&~|" else chr(c) if c > 127 or chr(c).isalnum() or c < 32 else "\\" + chr(c)


def _intext(items):
    s = ""
    for op, av in items:
        if op is K.NEGATE:
            s += "^"
        elif op is K.LITERAL:
            s += _esc(av)
        elif op is K.RANGE:
            s += _esc(av[0]) + "-" + _esc(av[1])
        elif op is K.CATEGORY:
            s += _CATS[av]
        else:
            raise Fallback
    return "[" + s + "]"


def _single(op, av, flags):
    """Matcher of one character: ("t", term) | ("n", term) | ("s", CS, pattern)."""
    if op is K.LITERAL or op is K.NOT_LITERAL:
        if av >= BASE:
            if flags & re.I:
                raise Fallback
            t = TERMS[av - ESCB if av >= ESCB else av - BASE]
            return ("t" if op is K.LITERAL else "n", t)
        txt = _esc(av)
        return ("s",) + _txtset(txt if op is K.LITERAL else "[^" + txt + "]", flags)
    if op is K.ANY:
        return ("s",) + _txtset(".", flags)
    if op is K.IN:
        if any((o is K.LITERAL and a >= BASE) or (o is K.RANGE and a[1] >= BASE > a[0] and a[1] < 0x10FFFF) for o, a in av):
            # a class with symbolic members
            neg = any(o is K.NEGATE for o, a in av)
            syms = [TERMS[a - ESCB if a >= ESCB else a - BASE] for o, a in av if o is K.LITERAL and a >= BASE]
            rest = [(o, a) for o, a in av if not (o is K.LITERAL and a >= BASE) and o is not K.NEGATE]
            if flags & re.I:
                raise Fallback
            return ("m", neg, syms, _single(K.IN, rest, flags) if rest else None)
        return ("s",) + _txtset(_intext(av), flags)
    return None


def settled(c):
    """While every step is counted, a condition is decided before the next."""
    if work.EXACT[0] and c is not True and c is not False:
        return decide(c)
    return c


def _test(sg, t):
    k = sg[0]
    if k == "s":
        if type(t) is int:
            return t in sg[1] or (t not in UNIVERSE and bool(sg[2].fullmatch(chr(t))))
        return c_in(t, sg[1])
    if k == "t":
        return c_eq(t, sg[1])
    if k == "n":
        return c_not(c_eq(t, sg[1]))
    _, neg, syms, rest = sg
    c = c_or([c_eq(t, x) for x in syms] + ([_test(rest, t)] if rest else []))
    return c_not(c) if neg else c


# ------------------------------------------------------------------ compilation
_PARSED = {}


class Node:
    __slots__ = ("op", "a", "b", "c", "w")

    def __init__(self, op, a=None, b=None, c=None):
        self.op, self.a, self.b, self.c = op, a, b, c


def _comp(items, flags):
    out = []
    for op, av in items:
        s = _single(op, av, flags)
        if s is not None:
            out.append(Node("one", s))
        elif op is K.BRANCH:
            out.append(Node("alt", [_comp(x, flags) for x in av[1]]))
        elif op is K.SUBPATTERN:
            g, add, dele, p = av
            out.append(Node("grp", g, _comp(p, (flags | add) & ~dele)))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, p = av
            body = _comp(p, flags)
            n = Node("rep", (int(lo), int(hi) if hi is not K.MAXREPEAT else 1 << 30), body,
                     "max" if op is K.MAX_REPEAT else "min" if op is K.MIN_REPEAT else "poss")
            out.append(n)
        elif op is K.ATOMIC_GROUP:
            out.append(Node("atomic", _comp(av, flags)))
        elif op is K.GROUPREF:
            if flags & re.I:
                raise Fallback
            out.append(Node("ref", av))
        elif op is K.GROUPREF_EXISTS:
            out.append(Node("cond", av[0], _comp(av[1], flags), _comp(av[2], flags) if av[2] else []))
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            w = 0
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Fallback
                w = lo
            out.append(Node("look", (op is K.ASSERT, d, w), _comp(p, flags)))
        elif op is K.AT:
            if av is K.AT_BEGINNING and flags & re.M:
                av = K.AT_BEGINNING_LINE
            if av is K.AT_END and flags & re.M:
                av = K.AT_END_LINE
            out.append(Node("at", av, flags))
        elif op is K.FAILURE:
            out.append(Node("fail"))
        else:
            raise Fallback
    return out


def parsed(pattern):
    key = (pattern.pattern, pattern.flags)
    r = _PARSED.get(key)
    if r is None:
        if not isinstance(pattern.pattern, str):
            raise Fallback
        tree = _parser.parse(pattern.pattern, pattern.flags & ~re.U if pattern.flags & re.A else pattern.flags)
        r = _PARSED[key] = (_comp(tree, pattern.flags), tree.state.groups, dict(tree.state.groupdict))
    return r


# -------------------------------------------------------------------- execution
class Run:
    def __init__(self, s, lo, hi):
        self.s = s
        self.t = codes(s)
        self.lo = lo         # searches do not see before 0 anyway: pos only limits the start
        self.n = hi
        self.count = 0

    def eq(self, i, j, n):
        return settled(c_and([c_eq(self.t[i + k], self.t[j + k]) for k in range(n)]))

    def m(self, nodes, k, pos, groups, g):
        """Yield (pos, groups, guard) in priority order."""
        # fast run over single characters
        t, n = self.t, self.n
        work.charge(1)
        while k < len(nodes):
            nd = nodes[k]
            work.W[0] += 1
            if nd.op == "one":
                if pos >= n:
                    return
                c = settled(_test(nd.a, t[pos]))
                if c is False:
                    return
                if c is not True:
                    g = c_and([g, c])
                    if g is False:
                        return
                pos += 1
                k += 1
                continue
            if nd.op == "at":
                c = settled(self.at(nd.a, nd.b, pos))
                if c is False:
                    return
                if c is not True:
                    g = c_and([g, c])
                    if g is False:
                        return
                k += 1
                continue
            break
        if k == len(nodes):
            self.count += 1
            if self.count > CAP and not work.METER[0]:
                raise Explosion
            yield pos, groups, g
            return
        nd = nodes[k]
        op = nd.op
        if op == "grp":
            for p2, gr2, g2 in self.m(nd.b, 0, pos, groups, g):
                if nd.a is not None:
                    gr2 = dict(gr2)
                    gr2[nd.a] = (pos, p2)
                    gr2["last"] = nd.a
                yield from self.m(nodes, k + 1, p2, gr2, g2)
        elif op == "alt":
            for alt in nd.a:
                for p2, gr2, g2 in self.m(alt, 0, pos, groups, g):
                    yield from self.m(nodes, k + 1, p2, gr2, g2)
        elif op == "rep":
            lo, hi = nd.a
            if nd.c == "poss":
                yield from self.atomic(lambda gg: self.rep(nd.b, lo, hi, "max", pos, groups, gg), nodes, k, g)
                return
            for p2, gr2, g2 in self.rep(nd.b, lo, hi, nd.c, pos, groups, g):
                yield from self.m(nodes, k + 1, p2, gr2, g2)
        elif op == "atomic":
            yield from self.atomic(lambda gg: self.m(nd.a, 0, pos, groups, gg), nodes, k, g)
        elif op == "look":
            pos_look, d, w = nd.a
            start = pos if d > 0 else pos - w
            if start < 0:
                alts = []
            else:
                alts = list(self.m(nd.b, 0, start, groups, True))
                if d < 0:
                    alts = [a for a in alts if a[0] == pos]
            if pos_look:
                neg = []
                for _, gr2, gd in alts:
                    g2 = c_and([g, gd] + neg)
                    if g2 is not False:
                        yield from self.m(nodes, k + 1, pos, gr2, g2)
                    if gd is True:
                        break
                    neg.append(c_not(gd))
            else:
                g2 = c_and([g, c_not(c_or([a[2] for a in alts]))])
                if g2 is not False:
                    yield from self.m(nodes, k + 1, pos, groups, g2)
        elif op == "ref":
            sp = groups.get(nd.a)
            if sp is None:
                return
            ln = sp[1] - sp[0]
            if pos + ln > n:
                return
            c = self.eq(sp[0], pos, ln)
            g2 = c_and([g, c])
            if g2 is not False:
                yield from self.m(nodes, k + 1, pos + ln, groups, g2)
        elif op == "cond":
            body = nd.b if groups.get(nd.a) is not None else nd.c
            for p2, gr2, g2 in self.m(body, 0, pos, groups, g):
                yield from self.m(nodes, k + 1, p2, gr2, g2)
        elif op == "fail":
            return
        else:
            raise Fallback

    def atomic(self, gen, nodes, k, g):
        neg = []
        for p2, gr2, gd in gen(True):
            g2 = c_and([g, gd] + neg)
            if g2 is not False:
                yield from self.m(nodes, k + 1, p2, gr2, g2)
            if gd is True:
                break
            neg.append(c_not(gd))

    def rep(self, body, lo, hi, mode, pos, groups, g):
        if len(body) == 1 and body[0].op == "one":
            yield from self.rep1(body[0].a, lo, hi, mode, pos, groups, g)
            return
        yield from self.repn(body, lo, hi, mode, pos, groups, g, 0, -1)

    def rep1(self, sg, lo, hi, mode, pos, groups, g):
        if mode == "min":
            p = pos
            while True:
                if p - pos >= lo:
                    yield p, groups, g
                if p >= self.n or p - pos >= hi:
                    return
                work.W[0] += 1
                c = settled(_test(sg, self.t[p]))
                if c is False:
                    return
                if c is not True:
                    g = c_and([g, c])
                    if g is False:
                        return
                p += 1
        guards = [g]
        p = pos
        while p < self.n and p - pos < hi:
            work.W[0] += 1
            c = settled(_test(sg, self.t[p]))
            if c is False:
                break
            g = c_and([g, c]) if c is not True else g
            if g is False:
                break
            guards.append(g)
            p += 1
        idx = range(lo, len(guards))
        if mode == "max":
            idx = reversed(idx)
        for i in idx:
            yield pos + i, groups, guards[i]

    def repn(self, body, lo, hi, mode, pos, groups, g, cnt, lastpos):
        def more():
            if cnt < hi and (cnt < lo or pos != lastpos):
                for p2, gr2, g2 in self.m(body, 0, pos, groups, g):
                    yield from self.repn(body, lo, hi, mode, p2, gr2, g2, cnt + 1, pos if cnt >= lo else -1)
        if cnt < lo:
            yield from more()
        elif mode == "max":
            yield from more()
            yield pos, groups, g
        else:
            yield pos, groups, g
            yield from more()

    def at(self, av, flags, pos):
        t, n = self.t, self.n
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return pos == 0
        if av is K.AT_BEGINNING_LINE:
            return True if pos == 0 else c_eq(t[pos - 1], 10)
        if av is K.AT_END_STRING:
            return pos == n
        if av is K.AT_END:
            return True if pos == n else (c_eq(t[pos], 10) if pos == n - 1 else False)
        if av is K.AT_END_LINE:
            return True if pos == n else c_eq(t[pos], 10)
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = ("s",) + _txtset(r"\w", flags)
            if n == 0:
                return False
            a = _test(w, t[pos - 1]) if pos > 0 else False
            b = _test(w, t[pos]) if pos < n else False
            same = c_or([c_and([a, b]), c_and([c_not(a), c_not(b)])])
            return c_not(same) if av is K.AT_BOUNDARY else same
        raise Fallback


class SymMatch:
    """re.Match over a symbolic string; spans are concrete."""

    def __init__(self, pattern, s, pos, endpos, start, end, groups, ngroups, names):
        self.re = pattern
        self.string = s
        self.pos = pos
        self.endpos = endpos
        self._sp = {k: v for k, v in groups.items() if k != "last"}
        self._sp[0] = (start, end)
        self._n = ngroups
        self._names = names
        self.lastindex = groups.get("last")
        self.lastgroup = None
        for k, v in names.items():
            if v == self.lastindex:
                self.lastgroup = k

    @property
    def __class__(self):
        return re.Match

    def _g(self, k):
        if type(k) is str:
            if k not in self._names:
                raise IndexError("no such group")
            k = self._names[k]
        if not 0 <= k < self._n:
            raise IndexError("no such group")
        return k

    def span(self, g=0):
        return self._sp.get(self._g(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _grp(self, k, default=None):
        sp = self._sp.get(self._g(k))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._grp(0)
        if len(gs) == 1:
            return self._grp(gs[0])
        return tuple(self._grp(g) for g in gs)

    def __getitem__(self, g):
        return self._grp(g)

    def groups(self, default=None):
        return tuple(self._grp(i, default) for i in range(1, self._n))

    def groupdict(self, default=None):
        return {k: self._grp(v, default) for k, v in self._names.items()}

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self._n))

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True


def expand(m, template):
    if sym(template):
        # a backslash among symbolic characters would be a template escape
        if decide(c_or([c_eq(t, 92) for t in codes(template)])):
            raise Fallback
        return template
    parts = _parser.parse_template(template, m.re)
    return "".join(p if isinstance(p, str) else (m._grp(p) or "") for p in parts)


def match_at(pattern, s, start, endpos, pos0, mode, forbid_empty=False):
    """Symbolic match at exactly `start`: SymMatch or None."""
    nodes, ng, names = parsed(pattern)
    run = Run(s, 0, endpos)
    alts = []
    conds = []
    seen = set()
    for p2, gr, g in run.m(nodes, 0, start, {}, True):
        if mode == "full" and p2 != endpos:
            continue
        if forbid_empty and p2 == start:
            continue
        alts.append((p2, gr))
        conds.append(g)
        if g is True:
            break
    if not alts:
        return None
    k = choose(conds + [True])
    if k >= len(alts):
        return None
    p2, gr = alts[k]
    return SymMatch(pattern, s, pos0, endpos, start, p2, gr, ng, names)


def _bounds(s, pos, endpos):
    n = len(s)
    pos = max(0, min(pos, n))
    endpos = max(0, min(endpos, n))
    return pos, endpos


def match(pattern, s, pos=0, endpos=1 << 60):
    pos, endpos = _bounds(s, pos, endpos)
    if pos > endpos:
        return None
    return match_at(pattern, s, pos, endpos, pos, "match")


def fullmatch(pattern, s, pos=0, endpos=1 << 60):
    pos, endpos = _bounds(s, pos, endpos)
    if pos > endpos:
        return None
    return match_at(pattern, s, pos, endpos, pos, "full")


def search(pattern, s, pos=0, endpos=1 << 60):
    pos, endpos = _bounds(s, pos, endpos)
    for i in range(pos, endpos + 1):
        m = match_at(pattern, s, i, endpos, pos, "match")
        if m is not None:
            return m
    return None


def finditer(pattern, s, pos=0, endpos=1 << 60):
    pos0, endpos = _bounds(s, pos, endpos)
    i = pos0
    adv = False
    while i <= endpos:
        m = None
        for j in range(i, endpos + 1):
            m = match_at(pattern, s, j, endpos, pos0, "match", forbid_empty=adv and j == i)
            if m is not None:
                break
        if m is None:
            return
        yield m
        i = m.end()
        adv = m.end() == m.start()


def _one(m):
    if m._n == 1:
        return m.group()
    if m._n == 2:
        return m._grp(1, "")
    return m.groups("")


def findall(pattern, s, pos=0, endpos=1 << 60):
    return [_one(m) for m in finditer(pattern, s, pos, endpos)]


def subn(pattern, repl, s, count=0):
    from . import rt
    out = []
    last = 0
    n = 0
    callable_ = callable(repl)
    literal = None
    if not callable_ and not sym(repl) and "\\" not in repl:
        literal = repl
    for m in finditer(pattern, s):
        out.append(s[last:m.start()])
        if literal is not None:
            out.append(literal)
        elif callable_:
            r = rt.call(repl, m)
            if r is not None:
                if not isinstance(r, str):
                    raise TypeError("sequence item 1: expected str instance, %s found" % type(r).__name__)
                out.append(r)
        else:
            out.append(expand(m, repl))
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.append(s[last:])
    return "".join(out), n


def sub(pattern, repl, s, count=0):
    return subn(pattern, repl, s, count)[0]


def split(pattern, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pattern, s):
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
        if maxsplit and n >= maxsplit:
            break
    out.append(s[last:])
    return out


OPS = {"match": match, "fullmatch": fullmatch, "search": search, "finditer": finditer, "findall": findall, "sub": sub,
       "subn": subn, "split": split}


# ---------------------------------------------------- symbolic text in patterns
SPECIAL = CS.of(ord(c) for c in "()[]{}?*+-|^$\\.&~# \t\n\r\v\f")


def escape(s):
    """re.escape of a symbolic string: symbolic characters become "escaped" ones
    (they denote themselves in a pattern)."""
    out = []
    for c in s:
        o = ord(c)
        if BASE <= o < ESCB:
            out.append(chr(o - BASE + ESCB))
        else:
            out.append(re.escape(c))
    return "".join(out)


def compile_(pattern, flags=0):
    """re.compile of a pattern holding symbolic characters."""
    if any(BASE <= ord(c) < ESCB for c in pattern):
        out = []
        for c in pattern:
            o = ord(c)
            if BASE <= o < ESCB:
                t = TERMS[o - BASE]
                if decide(c_in(t, SPECIAL)):
                    out.append(chr(strs.fix(t)))
                else:
                    out.append(chr(o - BASE + ESCB))
            else:
                out.append(c)
        pattern = "".join(out)
    return re.compile(pattern, flags)
