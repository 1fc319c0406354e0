"""Job templates: queries with symbolic parts, parameters, configurations."""
from .spec import STYLES, NAMED, NUMERIC, ORDINAL, FAMILY, INIT

PLAIN_NAMED = [s for s in NAMED if s != "named_oracle"]
PCT = ("format", "pyformat")
NONPCT = [s for s in STYLES if s not in PCT]


def S(n=1, dom="mark"):
    return {"s": n, "dom": dom}


def I(n=1, dom="word"):
    return {"id": n, "dom": dom}


def N(n=1, dom="digit"):
    return {"num": n, "dom": dom}


def ph(style, nm=None, num=None, quoted=False):
    """A placeholder of a style: name and number may be symbolic segments."""
    fam = FAMILY[style]
    if fam == "ordinal":
        return ["%s" if style == "format" else "?"]
    if fam == "numeric":
        return [INIT[style], str(num) if isinstance(num, int) else num]
    if style == "pyformat":
        return ["%(", nm, ")s"]
    if quoted and style == "named_oracle":
        return [':"', nm, '"']
    return [INIT[style], nm]


def seq(style, *items):
    """items: literal strings, segments, or (name, number) placeholders."""
    out = []
    for it in items:
        if isinstance(it, tuple):
            out += ph(style, *it)
        else:
            out.append(it)
    # merge adjacent literals
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def esc_seq(style, esc=True):
    return (INIT[style] if esc is True else esc) + INIT[style]


def J(label, a, b, sql, cost=1, **kw):
    d = {"label": "%s %s->%s" % (label, a, b), "in": a, "out": b, "sql": sql, "cost": cost}
    d.update(kw)
    return d


def pairs(ins=STYLES, outs=STYLES):
    return [(a, b) for a in ins for b in outs]


def numkw(a, **kw):
    """Parameter container of the in-style's family."""
    return kw


def shapes(a, b, tier):
    """Repetitions, equal values, several rows, large sizes."""
    deep = tier == "thorough"
    fam = FAMILY[a]
    out = []
    kw = {"numparams": "list", "size": 3} if fam == "numeric" else {}
    ora = {"keyforms": ["exact"]} if a == "named_oracle" else {}
    one = (I(1, {"chars": "abc"}), N(1, {"chars": "123"}))
    two = (I(1, {"chars": "ab"}), N(1, {"chars": "12"}))
    if fam != "ordinal":
        out.append(J("rep", a, b, seq(a, one, " ", one, ",", one, " ", one, "=", one, *([" ", one] if deep else [])), vals=["obj"], expand=True,
                     cost=4, **dict(kw, **ora)))
        out.append(J("reptup", a, b, seq(a, two, " ", ("c", 3), " ", two, " ", two), vals=["tup:0-2", "obj", "tup:1"], expand=True, cost=4,
                     **dict(kw, **ora)))
    # values that are equal, or empty, in different parameters; all rows alike
    out.append(J("equal", a, b, seq(a, ("a", 1), S(1, "few"), ("b", 2), " ", ("a", 1)), vals=["mix" if deep else "none,int0,str,list,tuple"], expand=True, alias=True,
                 cost=2, **dict(kw, **ora)))
    out.append(J("samekind", a, b, seq(a, ("a", 1), " ", ("b", 2), S(1, "few"), ("c", 3)), vals=["falsy", "falsy", "obj"], expand=True, cost=3, **dict(kw, **ora)))
    out.append(J("rows", a, b, seq(a, ("b", 2), S(1, "few"), ("a", 1), " ", two), rows=3, vals=["tup:1-2", "obj"], expand=True, cost=3, **dict(kw, **ora)))
    # sizes beyond a hundred
    n = 131
    items = []
    for k in range(n):
        i = (k * 37) % 113
        items += ["\n" if k % 9 == 0 else " ", ("%s_%d" % ("long_name_" * 8 if i % 40 == 7 else "n", i), i + 1)]
    big = dict(vals=["obj", "obj", "T:2", "obj", "T:130" if deep else "T:103"] + ["obj"] * 60 + ["T:1", "obj"], expand=True, elems=["obj"])
    if fam == "numeric":
        big.update(numparams="list", size=113)
    out.append(J("big", a, b, seq(a, "-- " + "x" * 900 + "\n", *(items + [S(1, "few"), "y" * 900])), cost=6, **dict(big, **ora)))
    # usual SQL around placeholders, names that look like something else
    kwd = ["a", "select", "None", "self", "_1", "s", "param", "a__0_sqlp", "i", "value", "_0", "d", "format", "A1", "_", "__", "True", "in_params", "a_0", "null"]
    ctx = ["SELECT ", " FROM t WHERE x IS ", " AND y is not ", " OR z IN ", " or w in (", ") AND v LIKE ", " and u NOT LIKE '", "' LIMIT ", " OFFSET ", " = ANY(",
           ") VALUES (", ",", ", ", ") BETWEEN ", " AND ", " SET x=", " CALL f(", ") CAST(", " AS int) x'", "' null "]
    if a == "named_oracle":
        kwd = [x for x in kwd if x not in ("A1", "null", "None", "True")] + ["p%d" % i for i in range(4)]
    items = []
    for k, (c, n) in enumerate(zip(ctx, kwd)):
        items += [c, (n, k + 1)]
    kwds = {"numparams": "list", "size": 20} if fam == "numeric" else {}
    out.append(J("words", a, b, seq(a, *(items + [" ;"])), vals=["obj", "obj", "obj", "T:2", "obj", "T:3", "obj", "T:1", "obj", "T:2", "obj", "T:0", "obj", "T:10", "obj"],
                 expand=True, elems=["obj"], cost=2, **dict(kwds, **ora)))
    if fam != "named":
        for form in ("mapstr", "mapint"):
            out.append(J("big" + form, a, b, seq(a, *sum([[" ", ("", (k * 5) % 13 + 8)] for k in range(13)], [])), vals=["obj", "T:2"] if deep else ["obj"],
                         expand=True, **({"numparams": form} if fam == "numeric" else {"ordparams": form})))
    # keys that are instances of subclasses; values that may only be passed on
    for rows in (0, 2):
        out.append(J("hostile%d" % rows, a, b, seq(a, ("a", 1), " ", ("b", 2), S(1, "few"), ("c", 3), " ", ("a", 1)), vals="hostile", expand=True, rows=rows,
                     **dict(kw, **ora)))
        out.append(J("keysub%d" % rows, a, b, seq(a, ("a", 1), " ", ("b", 12), S(1, "few"), ("c", 3), " ", ("a", 1)), vals=["tup:0-2", "obj"],
                     keysub=True, expand=True, rows=rows,
                     **dict({"numparams": "map"} if fam == "numeric" else {"ordparams": "map"} if fam == "ordinal" else {}, **ora)))
    return out


LET = "abcdefghijklmnopqrstuvwxyz"


def battery(a, b, tier, free=4, combo=True):
    """Binding scenarios for a style pair."""
    deep = tier == "thorough"
    fam = FAMILY[a]
    out = []
    # any short text
    out.append(J("free%d" % free, a, b, [S(free)], cost=6))
    if deep:
        out.append(J("free%d+esc" % (free + 1), a, b, [S(free + 1)], cost=30, esc=True))
    # names/numbers of several lengths, in any relation to each other; tuples
    tv = ["tup:0-2", "obj", "tup:1-2", "obj"]
    if fam == "named":
        ora = a == "named_oracle"
        if ora:
            out.append(J("names", a, b, seq(a, (I(1),), " ", (I(2),), S(1, "few"), (I(1),)), cost=10, vals=tv, extra=["Ab"], expand=True,
                         keyforms=["exact", "quoteup", "upper"]))
        else:
            out.append(J("names", a, b, seq(a, (I(1),), " ", (I(2),), S(1), (I(1),), ",", (I(2),)), cost=10, vals=tv, extra=[2, "Ab"], expand=True))
        out.append(J("names3", a, b, seq(a, (I(3, "asciiword"),), "=", (I(2, "asciiword"),), " ", (I(3, "asciiword"),)), cost=5,
                     vals=["obj", "tup:2"], extra=["x"], reverse=True, **({"keyforms": ["exact", "upper"]} if ora else {})))
    elif fam == "numeric":
        out.append(J("numbers", a, b, seq(a, (0, N(2)), " ", (0, N(1)), S(1), (0, N(2))), cost=10, numparams="symlist"))
        out.append(J("numbers-u", a, b, seq(a, (0, N(2, "udigit")), " ", (0, N(1, "udigit"))), cost=5, numparams="symlist"))
        out.append(J("numbers3", a, b, seq(a, (0, N(3)), " ", (0, N(3))), cost=5, numparams="symlist"))
        out.append(J("list", a, b, seq(a, (0, N(1)), ",", (0, N(2)), " ", (0, N(1))), cost=10, numparams="list", size=3, expand=True,
                     vals=["tup:0-2", "obj", "tup:2"]))
        out.append(J("map", a, b, seq(a, (0, N(1)), " ", (0, N(2))), cost=10, numparams="map", vals=["obj"],
                     extra=[{"int": 20}, "zz", "\xb2"]))
        out.append(J("maptup", a, b, seq(a, (0, N(1)), " ", (0, 12), ",", (0, N(1))), cost=10, numparams="map", vals=["tup:0-2", "obj", "tup:2"],
                     expand=True))
    else:
        out.append(J("pos", a, b, seq(a, (), S(1), (), S(1), (), " x"), cost=6, vals=["tup:0-2", "obj", "tup:1-2"], surplus=1, expand=True))
        out.append(J("posmap", a, b, seq(a, S(1), (), ",", (), " ", ()), cost=6, vals=["obj", "tup:2"], ordparams="map", extra=["zz", "\xb2"]))
    # more than ten parameters, a tuple of more than ten elements
    names = [LET[(i * 5) % 26] + ("" if i % 3 else "_%d" % (i % 2)) for i in range(12)]
    items = []
    order = [3, 0, 11, 3, 7, 1, 2, 10, 4, 5, 6, 8, 9, 0, 11]
    for k, i in enumerate(order):
        items += ["," if k % 2 else " ", (names[i], i + 1)]
    items += [" ", (I(1), N(2))] if fam != "ordinal" else [S(1), ()]
    many = dict(vals=["obj", "tup:3", "obj", "T:11", "obj", "obj", "T:1", "obj"], expand=True)
    if fam == "numeric":
        many.update(numparams="list", size=12)
    if a == "named_oracle":
        many.update(keyforms=["lower"])
    out.append(J("many", a, b, seq(a, *items), cost=8, **many))
    out += shapes(a, b, tier)
    if not combo and not deep:
        return out
    # everything at once
    segs = seq(a, "/* ", ("b", 2), " */\n5% ", esc_seq(a), "z", (I(1), N(1)), S(1), "\r\n -- ", ("a", 1), " ", "\n", S(1),
               ("a", 1), "\xe9 -- ", (I(1), N(1)), " /* */")
    kw = dict(vals=["tup:0-2", "obj"], expand=True, esc=True, comments=True)
    if fam == "numeric":
        kw.update(numparams="list", size=2)
    if a == "named_oracle":
        kw.update(keyforms=["exact", "quoteup"])
    out.append(J("combo", a, b, segs, cost=12, **kw))
    return out
