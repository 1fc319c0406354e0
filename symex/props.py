"""The properties: their jobs (bounds) and oracles."""
import array
import collections
import sys
import threading
from . import growth, harness, spec, instrument, rt, strs, values, work
from .core import CS, var, choose, decide, c_eq, c_and, c_not, c_in, c_or, PathEnd, CTX
from .engine import Prop
from .harness import (assume, choose_var, guarded, make, missing, result_diff, slot_parts, text_eq, params_eq, MISSING, wrap, rows_iter,
                      build, judge, judge_text, brief)
from .jobs import J, S, I, N, ph, seq, pairs, battery, esc_seq, PCT, NONPCT, PLAIN_NAMED
from .spec import STYLES, NAMED, NUMERIC, ORDINAL, FAMILY, INIT, Bad
from .strs import sym, eq_cond, code
from .values import StrSub, sint, SymVal, SymBytes, Obj, mkbytes, conc, KINDS, KIND_NAMES, TUPLES, ALLK

__symex__ = True

ASSUMPTIONS = [
    "Python-level semantics of str, list, dict, int and re as interpreted by symex (every path's model is also run through the real "
    "library and must agree)",
    "symbolic characters range over the alphabet strs.UNIVERSE (all of Latin-1 and sampled code points of every other kind the "
    "library could distinguish), except where a job names a smaller set",
]
KNOWN = {}
PROPS = {}


def register(cls):
    p = cls()
    PROPS[p.id] = p
    return cls


# ------------------------------------------------------------------ C01, C02, C03
class Binding(Prop):
    ins = STYLES
    outs = STYLES
    bounds = ("queries of 4 characters (thorough also 5, with escaping on) over an alphabet of markers, quotes, letters, digits, blanks and line "
              "breaks; templates with up to 4 placeholders whose names have 1-3 symbolic characters (numbers 1-3 symbolic digits) between "
              "symbolic separators; 5 placeholders in every repetition pattern; templates of 15, 20 (in common SQL phrases, with names like "
              "keywords) and 131 placeholders (113 names of up to 80 characters in a 4,000 character text, tuple of 103 elements); tuples of 0-3 and "
              "11 elements; equal and empty values in different parameters, values that fail when they are looked into; keys of str/int subclasses; 3 rows; a template combining escapes, comments, percent signs, "
              "repeats and tuples")

    def jobs(self, tier):
        js = []
        for a, b in pairs(self.ins, self.outs):
            js += battery(a, b, tier)
        return js


@register
class C01(Binding):
    id = "C01"
    ins = PLAIN_NAMED

    def jobs(self, tier):
        js = Binding.jobs(self, tier)
        for a, b in pairs(self.ins, STYLES):
            for pt in ("odict", "proxy", "userdict", "custom", "missdict"):
                js.append(J("cont-" + pt, a, b, seq(a, (I(1),), " ", (I(2),), " ", (I(1),)), ptype=pt, vals=["obj", "tup:2"], extra=["q"]))
        return js


@register
class C02(Binding):
    id = "C02"
    ins = NUMERIC

    def jobs(self, tier):
        js = Binding.jobs(self, tier)
        for a, b in pairs(self.ins, STYLES):
            for pt in ("tuple", "ntuple", "deque", "userlist", "custom"):
                js.append(J("cont-" + pt, a, b, seq(a, (0, N(1)), " ", (0, N(1))), ptype=pt, numparams="list", size=3,
                            vals=["obj", "tup:2"]))
            for pt in ("odict", "proxy", "userdict", "custom"):
                js.append(J("mcont-" + pt, a, b, seq(a, (0, N(1)), " ", (0, N(1))), ptype=pt, numparams="map", vals=["obj", "tup:2"]))
            js.append(J("mapmiss", a, b, seq(a, (0, N(1)), " ", (0, N(2))), numparams="map", missing=True, extra=["x"]))
        return js


@register
class C03(Binding):
    id = "C03"
    ins = ORDINAL

    def jobs(self, tier):
        js = Binding.jobs(self, tier)
        for a, b in pairs(self.ins, STYLES):
            for pt in ("tuple", "ntuple", "deque", "userlist", "custom"):
                js.append(J("cont-" + pt, a, b, seq(a, S(1), (), ",", (), " ", ()), ptype=pt, vals=["obj", "tup:2"], surplus=2))
            for pt in ("odict", "proxy", "userdict", "custom"):
                js.append(J("mcont-" + pt, a, b, seq(a, (), " ", (), ",", ()), ptype=pt, ordparams="map", vals=["obj", "tup:2"], surplus=1))
            js.append(J("short", a, b, seq(a, S(1), (), S(1), (), S(1), (), S(1)), missing=True, vals=["obj", "tup:2"]))
            js.append(J("mapshort", a, b, seq(a, (), S(1), (), S(1), ()), missing=True, ordparams="map", surplus=1))
        return js


# ----------------------------------------------------------------------- text
@register
class C04(Prop):
    id = "C04"
    bounds = ("9 in-styles x 7 non-percent out-styles: every query of 5 arbitrary characters (thorough 7; with formatmany 3) over the full alphabet; "
              "2 arbitrary characters before and after a placeholder, and between two; symbolic characters around a placeholder inside "
              "a 200-character text")

    def judge(self, inp, out, job):
        return judge_text(inp, out, job)

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        filler = "SELECT \"a\\b\" || '%d {0} $ \u00e9\u4e2d\U0001f600' AS x,\r\n\t[y] -- c : @ ? % $ \n FROM t /* :: */ WHERE a::int = '12:00' "
        for a, b in pairs(STYLES, NONPCT):
            js.append(J("free", a, b, [S(7 if deep else 5, "full")], cost=8))
            js.append(J("around", a, b, seq(a, S(2, "full"), (I(1), N(1)), S(2, "full")), cost=8))
            js.append(J("between", a, b, seq(a, "x", (I(1), N(1)), S(3 if deep else 2, "full"), (I(1), N(1)), S(1, "full")), cost=8))
            js.append(J("freemany", a, b, [S(3, "full")], rows=2, cost=2))
            js.append(J("aroundmany", a, b, seq(a, S(1), (I(1), N(1)), S(1), ("b", 1), S(1, "few")), rows=2, cost=3))
            js.append(J("long", a, b, seq(a, filler, S(1, "full"), (I(2, "full"), N(2, "udigit")), S(1, "full"), filler, (I(1), N(1)), "\n")))
        return js


ESCAPES = ["\\", "!!", ".", "^", "a", "[", "(", "{}", "|", "\n", "\\\\", "*", "$", "?", "@", ":", "%", "{char}", "\xe9", "s", "#", "-"]


@register
class C05(Prop):
    id = "C05"
    bounds = ("9 x 9 style pairs: escape True with every query of 5 arbitrary characters (thorough 6); 22 fixed escape strings and every escape "
              "string of 1 or 2 ASCII characters (2 characters thorough only) around escape sequences and placeholders; escape None/False/''; formatmany")
    assumptions = ["an escape string containing '%' is not combined with a percent out-style and a non-percent in-style (both rules claim the same "
                   "character; the statement does not say which wins)"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            i = INIT[a]
            js.append(J("true", a, b, [S(6 if deep else 5)], esc=True, cost=10))
            js.append(J("true-around", a, b, seq(a, S(1, "full"), i + i, S(1, "full"), (I(1), N(1)), i, S(1, "full"), (I(1), N(1))), esc=True,
                        cost=5))
            js.append(J("true-many", a, b, seq(a, S(1), i + i, S(1), (I(1), N(1)), i + i, S(1)), esc=True, rows=2, cost=5))
            for e in (None, False, ""):
                js.append(J("off%r" % e, a, b, seq(a, S(1), i, S(1), (I(1), N(1)), "\\" + i, S(1)), esc=e))
        for a in STYLES:
            i = INIT[a]
            for k, e in enumerate(ESCAPES):
                for b in (STYLES if deep else [STYLES[(k + STYLES.index(a)) % 9], STYLES[(k + STYLES.index(a) + 4) % 9]]):
                    if "%" in e and i != "%" and INIT[b] == "%":
                        continue
                    js.append(J("esc%r" % e, a, b, seq(a, S(1), e + i, S(1), (I(1), N(1)), e, (I(1), N(1)), S(1)), esc=e, cost=3))
                    js.append(J("escs%r" % e, a, b, [S(2), e[:1], S(2)], esc=e, cost=3))
            for b in STYLES:
                js.append(J("sym1", a, b, [S(1), S(1), i, S(2)], esc={"sym": 1}, cost=10))
                if deep:
                    js.append(J("sym2", a, b, [S(3), i, S(2)], esc={"sym": 2}, cost=30))
                    js.append(J("sym3", a, b, [S(3), i, S(1)], esc={"sym": 3}, cost=30))
        return js


@register
class C06(Prop):
    id = "C06"
    bounds = ("9 x 9 style pairs, escaping off/True/a backslash: every query of 5 characters (thorough 7) over an alphabet with percent signs, all "
              "markers, quotes, letters and blanks; percent signs next to placeholders, escapes, and comment text; 22 escape strings with percent out-styles")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            pct = INIT[b] == "%"
            for e in (None, True, "\\"):
                js.append(J("free-%r" % e, a, b, [S((7 if deep else 5) if pct else 4)], esc=e, cost=10 if pct else 4))
                js.append(J("near-%r" % e, a, b, seq(a, S(1), "%", S(1), (I(1), N(1)), "%", S(1), "%%"), esc=e, cost=5))
            if pct and INIT[a] != "%":
                for e in ESCAPES:
                    if "%" not in e:
                        js.append(J("esc%r" % e, a, b, [S(1), "%", S(1), INIT[a], "%"], esc=e))
            js.append(J("runs", a, b, seq(a, "%%%", S(1), "5%%", (I(1), N(1)), "%% like 'a%' ", S(1), "%(x)s%d %s"[:5]), esc=None, cost=3,
                        comments=True))
            js.append(J("many", a, b, seq(a, S(2), "%", (I(1), N(1)), S(1), "%"), esc=None, rows=2, cost=3))
            js.append(J("bytes", a, b, seq(a, "%", S(2, "latin"), (I(1), N(1)), "%"), bytes=True, cost=3))
        return js


# --------------------------------------------------------------------- expansion
@register
class C07(Prop):
    id = "C07"
    bounds = ("9 x 9 style pairs, expansion on/off/default: values of 23 kinds (scalars, strings, lists, sets, mappings, tuples, named tuples, "
              "tuple subclasses) with 0-3 elements, elements of 10 kinds incl. nested tuples; tuples of 0-13 elements; up to 3 placeholders "
              "with equal or different parameters; formatmany of two rows")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = {"numparams": "list"} if a in NUMERIC else {}
            for ex in (None, True, False):
                js.append(J("kinds-%s" % ex, a, b, seq(a, "x", (I(1), 1), " y"), vals="all", maxlen=3, expand=ex, size=1, cost=3, **kw))
                js.append(J("two-%s" % ex, a, b, seq(a, "IN ", (I(1), N(1)), S(1), (I(1), N(1))), vals=["tup:0-2", "tup:0-3"], size=2,
                            expand=ex, cost=6, **kw))
            js.append(J("three", a, b, seq(a, (I(1), N(1)), ",", (I(1), N(1)), ",", (I(1), N(1))), vals=["tup:0-2", "mix" if deep else "tup:2", "TT:1-2"], size=3,
                        expand=True, cost=8, **kw))
            js.append(J("big", a, b, seq(a, "(", ("a", 1), ") ", ("b", 2), " ", ("a", 1), ",", ("c", 3)),
                        vals=["T:9-13" if deep else "T:10-12", "obj", "tup:10-11" if deep else "tup:11"], size=3, expand=True, cost=3, **kw))
            js.append(J("empty", a, b, seq(a, S(1), ("a", 1), S(1)), vals=["TT:0"], size=1, expand=True, **kw))
            js.append(J("rows", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1))), vals=["tup:0-2", "TT:0-2"], size=2, expand=True, rows=2, cost=6,
                        **kw))
            if deep:
                js.append(J("huge", a, b, seq(a, ("a", 1), " ", ("b", 2)), vals=["T:98-102", "T:20"], size=2, expand=True, cost=8, **kw))
        return js


# -------------------------------------------------------------------- C08, C14
@register
class C08(Prop):
    id = "C08"
    bounds = ("9 in-styles x 2 numeric out-styles: battery of C01-C03, 5 placeholders in every repetition pattern with tuples of 0-2 elements, "
              "12 parameters in varying order, every 4-character query without parameters, two rows")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs(STYLES, NUMERIC):
            js += battery(a, b, tier, combo=False)
            kw = {"numparams": "list"} if a in NUMERIC else {}
            if a == "named_oracle":
                kw = {"keyforms": ["exact"]}
            js.append(J("rep5", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1)), ",", (I(1), N(1))),
                        vals=["obj"], size=3, cost=20, expand=True, **dict(kw, numparams="symlist")))
            js.append(J("rep4t", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1))),
                        vals=["tup:0-2", "obj", "tup:1-2", "tup:0-1"] if deep else ["tup:0-2", "obj", "tup:2", "obj"], size=2, cost=20,
                        expand=True, **kw))
            js.append(J("noexp", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1))), vals=["TT:0-2", "obj"], size=2, cost=5,
                        expand=False, **kw))
            js.append(J("none", a, b, [S(3, "nonmark")], cost=1, rows=0))
            js.append(J("nonemany", a, b, [S(2, "nonmark"), " "], cost=1, rows=2))
            js.append(J("rows", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), ",", (I(1), N(1))), vals=["tup:0-2", "obj", "tup:2"], size=2,
                        expand=True, rows=2, cost=6, **kw))
        return js

    def judge(self, inp, out, job):
        return judge(inp, out, job, values=False)


COLLIDE = ["a", "a__0", "a__0_sqlp", "a_0", "_0", "_1", "_1_0", "_0_1", "_1_10", "_11", "a__1_sqlp", "a__10_sqlp", "__0_sqlp", "_0_sqlp"]


@register
class C14(Prop):
    id = "C14"
    bounds = ("9 in-styles x 5 named out-styles, quoting on/off/default, expansion on/off: battery of C01-C03; placeholders "
              "named by 14 fixed names that resemble generated ones plus symbolic names; 15 ordinal/numeric parameters with tuples of 11 and "
              "more elements; two rows")

    def jobs(self, tier):
        js = []
        for a, b in pairs(STYLES, NAMED):
            js += battery(a, b, tier, combo=False)
            kw = {"numparams": "list"} if a in NUMERIC else {}
            if a == "named_oracle":
                kw = {"keyforms": ["exact", "quoteup"]}
            if b == "named_oracle":
                js += [dict(j, label="q " + j["label"], quotes=True) for j in battery(a, b, tier, combo=False)]
            for q in (True, False):
                js.append(J("quotes%s" % q, a, b, seq(a, S(1), (I(1), N(1)), ",", (I(2), N(1)), " ", (I(1), N(1))),
                            vals=["tup:0-2", "obj", "tup:2"], size=2, expand=True, quotes=q, cost=6, **kw))
                js.append(J("quotesx%s" % q, a, b, seq(a, (I(1), N(1)), S(1), (I(2), N(2)), S(1)), size=2, expand=False, quotes=q, cost=3,
                            vals=["TT:0-2", "obj"], **kw))
                js.append(J("qrows%s" % q, a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1))), vals=["tup:0-2", "obj"], size=2, rows=2,
                            expand=True, quotes=q, cost=3, **kw))
            if FAMILY[a] == "named":
                # two names out of a list of look-alikes, and a symbolic one
                for k, n in enumerate(COLLIDE):
                    js.append(J("alike%d" % k, a, b, seq(a, (I(1),), " ", (n,), " ", (COLLIDE[(k * 5 + 3) % 14],)), vals=["tup:0-2", "tup:1-2", "obj"],
                                expand=True, cost=2, **kw))
                js.append(J("collide", a, b, seq(a, (I(1),), " ", (I(1, {"chars": "ab"}), ), "__0_sqlp"), vals=["tup:1-2", "tup:1"], expand=True))
            else:
                items = []
                for k in range(1, 14):
                    items += [" ", ("", k)]
                js.append(J("many14", a, b, seq(a, *(items + [S(1), ("", N(2)), " ", ("", 1)])), vals=["obj", "T:12", "tup:1", "obj", "obj", "T:1",
                                                                                                         "obj", "obj", "obj", "obj", "T:11", "T:3"],
                            size=14, expand=True, cost=4, quotes=True if b == "named_oracle" else None, **kw))
        return js

    def judge(self, inp, out, job):
        return judge(inp, out, job, values=False)


# ------------------------------------------------------------------ C09, C10, C22
def container_kw(a, size=3):
    return {"numparams": "list", "size": size} if a in NUMERIC else {}


@register
class C09(Prop):
    id = "C09"
    bounds = ("9 x 9 style pairs, expansion on/off/default, 1-5 and 520 rows of equal shape, up to 4 placeholders with symbolic names/numbers and tuples of "
              "0-3 elements (0-11 thorough), sequences and mappings as rows, Oracle keys spelled differently in every row, comments and escapes")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a)
            o = {"keyforms": ["exact", "quoteup"]} if a == "named_oracle" else {}
            for ex in (True, None, False):
                js.append(J("rows-%s" % ex, a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), S(1, "few"), (I(1), N(1))), rows=3, cost=8, expand=ex,
                            vals=["tup:0-2", "obj", "TT:2"], **dict(kw, **o)))
            js.append(J("rows5", a, b, seq(a, (I(1), N(1)), ",", ("zz", 2)), rows=5, vals=["tup:1-2", "obj"], expand=True, **dict(kw, **o)))
            js.append(J("rows1", a, b, seq(a, (I(1), N(1)), ",", (I(1), N(1))), rows=1, vals=["tup:0-3", "tup:0-1"], expand=True, **dict(kw, **o)))
            js.append(J("rows520", a, b, seq(a, ("a", 1), S(1, "blank"), ("b", 2)), rows=520, cost=4, vals=["T:2", "obj"], expand=True,
                        **dict(container_kw(a, 2), **o)))
            js.append(J("none", a, b, [S(2)], rows=2, **kw))
            js.append(J("sizes", a, b, seq(a, S(1)), rows=5, surplus=[1, 0, 2, 0, 0], **dict(kw, size=0)))
            js.append(J("surplus", a, b, seq(a, (I(1), 1), S(1, "blank")), rows=5, surplus=[1, 0, 2, 0, 0], vals=["tup:1-2"], expand=True,
                        **dict(kw, size=1, **o)))
            js.append(J("long", a, b, seq(a, *sum([[" ", ("n%d" % (i % 11), i % 11 + 1)] for i in range(14)], [])), rows=3,
                        vals=["obj", "T:3", "obj", "T:11"], expand=True, **dict(container_kw(a, 14), **({"keyforms": ["lower"]} if o else {}))))
            js.append(J("ctx", a, b, seq(a, " -- ", ("k", 3), "\n", esc_seq(a), "z% ", (I(1), N(1)), S(1)), rows=2, vals=["tup:0-2", "obj"],
                        expand=True, esc=True, comments=True, **kw))
            if a in NUMERIC:
                js.append(J("map", a, b, seq(a, (0, N(1)), ",", (0, N(2))), rows=2, vals=["tup:0-2", "obj"], numparams="map", expand=True))
            if a in ORDINAL:
                js.append(J("map", a, b, seq(a, (), ",", (), S(1)), rows=2, vals=["tup:0-2", "obj"], ordparams="map", expand=True))
            if a == "named_oracle":
                js.append(J("forms", a, b, seq(a, (I(1),), ",", ("b", 0, True)), rows=2, vals=["tup:0-2", "obj"], expand=True, rowforms=True,
                            keyforms=["exact", "quoted", "quoteup"] + (["swap"] if deep else [])))
                js.append(J("forms3", a, b, seq(a, (I(2, "asciiword"),)), rows=3, vals=["tup:1-2"], expand=True, rowforms=True))
            if deep:
                js.append(J("rows4", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1)), " ", (I(1), N(1))), rows=3, cost=20,
                            vals=["tup:0-3", "tup:0-2", "tup:2"], expand=True, **dict(kw, **o)))
        return js

    def run(self, lib, inp, job):
        conv = guarded(make, lib, inp["cfg"])
        if conv[0] != "ok":
            return conv
        conv = conv[1]
        sql = mkbytes(inp["sql"]) if inp["bytes"] else inp["sql"]
        ps = [wrap(job.get("ptype"), p) for p in inp["params"]]
        many = guarded(conv.formatmany, sql, list(ps))
        return ("ok", [many] + [guarded(conv.format, sql, p) for p in ps])

    def judge(self, inp, out, job):
        if out[0] != "ok":
            return None
        many, single = out[1][0], out[1][1:]
        if missing(inp) or any(s[0] != "ok" for s in single):
            return None
        if many[0] != "ok":
            return "formatmany raised %s where format succeeds on every row" % many[1]
        d = result_diff(("ok", (single[0][1][0], [s[1][1] for s in single])), many, True)
        return d and "format / formatmany: " + d


@register
class C10(Prop):
    id = "C10"
    bounds = ("9 x 9 style pairs, expansion on: 2, 3 and 20 rows whose values differ in shape at any row and any of up to 3 placeholders (tuples of 0-3 "
              "elements of every tuple kind, non-tuples), rows lacking one parameter, rows of 20 other types at any position")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a, 2)
            o = {"keyforms": ["exact"]} if a == "named_oracle" else {}
            js.append(J("shape2", a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1))), rows=2, same_shape=False, expand=True, cost=8,
                        vals=["tup:0-2", "TT:0-2"], **dict(kw, **o)))
            js.append(J("shape3", a, b, seq(a, ("a", 1), ",", ("b", 2), " "), rows=3, same_shape=False, expand=True, cost=8,
                        vals=["T:0-1", "tup:1-2"], **dict(kw, **o)))
            js.append(J("kinds", a, b, seq(a, S(1), ("a", 1)), rows=2, same_shape=False, expand=True, vals="all", maxlen=3, cost=4, **dict(kw, **o)))
            js.append(J("row", a, b, seq(a, ("a", 1), ",", ("b", 2), " "), rows=40 if deep else 20, vals=["T:2", "obj"], devvals=["T:1-3", "obj"], expand=True,
                        cost=4, **dict(kw, **o)))
            js.append(J("third", a, b, seq(a, ("a", 1), ("b", 2), ("c", 3), S(1, "blank")), rows=3 if deep else 2, same_shape=False, expand=True, cost=5,
                        vals=["obj", "tup:0-1", "T:1-3"], **dict(container_kw(a), **o)))
            if a in NUMERIC:
                js.append(J("lack", a, b, seq(a, (0, N(1)), " ", (0, N(1))), rows=2, numparams="symlist"))
                js.append(J("lackmap", a, b, seq(a, (0, N(1)), " ", (0, N(1))), rows=2, numparams="map", missing=True))
                js.append(J("lacktup", a, b, seq(a, (0, N(1)), " ", (0, N(1))), rows=2, numparams="list", sizes=[3, 1], vals=["tup:1-2", "obj", "T:2"],
                            expand=True))
            else:
                js.append(J("lack", a, b, seq(a, (I(1),), " ", (I(1),)), rows=3, missing=True, vals=["tup:0-1", "obj"], expand=True, **o))
            js.append(J("badrow", a, b, seq(a, S(1), ("a", 1), S(1)), rows=3, vals=["obj"], expand=True, badrow=True, **dict(kw, **o)))
            js.append(J("badfirst", a, b, [S(1)], rows=2, badrow=True, **kw))
            js.append(J("badtup", a, b, seq(a, ("a", 1)), rows=2, vals=["T:0-1"], expand=True, badrow=True, **dict(kw, **o)))
        return js

    def build(self, job):
        inp = build(job)
        if job.get("badrow"):
            if missing(inp):
                raise PathEnd("cut")
            r = choose_var("badrow", job["rows"])
            inp["params"][r] = SymVal("bad", wrong_kinds(job["in"]), ntags=1)
            inp["bad"] = r
        return inp

    def judge(self, inp, out, job):
        if "bad" in inp:
            return refused(out, ("TypeError",), "row %d is not a container" % inp["bad"])
        want = set()
        shape = inp["shapes"][0]
        for row in inp["slots"]:
            for v, s in zip(row, shape):
                if type(v) is str and v == MISSING:
                    want.add("Lookup")
                elif s is not None and (not spec.is_tuple(v) or len(v) != s):
                    want |= {"TypeError", "ValueError"}
        if want:
            if out[0] == "ok":
                return "a row does not fit but the call returned %s" % brief(out[1])
            if out[1] in want or "Lookup" in want and out[2]:
                return None
            return "a row does not fit: raised %s" % out[1]
        fit = dict(inp, shapes=[shape] * len(inp["shapes"]))
        return judge(fit, out, job, numbering=False)


def wrong_kinds(a):
    """Kinds of values that are no parameter container for an in-style."""
    if FAMILY[a] == "named":
        return [k for k in KIND_NAMES if k not in ("dict0", "dict")]
    return ["obj", "none", "false", "true", "int0", "int", "float", "str0", "str", "strsub", "bytes", "set", "fset"]


def refused(out, types, why):
    if out[0] == "ok":
        return "%s but the call returned %s" % (why, brief(out[1]))
    if out[1] not in types:
        return "%s: raised %s" % (why, out[1])
    return None


class OnlyIter:
    """An iterable that is nothing else."""

    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)


class OnceIter:
    """An iterable that can be gone through once only."""

    def __init__(self, rows):
        self.rows = rows
        self.used = 0

    def __iter__(self):
        self.used += 1
        return iter(self.rows if self.used == 1 else [])


class Counting:
    """A one-shot iterator that counts what is taken."""

    def __init__(self, rows):
        self.rows = rows
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.rows):
            raise StopIteration
        self.taken += 1
        return self.rows[self.taken - 1]


class RowError(Exception):
    pass


RAISED = (RowError, ValueError, IndexError, KeyError, TypeError)


def failing(rows, exc):
    for r in rows:
        yield r
    raise exc("no more rows")


ITERS = ("gen", "iter", "tuple", "deque", "map", "only", "counting", "values", "chain", "userlist", "custom", "keys", "once")


@register
class C22(Prop):
    id = "C22"
    bounds = "9 x 9 style pairs, 1, 2, 4, 5, 12 and 1,030 rows (of symbolic queries and values, of equal or different numbers of unused parameters), 14 kinds of iterables, iterables that fail after 0-3 rows; 9 kinds of non-iterables; rows that nobody else keeps alive"

    def jobs(self, tier):
        js = []
        for a, b in pairs():
            kw = container_kw(a, 2)
            for k in ITERS:
                js.append(J("it-" + k, a, b, seq(a, S(1, "few"), (I(1), 1), " ", ("b", 2)), rows=4 if k == "gen" else 2, vals=["tup:1-2", "obj"],
                            rowiter=k, expand=True, **dict(kw, **({"keyforms": ["exact"]} if a == "named_oracle" else {}))))
            js.append(J("fresh", a, b, seq(a, S(1, "few"), ("a", 1), " ", ("b", 2)), rows=9, vals=["T:1-2", "obj"], rowiter="fresh", expand=True,
                        **dict(kw, **({"keyforms": ["exact"]} if a == "named_oracle" else {}))))
            js.append(J("raises", a, b, seq(a, S(1, "few"), ("a", 1)), rows=3, vals=["obj"], raises=True, **dict(kw, size=1)))
            js.append(J("one", a, b, seq(a, (I(1), 1)), rows=1, rowiter="gen", vals=["tup:0-1"], expand=True, **kw))
            js.append(J("twelve", a, b, seq(a, (I(1), 1), S(1, "blank")), rows=12, rowiter="counting", vals=["tup:0-1"], expand=True, **kw))
            js.append(J("thousand", a, b, seq(a, ("a", 1), ",", ("b", 2)), rows=1030, rowiter="gen", vals=["T:1", "obj"], expand=True, cost=6,
                        **dict(kw, **({"keyforms": ["exact"]} if a == "named_oracle" else {}))))
            for k, sp in enumerate(([2, 1, 0, 3, 0], [0, 0, 0, 0, 1], [1, 1, 1, 1, 0])):
                js.append(J("sizes%d" % k, a, b, [S(1)], rows=5, rowiter="gen", surplus=sp, **dict(kw, size=0)))
            js.append(J("bad", a, b, seq(a, S(1), ("a", 1)), rows=1, badrows=True, **kw))
            js.append(J("badnone", a, b, [S(1)], rows=1, badrows=True, **kw))
        return js

    def build(self, job):
        inp = build(job)
        if job.get("raises"):
            inp["raises"] = (choose_var("after", 4), RAISED[choose_var("what", len(RAISED))])
        if job.get("badrows"):
            inp["bad"] = SymVal("bad", ("obj", "none", "false", "true", "int0", "int", "float", "str0", "str", "strsub", "bytes"), ntags=1)
        return inp

    def run(self, lib, inp, job):
        rows = inp["params"]
        k = job.get("rowiter")
        c = None
        if "bad" in inp:
            it = inp["bad"]
        elif "raises" in inp:
            it = failing(rows[:inp["raises"][0]], inp["raises"][1])
        elif k == "deque":
            it = collections.deque(rows)
        elif k == "map":
            it = map(lambda i: rows[i], range(len(rows)))
        elif k == "only":
            it = OnlyIter(rows)
        elif k == "once":
            it = OnceIter(rows)
        elif k == "counting":
            it = c = Counting(rows)
        elif k == "values":
            it = dict(enumerate(rows)).values()
        elif k == "chain":
            it = (r for part in (rows[:1], rows[1:]) for r in part)
        elif k == "userlist":
            it = collections.UserList(rows)
        elif k == "custom":
            it = harness.SeqOnly(rows)
        elif k == "keys":
            it = reversed(rows[::-1])
        else:
            it = rows_iter(k, rows)
        out = guarded(lambda: make(lib, inp["cfg"]).formatmany(inp["sql"], it))
        if out[0] == "ok" and c is not None and c.taken != len(rows):
            return ("exc", "taken %d of %d" % (c.taken, len(rows)), False)
        return out

    def judge(self, inp, out, job):
        if "bad" in inp:
            return refused(out, ("TypeError",), "the rows are not iterable")
        if "raises" in inp:
            return None if missing(inp) else refused(out, (inp["raises"][1].__name__,), "the iterable fails after %d rows" % inp["raises"][0])
        return judge(inp, out, job, numbering=False)


# ---------------------------------------------------------------------- C11, C12
CM = {"chars": "-/* \n\r\t:a"}
CM2 = {"chars": "-/*\n a"}


@register
class C11(Prop):
    id = "C11"
    bounds = ("default styles: every query of 7 characters (thorough 9) over blanks, line breaks, marker characters and a letter, and of 3-5 over the full "
              "alphabet around fixed markers; custom markers: 30 fixed lists and symbolic markers of 1-2 ASCII characters; placeholders in "
              "and around comments for 9 x 9 style pairs; formatmany")
    assumptions = ["comment markers are non-empty and do not begin with a blank or contain a line break"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        n = 9 if deep else 7
        for b in ("qmark", "pyformat", "numeric"):
            js.append(J("free", "named", b, [S(n - (b != "qmark"), CM2)], comments=True, cost=50))
            js.append(J("free-ws", "named", b, [S(n - 2, CM)], comments=True, cost=30))
            js.append(J("freemany", "named", b, [S(n - 2, CM2)], comments=True, cost=20, rows=2))
        for c in ("--", "/*", "*/", "/**/", " --", "\t/* ", "*/ ", "\r\n", "-- :a", "/* :a", "/*\n", "\n--", "\n/*", "*/\n", "--\r\n"):
            js.append(J("full%r" % c, "named", "qmark", [S(2, "full"), c, S(2 if not deep else 3, "full")], comments=True, cost=10))
            js.append(J("nl%r" % c, "named", "qmark", [S(2, "nl"), c, S(2, "nl"), "x", S(1, "nl"), c, S(1, "nl")], comments=True, cost=10))
            js.append(J("twice%r" % c, "named", "qmark", [c, S(2, CM), c, S(1, CM), c, S(1, CM)], comments=True, cost=10))
        for m in ("#", ".", "^", "$", "\\", "(", "[", "*", "+", "?", "|", "{", "//", "--!", "REM", "\xe9", "{comment}", "%s"):
            js.append(J("one%r" % m, "named", "qmark", [S(2, CM), m, S(2, CM), "\n", S(1, CM), m[:1], S(1, CM), m], comments=[m], cost=5))
        for m in (["{", "}"], ["(*", "*)"], ["'", "'"], ["<!--", "-->"], [".", "*"], ["/*", "/*"], ["[[", "]"], ["a", "b"], ["\\", "\\"],
                  ["<<", "\n"], ["{start}", "{end}"]):
            js.append(J("pair%r" % m, "named", "qmark", [S(1, CM), m[0], S(2, CM), m[1], S(1, "nl"), S(1, CM), m[1][:1], S(1, CM), m[0]],
                        comments=[m], cost=5))
        for ms in (["--", "#"], ["#", ["/*", "*/"]], [["/*", "*/"], "--"], ["--", ["/*", "*/"]], [["/*", "*/"], ["(*", "*)"]], ["-", "--"], ["--", "--"],
                   [["(", ")"], "-", ["/*", "*/"]], [], ["a", ["-", "/"]]):
            js.append(J("list%r" % (ms,), "named", "qmark", [S(5 if not deep else 6, {"chars": "-/*\n a(#)"})], comments=ms, cost=20))
            js.append(J("list2%r" % (ms,), "named", "qmark", [S(1, CM), "--", S(1, CM), "/*", S(1, CM), "\n--", S(1, CM), "*/\n", S(1, CM), "# (\n"],
                        comments=ms, cost=10))
        js.append(J("sym1", "named", "qmark", [S(2, CM2), "x", S(1, "ascii"), S(2, CM2), "\n", S(1, "ascii")], comments=[{"sym": 1}], cost=20))
        js.append(J("sym2", "named", "qmark", [S(1, CM2), S(2, "ascii"), S(1, CM2), "\n", S(2, "mark")], comments=[{"sym": 2}], cost=20))
        js.append(J("sympair", "named", "qmark", [S(1, CM2), S(1, "ascii"), S(1, CM2), S(1, "ascii"), S(2 if deep else 1, CM2)], comments=[{"pair": [1, 1]}], cost=20))
        for c in (None, False):
            js.append(J("off%r" % c, "named", "qmark", [S(2, CM), "--", S(1, CM), "\n/*", S(1, CM), "*/\n"], comments=c))
        for a, b in pairs():
            kw = container_kw(a)
            js.append(J("par", a, b, seq(a, S(1, "blank"), "--", S(1, CM), ("c", 3), S(1, "nl"), ("a", 1), "\n ", ("b", 2)), comments=True, **kw))
            js.append(J("parm", a, b, seq(a, ("a", 1), S(1, "nl"), "/*", ("c", 3), "\n", ("d", 2), " */", S(1, "nl"), ("b", 1)), comments=True,
                        vals=["obj", "tup:2"], **kw))
            js.append(J("many", a, b, seq(a, " -- ", ("c", 3), "\r\n", S(1, "nl"), "/* ", ("d", 2), " */ ", ("b", 1)), comments=True, rows=2, **kw))
        return js

    def run(self, lib, inp, job):
        cfg = inp["cfg"]
        st = cfg["comments"]
        styles = spec.DEFAULT if st is True else st or ()
        bare = spec.strip_comments(inp["sql"], styles)

        def go(c, sql):
            conv = make(lib, dict(cfg, comments=c))
            if inp["many"]:
                return conv.formatmany(sql, list(inp["params"]))
            return conv.format(sql, inp["params"][0])
        return ("ok", [guarded(go, st, inp["sql"]), guarded(go, None, bare)])

    def judge(self, inp, out, job):
        d = result_diff(out[1][0], out[1][1], inp["many"])
        return d and "stripped by the library / beforehand: " + d


class BytesSub(bytes):
    pass


@register
class C12(Prop):
    id = "C12"
    bounds = ("9 x 9 style pairs: byte queries of 4 arbitrary bytes, of 2+2 arbitrary bytes around placeholders, with escapes, percent signs, "
              "comments and tuples; formatmany; queries that are "
              "subclasses of text and bytes, and queries of 18 other types")
    assumptions = ["the converted text is within Latin-1 (an Oracle name whose upper-case form is not cannot be returned as bytes)"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a)
            js.append(J("free", a, b, [S(5 if deep else 4, "latin")], bytes=True, cost=6, **kw))
            js.append(J("around", a, b, seq(a, S(2, "latin"), (I(1, "latin"), N(1)), S(2, "latin")), bytes=True, cost=6, **kw))
            js.append(J("ident", a, b, seq(a, "\xa0", (I(2, "latin"), N(2)), S(1, "latin"), "\xff"), bytes=True, cost=4,
                        **({"numparams": "symlist"} if a in NUMERIC else {})))
            js.append(J("all", a, b, seq(a, "-- ", S(1, "latin"), "\n", S(1, "latin"), esc_seq(a), "%", (I(1), N(1)), ",", ("b", 2), "\xe9"),
                        bytes=True, esc=True, comments=True, expand=True, vals=["tup:0-2", "obj"], cost=4, **kw))
            js.append(J("rows", a, b, seq(a, S(2, "latin"), (I(1), N(1)), "\xff"), bytes=True, rows=2, vals=["tup:0-2"], expand=True, **kw))
            js.append(J("freemany", a, b, [S(2, "latin")], bytes=True, rows=2, cost=2, **kw))
            js.append(J("aroundmany", a, b, seq(a, S(1, "latin"), (I(1, "latin"), N(1)), S(1, "latin")), bytes=True, rows=2, cost=3, **kw))
            js.append(J("query", a, b, [], badquery=True, rows=0, **kw))
            js.append(J("querym", a, b, [], badquery=True, rows=1, **kw))
            for rows in (0, 2):
                js.append(J("sub%d" % rows, a, b, seq(a, "-- \xe9\n x\xe9 ", ("a", 1), ",", ("b", 2), " 5% "), subquery=True, rows=rows,
                            vals=["tup:0-2", "obj"], expand=True, comments=True, **kw))
        return js

    def build(self, job):
        inp = build(job)
        if job.get("badquery"):
            inp["bad"] = (SymVal("bad", [k for k in KIND_NAMES if k not in ("str0", "str", "strsub", "bytes")], ntags=1), bytearray(b"x"),
                          memoryview(b"x"), collections.UserString("x"), array.array("u", "x"))[choose_var("badkind", 5)]
        return inp

    def run(self, lib, inp, job):
        def go(sql):
            conv = make(lib, inp["cfg"])
            if inp["many"]:
                return conv.formatmany(sql, list(inp["params"]))
            return conv.format(sql, inp["params"][0])
        if "bad" in inp:
            return guarded(go, inp["bad"])
        if job.get("subquery"):
            t = inp["sql"]
            outs = [guarded(go, x) for x in (t.encode("latin1"), t, BytesSub(t.encode("latin1")), StrSub(t))]
            return ("ok", outs)
        return ("ok", [guarded(go, mkbytes(inp["sql"])), guarded(go, inp["sql"])])

    def judge(self, inp, out, job):
        if "bad" in inp:
            return refused(out, ("TypeError",), "the query is neither text nor bytes")
        if job.get("subquery"):
            b, t, b2, t2 = out[1]
            for x, n in ((b2, "bytes"), (t2, "text")):
                if x[0] == "ok" and not isinstance(x[1][0], bytes if n == "bytes" else str):
                    return "a subclass of %s came back as %s" % (n, type(x[1][0]).__name__)
            for x, y, n in ((b2, b, "bytes"), (t2, t, "text")):
                d = result_diff(x, y, inp["many"])
                if d:
                    return "subclass of %s / %s: %s" % (n, n, d)
            return self.judge(inp, ("ok", [b, t]), dict(job, subquery=None))
        b, t = out[1]
        if t[0] == "ok":
            if not isinstance(t[1][0], str):
                return "a text query came back as %s" % type(t[1][0]).__name__
            if sym(t[1][0]) or t[1][0]:
                if not decide(c_and([c_in(code(c), strs.LATIN) for c in t[1][0]])):
                    return None
            if b[0] == "ok":
                if not isinstance(b[1][0], bytes):
                    return "a byte query came back as %s" % type(b[1][0]).__name__
                b = ("ok", (spec.text_of(b[1][0]), b[1][1]))
        d = result_diff(b, t, inp["many"])
        return d and "bytes / text: " + d


# --------------------------------------------------------------------------- C13
@register
class C13(Prop):
    id = "C13"
    bounds = ("9 out-styles: names of 1-3 symbolic characters, 6 spellings of the matching key (as written, upper, lower, swapped, quoted), up "
              "to 3 quoted and unquoted placeholders in any relation, other keys (quoted or not) that match nothing, missing keys; letters with unusual case mappings (sharp s, dotless i, ligatures, final sigma); every "
              "6-character query over quotes, colons and letters")
    assumptions = ["exactly one key of the mapping matches each placeholder, and keys with one unbalanced quote are not used"]

    def jobs(self, tier):
        deep = tier == "thorough"
        a = "named_oracle"
        F = ["exact", "upper", "lower", "swap", "quoted", "quoteup"]
        js = []
        for b in STYLES:
            for q in (False, True):
                js.append(J("key-q%d" % q, a, b, seq(a, S(1, "few"), (I(2, "word"), 0, q), S(1, "few")), keyforms=F, cost=6, vals=["tup:0-2"], expand=True))
                js.append(J("long-q%d" % q, a, b, seq(a, (I(3 if deep else 2, "word"), 0, q), " ", ("zZ", 0, not q)), keyforms=F, cost=6))
                js.append(J("cased-q%d" % q, a, b, seq(a, (I(3 if deep else 2, "cased"), 0, q), " x"), keyforms=F, extra=[{"quoted": 1}], cost=6, rows=2 if q else 0))
                js.append(J("extra-q%d" % q, a, b, seq(a, (I(1), 0, q), " "), keyforms=F, extra=[1, {"quoted": 1}, "Zz"], cost=6))
                js.append(J("gone-q%d" % q, a, b, seq(a, (I(1), 0, q), S(1, "few")), keyforms=["exact"], extra=[1, {"quoted": 1}], missing=True, cost=4))
                js.append(J("gone2-q%d" % q, a, b, seq(a, (I(1), 0, q), " ", (I(1), 0, False)), keyforms=["exact", "quoteup"], missing=True, cost=6))
            js.append(J("two", a, b, seq(a, (I(1), 0, False), " ", (I(1), 0, True)), keyforms=F, cost=8))
            js.append(J("two-uu", a, b, seq(a, (I(1), 0, False), " ", (I(1), 0, False)), keyforms=F, cost=8))
            js.append(J("two-qq", a, b, seq(a, (I(1), 0, True), " ", (I(1), 0, True)), keyforms=F, cost=8))
            js.append(J("three", a, b, seq(a, ("a", 0, False), " ", (I(1), 0, True), ",", ("A", 0, True)), keyforms=F, cost=8,
                        vals=["tup:0-1", "obj"], expand=True))
            js.append(J("free", a, b, [S(6 if deep else 5, {"chars": ":\"aA1 "})], keyforms=["exact", "quoteup"], cost=20))
            js.append(J("unbal", a, b, [":\"", I(1), S(1, "full"), ' :', I(1), '"', S(1, "full")], keyforms=["exact", "upper"], cost=6))
            js.append(J("unbal2", a, b, [":\"", I(2), S(1), '\' :"', I(1), '":"', S(1)], keyforms=["exact", "quoteup"], cost=6))
            js.append(J("rows", a, b, seq(a, (I(1), 0, False), " ", (I(1), 0, True)), keyforms=["exact", "quoted", "quoteup"], rows=2, cost=6))
            for pt in ("odict", "proxy", "custom", "userdict"):
                js.append(J("cont-" + pt, a, b, seq(a, (I(1), 0, False), " ", ("Q", 0, True)), keyforms=["swap", "quoteup", "quoted"], ptype=pt))
            js.append(J("many", a, b, seq(a, *sum([[" ", ("N%d" % (i % 9), 0, i % 2 == 0)] for i in range(12)], []) + [S(1)]), keyforms=["exact"], vals=["obj", "T:2"],
                        expand=True))
        return js

    def judge(self, inp, out, job):
        if missing(inp):
            return refused(out, ("KeyError",), "a parameter is missing")
        return judge(inp, out, job, numbering=False)


# --------------------------------------------------------------------------- C15
@register
class C15(Prop):
    id = "C15"
    bounds = ("9 x 9 style pairs, two independent parameter sets of equal shape: values of 23 kinds with two contents each, tuples of 0-3 elements of "
              "10 kinds, 1-3 placeholders; formatmany; values that fail whenever they are looked into; the text of a value is tracked as a character no query contains")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a)
            o = {"keyforms": ["exact"]} if a == "named_oracle" else {}
            kw = dict(kw, **o)
            for ex in (True, None, False):
                js.append(J("kinds-%s" % ex, a, b, seq(a, S(1), (I(1), 1)), vals="all", expand=ex, tags=2, **kw))
                js.append(J("two-%s" % ex, a, b, seq(a, (I(1), N(1)), " ", (I(1), N(1))), vals=["all", "tup:0-2" if not deep else "all"], expand=ex, tags=2,
                            cost=6, **kw))
            js.append(J("elems", a, b, seq(a, ("a", 1), " ", ("a", 1)), vals=["T:0-3"], expand=True, elems=ALLK, tags=2, cost=3, **kw))
            js.append(J("rows", a, b, seq(a, (I(1), N(1))), vals=["all"], rows=2, expand=True, tags=2, cost=3, **kw))
            js.append(J("ctx", a, b, seq(a, "--", ("a", 1), "\n", esc_seq(a), "%", ("a", 1), S(1)), vals=["all"], esc=True, comments=True, expand=True, tags=2,
                        **kw))
            js.append(J("near", a, b, seq(a, S(3, {"chars": "ISint =("}), ("a", 1), " ", S(2, {"chars": "ISint =)"})), vals=["notuple"], tags=2, **kw))
            for rows in (0, 2):
                js.append(J("hostile%d" % rows, a, b, seq(a, S(1, "few"), ("a", 1), " ", ("b", 2)), vals="hostile", vals2=["notuple", "notuple"], rows=rows, expand=True, **kw))
            js.append(J("strs", a, b, seq(a, "x=", ("a", 1), " ", (I(1), N(1)), " z"), vals=["str,strsub,bytes,int,float,list,dict"], expand=True, tags=2,
                        **kw))
        return js

    def build(self, job):
        x = build(job)
        y = build(dict(job, _p="b", tag0=7, vals=job.get("vals2") or job.get("vals", "obj")))
        for r, s in zip(x["slots"], y["slots"]):
            for v, w in zip(r, s):
                if type(v) is SymVal and type(w) is SymVal:
                    harness.link_shape(v, w)
        return {"x": x, "y": y, "sql": x["sql"]}

    def run(self, lib, inp, job):
        return ("ok", [harness.run(lib, inp["x"], job), harness.run(lib, inp["y"], job)])

    def judge(self, inp, out, job):
        x, y = out[1]
        if x[0] != "ok" or y[0] != "ok":
            if missing(inp["x"]) or missing(inp["y"]) or x[0] == y[0]:
                return None
            return "one parameter set is refused (%s / %s)" % (x[:2] if x[0] != "ok" else "ok", y[:2] if y[0] != "ok" else "ok")
        if not text_eq(x[1][0], y[1][0]):
            return "queries differ: %s / %s" % (brief(x[1][0]), brief(y[1][0]))
        return None


# --------------------------------------------------------------------------- C16
@register
class C16(Prop):
    id = "C16"
    bounds = ("9 x 9 style pairs: up to 4 placeholders of which any one is not supplied (others with symbolic names, numbers, tuples), containers of 20 "
              "other types (also for queries without placeholders), values of 23 kinds, expansion on/off")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a)
            o = {"keyforms": ["exact", "quoteup"]} if a == "named_oracle" else {}
            for ex in (True, False):
                js.append(J("gone-%s" % ex, a, b, seq(a, (I(1), N(1)), S(1, "few"), (I(1), N(1)), " ", (I(2), N(1))), missing=True, vals=["obj", "tup:0-1"],
                            expand=ex, cost=6, extra=() if a in ORDINAL else ["z_"], **dict(o, numparams="map") if a in NUMERIC else o))
            if a in NUMERIC:
                js.append(J("beyond", a, b, seq(a, (0, N(1)), " ", (0, N(2)), S(1), (0, N(1))), numparams="symlist", maxnum=12, cost=4))
                js.append(J("beyondtup", a, b, seq(a, (0, N(1)), " ", (0, N(2))), numparams="list", size=3, vals=["tup:0-2", "obj", "T:0-1"], expand=True,
                            cost=4))
            js.append(J("gone5", a, b, seq(a, ("a", 1), " ", ("b", 2), ",", ("c", 3), S(1, "few"), ("d", 4), " ", ("e", 5)), missing=True, vals=["obj", "tup:0-1", "obj"],
                        expand=True, **dict(o, numparams="mapint") if a in NUMERIC else o))
            js.append(J("gone13", a, b, seq(a, *sum([[" ", ("n%d" % (i * 5 % 13), i * 5 % 13 + 8)] for i in range(13)], [])), missing=True, vals=["obj", "T:2", "obj"],
                        expand=True, **{"numparams": "mapstr"} if a in NUMERIC else {"keyforms": ["lower"]} if o else {}))
            if a in NUMERIC:
                for n in (4, 11):
                    js.append(J("short%d" % n, a, b, seq(a, *sum([[" ", ("", i * 5 % 13 + 1)] for i in range(13)], []), S(1)), numparams="list", size=n))
            if a in ORDINAL:
                js.append(J("gonemap", a, b, seq(a, (), ",", (), S(1), ()), missing=True, ordparams="map", surplus=2))
            if FAMILY[a] == "named":
                js.append(J("similar", a, b, seq(a, ("ab",), S(1, "few"), ("abc",), " ", ("aB1",)), missing=True, extra=["a", "bc", "_ab", "aB", "ab_"],
                            **({"keyforms": ["exact"]} if o else {})))
            js.append(J("type", a, b, seq(a, S(1), ("a", 1)), badparams=True, **kw))
            js.append(J("typenone", a, b, [S(2)], badparams=True, **kw))
            js.append(J("kinds", a, b, seq(a, (I(1), N(1)), S(1, "few"), ("b", 2)), vals=["all", "falsy"], expand=True, cost=3, **dict(kw, **o)))
            js.append(J("kinds-off", a, b, seq(a, (I(1), N(1)), " ", ("b", 2)), vals=["all", "falsy"], expand=False, **dict(kw, **o)))
        return js

    def build(self, job):
        inp = build(job)
        if job.get("badparams"):
            inp["params"][0] = SymVal("bad", wrong_kinds(job["in"]), ntags=1)
            inp["bad"] = 1
        return inp

    def judge(self, inp, out, job):
        if "bad" in inp:
            return refused(out, ("TypeError",), "the parameters are not a container")
        return judge(inp, out, job, numbering=False)


# ---------------------------------------------------------------------- C17, C18
HIST = ("empty", "twin", "twinmid", "twinpct", "same", "samesql", "other", "back", "failed", "many", "manyback", "config", "three", "mutated", "mutmap", "styles", "long")


@register
class C17(Prop):
    id = "C17"
    bounds = ("9 x 9 style pairs, histories of 1-3 earlier calls (and of 300, with fixed queries; format, formatmany, failing ones) on the same instance and on instances of other "
              "configurations, with symbolic queries and values of symbolic shape; the same query again with other values or with the "
              "same container (also other kinds of mappings) changed in between; queries that differ in one or two characters; results changed by the caller; the last call twice")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for n, (a, b) in enumerate(pairs()):
            kw = dict(container_kw(a, 2), expand=True, vals=["tup:1-2", "obj"])
            if a == "named_oracle":
                kw["keyforms"] = ["exact"]
            two = seq(a, (I(1), N(1)), " ", (I(1), N(1)))
            less = two if deep else seq(a, (I(1), N(1)), " ", ("b", 2))
            one = seq(a, S(1, "few"), ("a", 1))
            a2 = STYLES[(STYLES.index(a) + 1 + n % 8) % 9]
            b2 = STYLES[(STYLES.index(b) + 1 + n % 7) % 9]
            kw2 = dict(container_kw(a2, 2), expand=True, vals=["tup:1-2", "obj"])
            if a2 == "named_oracle":
                kw2["keyforms"] = ["exact"]
            last = {"sql": two, "_q": "", "_p": ""}
            first = {"sql": two, "_q": "f", "_p": "f"}
            any1 = seq(a, ("a", 1))
            H = {
                "empty": [{"sql": [S(1)], "_q": "f", "_p": "f", "rows": 2}, {"sql": [S(1)], "_q": "g", "_p": "g"}, {"sql": [S(1)], "_q": "h", "_p": "h", "rows": 2}],
                "twin": [{"sql": [S(1)] + any1 + [" x", S(1)], "_q": "f", "_p": "f"}, {"sql": [S(1)] + any1 + [" x", S(1)], "_q": "g", "_p": "g"}],
                "twinmid": [{"sql": seq(a, "y ", *any1, S(1, "blank"), "x --", S(1, "few"), "\n"), "comments": True, "esc": True, "_q": q, "_p": q} for q in "fg"],
                "twinpct": [{"sql": seq(a, S(1, "nl"), "select 1", S(1, "nl")), "comments": True, "_q": q, "_p": q} for q in "fg"],
                "same": [first, last],
                "samesql": [dict(last, _p="f"), last],
                "other": [{"sql": seq(a, ("a", 1), " ", ("b", 2)), "out": b2, "_q": "f", "_p": "f"}, dict(last, sql=seq(a, ("a", 1), S(1, "few"), ("b", 2)))],
                "back": [{"sql": seq(a, ("a", 1), " ", ("b", 2)), "_q": "f", "_p": "f"}, {"sql": seq(a, ("a", 1)), "out": b2, "_q": "g", "_p": "g"},
                         dict(last, sql=seq(a, ("b", 2), S(1, "few"), ("a", 1)))],
                "failed": [dict(first, sql=seq(a, ("a", 1), S(1, "few"), ("c", 2)), broken=True), dict(last, sql=seq(a, ("a", 1), " ", ("b", 2)))],
                "many": [dict(first, rows=2, sql=less), dict(last, sql=less)],
                "manyback": [dict(first, sql=less), dict(last, sql=less, rows=2)],
                "config": [dict(first, sql=one, esc=True, comments=True, expand=False), dict(last, sql=seq(a, "--\n", INIT[a], S(1, "few"), ("a", 1)))],
                "three": [dict(last, sql=one, _p="f"), dict(last, sql=one, _p="g"), dict(last, sql=one, _p="h"), dict(last, sql=one)],
                "long": [{"sql": seq(a, "q%d " % i, ("a", 1), *([" ", ("b%d" % (i % 7), 2)] if i % 3 else [])), "vals": ["obj"], "_q": "f%d" % i, "_p": "f%d" % i,
                          "rows": 2 if i % 5 == 0 else 0} for i in range(300)]
                + [dict(last, sql=seq(a, "q", {"num": 1, "dom": {"chars": "079"}} if n % 10 == 0 else "7", " ", ("a", 1), " ", ("b0", 2)), vals=["obj"])],
                "mutated": [dict(last, _p="f", reuse=True), dict(last, reuse=True)],
                "mutmap": [dict(last, sql=seq(a, ("a", 1), " ", ("b", 2)), _p=q, reuse=True, kw={"numparams": "map", "ordparams": "map"}) for q in ("f", "")],
                "styles": [dict({"in": a2, "sql": seq(a2, ("a", 1), " ", ("b", 2)), "_q": "f", "_p": "f"}, kw=kw2), dict(last, sql=seq(a, ("a", 1), S(1, "few"),
                                                                                                                              ("b", 2)))],
            }
            for h in HIST:
                js.append(J(h, a, b, [], cost=4, calls=H[h], **kw))
        return js

    def build(self, job):
        calls = []
        for c in job["calls"]:
            j = {k: v for k, v in job.items() if k != "calls"}
            j.update(c.get("kw", {}))
            j.update({k: v for k, v in c.items() if k != "kw"})
            inp = build(j)
            if c.get("broken"):
                brk = choose_var("brk", 2)
                inp["params"][0] = SymVal("bad%s%d" % (c["_q"], brk), wrong_kinds(j["in"]) if brk else ("list0", "dict0"), ntags=1)
            calls.append(inp)
        return {"calls": calls, "sql": [c["sql"] for c in calls]}

    def run(self, lib, inp, job):
        calls = inp["calls"]
        insts = []
        for c in calls:
            for d, i in insts:
                if same_cfg(d, c["cfg"]):
                    break
            else:
                insts.append((c["cfg"], guarded(make, lib, c["cfg"])))
        shared = None
        res = []
        for n, c in enumerate(calls + calls[-1:]):
            conv = next(i for d, i in insts if same_cfg(d, c["cfg"]))
            if conv[0] != "ok":
                res.append(conv)
                continue
            ps = c["params"]
            if job["calls"][min(n, len(calls) - 1)].get("reuse"):
                # the caller keeps one container and changes what is in it
                if shared is None:
                    shared = type(ps[0])(ps[0])
                elif isinstance(shared, dict):
                    shared.clear()
                    for k, v in ps[0].items():
                        rt.setitem(v, shared, k)
                else:
                    shared[:] = ps[0]
                ps = [shared]
            f = conv[1].formatmany if c["many"] else conv[1].format
            r = guarded(f, c["sql"], list(ps) if c["many"] else ps[0])
            res.append(spoil(r, c["many"]))
        last = calls[-1]
        alone = instrument.again()

        def go():
            conv = make(alone, last["cfg"])
            return conv.formatmany(last["sql"], list(last["params"])) if last["many"] else conv.format(last["sql"], last["params"][0])
        return ("ok", [res[-2], res[-1], guarded(go)])

    def judge(self, inp, out, job):
        h, r, f = out[1]
        many = inp["calls"][-1]["many"]
        d = result_diff(h, f, many)
        if d:
            return "after the history / alone: " + d
        d = result_diff(r, f, many)
        return d and "repeated / alone: " + d


def spoil(r, many):
    """A copy of an outcome; the caller does what it likes to the result."""
    if r[0] != "ok":
        return r
    sql, ps = r[1]
    outs = list(ps) if many else [ps]
    keep = [dict(o) if isinstance(o, dict) else list(o) for o in outs]
    for o in outs:
        o.clear()
        if isinstance(o, dict):
            o["mine"] = 1
        else:
            o.append(1)
    if many and type(ps) is list:
        ps.append(0)
    return ("ok", (sql, keep if many else keep[0]))


def same_cfg(a, b):
    return a is b or all(a[k] == b[k] for k in a)


def snap(x, depth=2):
    """What a container holds, element by element."""
    if type(x) is SymVal or not depth:
        return x
    if isinstance(x, (collections.abc.Mapping,)):
        return ("map", [(k, snap(x[k], depth - 1)) for k in x])
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (collections.abc.Sequence, collections.deque)):
        return ("seq", [snap(v, depth - 1) for v in x])
    return x


def snap_same(a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple and len(a) == 2 == len(b) and a[0] == b[0] and a[0] in ("map", "seq"):
        if len(a[1]) != len(b[1]):
            return False
        if a[0] == "map":
            return all(k is l and snap_same(v, w) for (k, v), (l, w) in zip(a[1], b[1]))
        return all(snap_same(v, w) for v, w in zip(a[1], b[1]))
    return type(a) in (int, str, bool) and a == b


@register
class C18(Prop):
    id = "C18"
    bounds = ("9 x 9 style pairs, 9 container types, format and formatmany of 3 rows (also three times the same row object), values that are lists, dicts "
              "and tuples of them; every result emptied or filled before the next call")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            fam = FAMILY[a]
            kw = container_kw(a)
            if a == "named_oracle":
                kw["keyforms"] = ["exact", "quoteup"]
            q = seq(a, (I(1), N(1)), S(1, "few"), (I(1), N(1)))
            fix = seq(a, S(1, "few"), ("a", 1), " ", ("b", 2), " ", ("a", 1))
            for vals in (["tup:0-2", "obj"], ["inner"]):
                for ex in (True, False):
                    js.append(J("one-%s-%s" % (vals[0][:3], ex), a, b, q, vals=vals, expand=ex, cost=3, **kw))
                    js.append(J("rows-%s-%s" % (vals[0][:3], ex), a, b, fix, vals=vals, expand=ex, rows=3, cost=3, **kw))
            js.append(J("none", a, b, [S(1)], **kw))
            js.append(J("nonemany", a, b, [S(1)], rows=2, **kw))
            js.append(J("alias", a, b, fix, rows=3, vals=["tup:1-2", "obj"], expand=True, samerow=True, **kw))
            js.append(J("single", a, b, seq(a, ("a", 1)), vals=["TT:0-1" if not deep else "TT:0-2"], elems=["obj", "list", "tuple"], expand=True, **kw))
            js.append(J("surplus", a, b, seq(a, S(1), ("a", 1), ",", ("b", 2)), vals=["tup:2", "obj"], expand=True,
                        **dict(kw, **({"surplus": 2} if fam == "ordinal" else {"extra": ["zz", "Q"]} if fam == "named" else {"size": 4}))))
            for pt in (("odict", "proxy", "userdict", "custom") if fam == "named" else ("tuple", "deque", "userlist", "custom")):
                js.append(J("cont-" + pt, a, b, fix, ptype=pt, vals=["tup:1", "obj"], expand=True, **kw))
            if fam != "named":
                for pt in ("dict", "odict", "userdict"):
                    js.append(J("map-" + pt, a, b, fix, ptype=pt, vals=["tup:1", "obj"], expand=True,
                                **({"numparams": "map"} if fam == "numeric" else {"ordparams": "map"})))
        return js

    def run(self, lib, inp, job):
        made = guarded(make, lib, inp["cfg"])
        if made[0] != "ok":
            return made
        conv = made[1]
        ps = [wrap(job.get("ptype"), p) for p in inp["params"]]
        if job.get("samerow"):
            ps = [ps[0]] * len(ps)
        before = [snap(p) for p in ps]
        rows = list(ps)
        bad = []

        def call():
            return conv.formatmany(inp["sql"], rows) if inp["many"] else conv.format(inp["sql"], ps[0])

        def unchanged(when):
            if not all(map(snap_same, before, [snap(p) for p in ps])):
                bad.append("the parameters were changed by %s" % when)
            if len(rows) != len(ps) or not all(x is y for x, y in zip(rows, ps)):
                bad.append("the list of rows was changed by %s" % when)
        first = guarded(call)
        unchanged("the call")
        if first[0] != "ok":
            return ("ok", bad)
        outs = list(first[1][1]) if inp["many"] else [first[1][1]]
        keep = [dict(o) if isinstance(o, dict) else list(o) for o in outs]
        second = guarded(call)
        unchanged("the second call")
        if second[0] != "ok":
            return ("ok", bad)
        outs2 = list(second[1][1]) if inp["many"] else [second[1][1]]
        allo = outs + outs2 + ([first[1][1], second[1][1]] if inp["many"] else [])
        inner = list(ps) + [rows] + list(inp["params"])
        for p in ps:
            inner += [v for v in (p.values() if isinstance(p, collections.abc.Mapping) else p) if type(v) in (list, dict)]
        for i, o in enumerate(allo):
            if any(o is x for x in inner):
                bad.append("a result is one of the arguments")
            if any(o is x for x in allo[:i]):
                bad.append("two results are one object")
        # whatever the caller does to a result touches nothing else
        for i, o in enumerate(outs):
            if isinstance(o, dict):
                o.clear()
                o["mine"] = o
            else:
                o.append(o)
                o[:] = o[-1:]
            for j in range(len(outs)):
                if j > i and not params_eq(outs[j], keep[j]):
                    bad.append("changing a result changed another row's")
        for j, o in enumerate(outs2):
            if not params_eq(o, keep[j]):
                bad.append("changing a result changed the next one")
        unchanged("changing a result")
        third = guarded(call)
        if third[0] != "ok":
            bad.append("after changing a result the call raised %s" % third[1])
        else:
            outs3 = list(third[1][1]) if inp["many"] else [third[1][1]]
            if len(outs3) != len(keep) or not all(map(params_eq, outs3, keep)):
                bad.append("changing a result changed a later one")
        # values are handed on as they are
        ids = set()
        for p in inp["params"]:
            for v in (p.values() if isinstance(p, dict) else p):
                ids.add(id(v))
                if spec.is_tuple(v):
                    for e in v:
                        ids.add(id(e))
        for o in keep:
            for v in (o.values() if isinstance(o, dict) else o):
                if id(v) not in ids:
                    bad.append("a value was copied")
        return ("ok", bad[:3])

    def judge(self, inp, out, job):
        if out[0] != "ok":
            return None
        return out[1][0] if out[1] else None


# --------------------------------------------------------------------------- C19
class Abort(BaseException):
    pass


class Duet:
    """Runs two calls so that b starts at the i-th step of a, is suspended before
    its own j-th step until a has ended, and then ends."""

    def __init__(self, fa, fb, start, pause):
        self.fa, self.fb = fa, fb
        self.start, self.pause = start, pause      # predicates on the step's number
        self.n = {"a": 0, "b": 0}
        self.turn = threading.Lock()
        self.who = "a"
        self.state = "new"
        self.err = None
        self.rb = None
        self.abort = False
        self.wake_b = threading.Semaphore(0)
        self.wake_a = threading.Semaphore(0)

    def at_step(self, place):
        w = self.who
        k = self.n[w]
        self.n[w] = k + 1
        if w == "a":
            if self.state == "new" and self.start(k, place):
                self.run_b()
        elif self.state == "running" and self.pause(k, place):
            self.state = "paused"
            self.who = "a"
            self.wake_a.release()
            self.wake_b.acquire()
            if self.abort:
                raise Abort()

    def body(self):
        try:
            self.enter()
            self.rb = self.fb()
        except Abort:
            pass
        except BaseException as e:
            self.err = e
        finally:
            self.leave()
        self.state = "done"
        self.who = "a"
        self.wake_a.release()

    def enter(self):
        pass

    def leave(self):
        pass

    def run_b(self):
        self.state = "running"
        self.who = "b"
        self.t = threading.Thread(target=self.body)
        self.t.start()
        self.wake_a.acquire()
        self.check()

    def check(self):
        if self.state == "done":
            self.t.join()
            if self.err is not None:
                e, self.err = self.err, None
                raise e

    def go(self):
        try:
            ra = self.fa()
        except BaseException:
            if self.state == "paused":
                self.abort = True
                self.wake_b.release()
                self.t.join()
            raise
        if self.state == "new":
            self.who = "b"
            self.state = "last"
            self.rb = self.fb()
        elif self.state == "paused":
            self.state = "running2"
            self.who = "b"
            self.wake_b.release()
            self.wake_a.acquire()
            self.check()
        return ra, self.rb


class RealDuet(Duet):
    """The same on the unmodified library: steps are line events in its files."""

    def __init__(self, fa, fb, start, pause):
        Duet.__init__(self, fa, fb, start, pause)
        self.seen = {"a": {}, "b": {}}

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(LIBDIR):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            w = self.who
            k = (frame.f_code.co_filename, frame.f_lineno)
            c = self.seen[w][k] = self.seen[w].get(k, 0) + 1
            self.at_step(k + (c,))
        return self.local

    def enter(self):
        sys.settrace(self.trace)

    def leave(self):
        sys.settrace(None)

    def go(self):
        sys.settrace(self.trace)
        try:
            return Duet.go(self)
        finally:
            sys.settrace(None)


LIBDIR = instrument.REPO + "/sqlparams"


class Inner(collections.abc.Mapping):
    """Parameters whose every access converts something with the same instance."""

    def __init__(self, d, act):
        self.d, self.act = d, act

    def __getitem__(self, k):
        self.act()
        return rt.getitem(self.d, k)

    def __iter__(self):
        self.act()
        for k in self.d:
            self.act()
            yield k

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        self.act()
        return rt.contains(k, self.d)
    __symget__ = __getitem__
    __symhas__ = __contains__


class InnerSeq(collections.abc.Sequence):
    def __init__(self, l, act):
        self.l, self.act = l, act

    def __getitem__(self, i):
        self.act()
        return rt.getitem(self.l, i)

    def __len__(self):
        return len(self.l)


@register
class C19(Prop):
    id = "C19"
    steps = True
    bounds = ("9 x 9 style pairs: a second call (format or formatmany, another query and other values, also failing) on the same instance runs at any "
              "statement of the first, completely, or up to any of its own statements and then to its end after the first has ended (at most "
              "two switches in either call); parameter containers that use the instance on every access")
    assumptions = ["threads switch between statements of the library, not inside one statement (re.sub calls back between matches)"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for n, (a, b) in enumerate(pairs()):
            kw = dict(container_kw(a), expand=True, vals=["tup:2", "obj"])
            if a == "named_oracle":
                kw["keyforms"] = ["exact"]
            q1 = seq(a, "--\n", esc_seq(a), "x ", ("a", 1), " ", ("b", 2), ",", ("a", 1))
            q2 = seq(a, ("b", 3), "% ", ("a", 2), " y ", ("c", 1))
            s1 = seq(a, ("a", 1), " ", ("b", 2))
            s2 = seq(a, ("b", 2), "% ", ("a", 1))
            x = {"sql": q1, "_q": "", "_p": "", "vals": ["tup:1-2" if deep else "T:2", "obj"]}
            y = {"sql": q2, "_q": "g", "_p": "g", "vals": ["obj", "tup:1" if deep else "T:1"]}
            kw.update(esc=True, comments=True)
            for i in (0, 1):
                for j in (0, 1):
                    if i == j and (n + i) % 2 or deep:
                        js.append(J("nest%d%d" % (i, j), a, b, [], calls=[dict(x, rows=2 * i), dict(y, rows=2 * j)], cost=4, **kw))
            d = (STYLES.index(a) + STYLES.index(b)) % 9
            if deep or d % 3 == 0:
                js.append(J("fail", a, b, [], calls=[dict(x, sql=s1), dict(y, sql=s2, broken=True)], cost=3, **kw))
            if deep or d == 0:
                # the first call's steps, split over several jobs
                cut = [0, 20, 40, 60, 400]
                for lo, hi in zip(cut, cut[1:]):
                    js.append(J("cross%d" % lo, a, b, [], two=True, span=(lo, hi - 1), cost=20,
                                calls=[dict(x, sql=s1, vals=["T:1", "obj"]), dict(y, sql=s2, vals=["obj", "T:1"])] if deep else
                                [dict(x, sql=seq(a, ("a", 1)), vals=["T:1"]), dict(y, sql=seq(a, ("b", 1), "% "), vals=["obj"])],
                                **dict(kw, esc=None, comments=None)))
            js.append(J("reent", a, b, [], inner=True, calls=[dict(x, sql=seq(a, ("a", 1), S(1, "few"), ("b", 2)), vals=["tup:1-2", "obj"]), dict(y, sql=s2)], cost=2, **kw))
            js.append(J("reentm", a, b, [], inner=True, calls=[dict(x, sql=s1, rows=2), dict(y, sql=s2)], cost=2, **kw))
        return js

    def build(self, job):
        calls = []
        for c in job["calls"]:
            j = {k: v for k, v in job.items() if k != "calls"}
            j.update(c)
            inp = build(j)
            if c.get("broken"):
                inp["params"][0] = SymVal("bad", wrong_kinds(j["in"]) + ["list0", "dict0"], ntags=1)
            calls.append(inp)
        inp = {"calls": calls, "sql": [c["sql"] for c in calls]}
        if not job.get("inner"):
            inp["start"] = sint(var("start", CS.rng(job.get("span", (0, 400)))))
            inp["pause"] = sint(var("pause", CS.rng((0, 400)))) if job.get("two") else 100000
        return inp

    def call(self, conv, c):
        if conv[0] != "ok":
            return conv
        return guarded(conv[1].formatmany if c["many"] else conv[1].format, c["sql"], list(c["params"]) if c["many"] else c["params"][0])

    def alone(self, calls):
        lib = instrument.again()
        out = []
        for c in calls:
            out.append(self.call(guarded(make, lib, c["cfg"]), c))
        return out

    def run(self, lib, inp, job):
        x, y = inp["calls"]
        conv = guarded(make, lib, x["cfg"])
        if job.get("inner"):
            return self.reenter(conv, inp)
        d = Duet(lambda: self.call(conv, x), lambda: self.call(conv, y), lambda k, p: rt.eq(inp["start"], k), lambda k, p: rt.eq(inp["pause"], k))
        rt.STEP[0] = d.at_step
        try:
            r = d.go()
        finally:
            rt.STEP[0] = None
        return ("ok", list(r) + self.alone([x, y]))

    def reenter(self, conv, inp):
        x, y = inp["calls"]
        got = []
        busy = []

        def act():
            if not busy and len(got) < 40:
                busy.append(1)
                try:
                    got.append(self.call(conv, y))
                finally:
                    busy.pop()
        ps = [Inner(p, act) if isinstance(p, dict) else InnerSeq(p, act) for p in x["params"]]
        r = self.call(conv, dict(x, params=ps))
        fa, fb = self.alone([x, y])
        # (how often the containers are asked is not part of the outcome)
        odd = [g for g in got if result_diff(g, fb, y["many"])]
        return ("ok", [r, odd[0] if odd else fb, fa, fb])

    def run_real(self, inp, job):
        if job.get("inner"):
            return self.run(instrument.real(), inp, job)
        # where the schedule's steps are in the source
        x, y = inp["calls"]
        places = {}
        lib = instrument.load(True)
        conv = guarded(make, lib, x["cfg"])
        for w, c, k in (("a", x, inp["start"]), ("b", y, inp["pause"])):
            seen = []

            def note(n):
                f = sys._getframe(2)
                seen.append((f.f_code.co_filename, n))
            rt.STEP[0] = note
            try:
                self.call(conv, c)
            finally:
                rt.STEP[0] = None
            places[w] = seen[k] + (seen[:k + 1].count(seen[k]),) if k < len(seen) else None
        lib = instrument.real()
        conv = guarded(make, lib, x["cfg"])
        d = RealDuet(lambda: self.call(conv, x), lambda: self.call(conv, y), lambda k, p: p == places["a"], lambda k, p: p == places["b"])
        r = d.go()
        return ("ok", list(r) + self.alone([x, y]))

    def judge(self, inp, out, job):
        x, y = inp["calls"]
        ra, rb, fa, fb = out[1][:4]
        d = result_diff(ra, fa, x["many"])
        if d:
            return "the first call, disturbed / alone: " + d
        d = result_diff(rb, fb, y["many"])
        return d and "the second call, within the first / alone: " + d


# --------------------------------------------------------------------------- C20
SEPD = {"chars": " \n.,;=<>()[]{}*+-/|&^~!'\\#\xa0\u2028"}


@register
class C20(Prop):
    id = "C20"
    bounds = ("9 x 9 x 9 style triples: 3 placeholders with symbolic names/numbers and tuples of 0-2 elements between symbolic separators, and 12 "
              "placeholders with tuples of 11; expansion in the first step, quoting of Oracle names on/off")
    assumptions = ["names that differ only in case are not combined with named_oracle, and no placeholder is directly followed by a word character "
                   "or (before ':\"' styles) a quote"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            kw = container_kw(a, 3)
            if a == "named_oracle":
                kw["keyforms"] = ["quoteup"]
            for c in STYLES:
                q = True if b == "named_oracle" else None
                low = {"chars": "abxy_0"}
                js.append(J("tri %s" % c, a, b, seq(a, S(1, SEPD), (I(1, low), N(1)), S(1, SEPD), (I(2 if deep else 1, low), N(1)), " ", ("z", 2), S(1, SEPD)), third=c,
                            vals=["tup:0-2", "obj"], elems=["obj"], expand=True, cost=3, **kw))
                js.append(J("more %s" % c, a, b, seq(a, *sum([[" ", ("n%d" % (i % 9), i % 9 + 1)] for i in range(12)], [])), third=c, vals=["obj", "T:11", "T:1"],
                            elems=["obj"], expand=True, quotes=q, **dict(container_kw(a, 9), **({"keyforms": ["exact"]} if a == "named_oracle" else {}))))
                if deep or q:
                    js.append(J("plain %s" % c, a, b, seq(a, (I(2, low), N(2)), S(1, SEPD), (I(2, low), N(1))), third=c, quotes=q, expand=False,
                                **dict(kw, **({"numparams": "symlist"} if a in NUMERIC else {}))))
        return js

    def run(self, lib, inp, job):
        cfg = inp["cfg"]
        one = dict(cfg, expand=cfg["expand"])
        c = job["third"]

        def direct():
            return make(lib, dict(cfg, out=c)).format(inp["sql"], inp["params"][0])

        def chain():
            s, p = make(lib, one).format(inp["sql"], inp["params"][0])
            return make(lib, dict(cfg, out=c, **{"in": job["out"]}, quotes=None)).format(s, p)
        return ("ok", [guarded(direct), guarded(chain)])

    def judge(self, inp, out, job):
        d, ch = out[1]
        if missing(inp) or d[0] != "ok":
            return None
        cfg = dict(inp["cfg"], out=job["third"])
        inp = dict(inp, cfg=cfg)
        if judge(inp, d, job, numbering=False):
            return None
        why = judge(inp, ch, job, numbering=False)
        return why and "converted by way of %s: %s" % (job["out"], why)


# --------------------------------------------------------------------------- C21
NAMED_LEN = sorted({len(s) for s in STYLES})
STYLE_DOM = {"chars": "abcdefghijklmnopqrstuvwxyz_ANQ0 "}


@register
class C21(Prop):
    id = "C21"
    bounds = ("all 81 pairs; every style name of 0-16 characters over letters, digits, blanks and underscores; style arguments, escape_char, expand_tuples, "
              "allow_out_quotes and elements of strip_comments of 23 kinds; escape strings of 1-3 arbitrary characters; lists of up to 3 styles")

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            js.append(J("pair", a, b, []))
            js.append(J("sub", a, b, [], what="sub"))
            js.append(J("esc", a, b, [], what="esc"))
            js.append(J("escstr", a, b, [], what="escstr", n=3 if deep else 2))
            js.append(J("expand", a, b, [], what="expand"))
            js.append(J("quotes", a, b, [], what="quotes"))
            js.append(J("comments", a, b, [], what="comments"))
        for a in ("named", "numeric", "qmark"):
            js.append(J("commentel", a, a, [], what="commentel", n=3, cost=4))
        for n in range(0, 17):
            js.append(J("inname%d" % n, "named", "qmark", [], what="in", n=n, cost=2))
            js.append(J("outname%d" % n, "named", "qmark", [], what="out", n=n, cost=2))
        for n in (5, 6, 7):
            js.append(J("bothname%d" % n, "named", "qmark", [], what="both", n=n, cost=5))
        js.append(J("inkind", "named", "qmark", [], what="inkind"))
        js.append(J("outkind", "named", "qmark", [], what="outkind"))
        return js

    def build(self, job):
        w = job.get("what")
        kw = {}
        inp = {"in": job["in"], "out": job["out"], "kw": kw, "exc": None}
        a, b = job["in"], job["out"]
        if w in ("in", "both"):
            inp["in"] = strs.symstr("in", job["n"], harness.seg_dom(STYLE_DOM))
        if w in ("out", "both"):
            inp["out"] = strs.symstr("out", job["n"], harness.seg_dom(STYLE_DOM))
        nonstr = [k for k in KIND_NAMES if k not in ("str0", "str", "strsub")]
        if w in ("inkind", "outkind"):
            inp[w[:-4]] = SymVal("st", nonstr, ntags=1)
            inp["exc"] = "TypeError"
        esc = None
        if w == "sub":
            inp["in"], inp["out"] = StrSub(a), StrSub(b)
            esc = kw["escape_char"] = (StrSub("\\"), "\\")[choose_var("esc", 2)]
        if w == "esc":
            v = kw["escape_char"] = SymVal("e", ALLK, ntags=1)
            k = v.kind()
            if k == "true":
                esc = INIT[a]
            elif k in ("str", "strsub"):
                esc = v
            elif k in TUPLES:
                if decide(c_not(v.length_is(0))):
                    inp["exc"] = "TypeError"
            elif bool(values.kind_sample(k)):
                inp["exc"] = "TypeError"
        elif w == "escstr":
            esc = kw["escape_char"] = strs.symstr("e", job["n"], harness.DOMS["mark"])
        expand = None
        if w == "expand":
            v = kw["expand_tuples"] = SymVal("x", ALLK, ntags=1)
            k = v.kind()
            expand = None if k == "none" else decide(c_not(v.length_is(0))) if k in TUPLES else bool(values.kind_sample(k))
        com = None
        if w == "comments":
            k = choose_var("com", 8)
            own = [StrSub("--"), [StrSub("<"), ">"]]
            kw["strip_comments"] = [None, False, True, [], ["--"], (("<", ">"), "#"), own, tuple(own)][k]
            com = [None, None, [("/*", "*/"), "--"], [], ["--"], (("<", ">"), "#"), own, tuple(own)][k]
        if w == "commentel":
            v = SymVal("c", [k for k in KIND_NAMES if k not in ("list0", "list1", "list", "listsub", "range", "tuple", "ntuple", "tsub", "str0")], ntags=1)
            n = choose_var("pos", job["n"])
            com = kw["strip_comments"] = (["--", ("a", "b")] * 2)[:n] + [v] + ["#"] * choose_var("after", 2)
            if decide(c_not(v.is_kind(["str", "strsub"]))):
                inp["exc"] = "TypeError"
        if w == "quotes":
            kw["allow_out_quotes"] = SymVal("q", ALLK, ntags=1)
        for n in ("in", "out"):
            if inp["exc"] is None and not any(decide(eq_cond(s, inp[n])) for s in STYLES):
                inp["exc"] = "KeyError"
        if expand is None and inp["exc"] is None:
            out = next(s for s in STYLES if decide(eq_cond(s, inp["out"])))
            expand = FAMILY[out] != "named"
        inp["want"] = [inp["in"], inp["out"], esc, expand, com]
        inp["style"] = True
        return inp

    def run(self, lib, inp, job):
        def go():
            c = lib.SQLParams(inp["in"], inp["out"], **inp["kw"])
            res = [c.in_style, c.out_style, c.escape_char, c.expand_tuples, c.strip_comments]
            # and what is in force
            if not job.get("what") in ("in", "out", "both"):
                res.append(self.probe(c, job))
            return res
        return guarded(go)

    def probe(self, c, job):
        a = job["in"]
        p = "".join(x for x in ph(a, "a", 1))
        val = (Obj("p0"), Obj("p1"))
        arg = {"a": val} if FAMILY[a] == "named" else [val]
        s, r = c.format(p, arg)
        expanded = not any(v is val for v in (r.values() if isinstance(r, dict) else r))
        return [expanded, s == "(NULL)"]

    def judge(self, inp, out, job):
        if inp["exc"]:
            return refused(out, (inp["exc"],), "an argument is not acceptable")
        if out[0] != "ok":
            return "raised %s" % out[1]
        res = out[1]
        for name, w, g in zip(("in_style", "out_style", "escape_char", "expand_tuples", "strip_comments"), inp["want"], res):
            if name == "strip_comments":
                ok = (g is None) == (w is None) and (g is None or len(list(g)) == len(list(w)) and all(same_style(x, y) for x, y in zip(g, w)))
                if not ok and w is not None and g is not None and inp["kw"]["strip_comments"] is True:
                    ok = len(list(g)) == 2 and {repr(x) for x in g} == {repr(x) for x in w}
            elif w is None or isinstance(w, bool):
                ok = g is w
            elif type(w) is SymVal or type(g) is SymVal:
                ok = g is w
            else:
                ok = isinstance(g, str) and text_eq(g, w)
            if not ok:
                return "%s is %s, not %s" % (name, brief(g), brief(w))
        if len(res) > 5 and res[5][0] != inp["want"][3]:
            return "expand_tuples is %s but tuples are%s expanded" % (inp["want"][3], "" if res[5][0] else " not")
        return None


def same_style(x, y):
    if x is y:
        return True
    if type(x) is SymVal or type(y) is SymVal:
        return False
    return type(x) is type(y) and x == y or isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and list(x) == list(y)


# ---------------------------------------------------------------------------- C23
SIZES = (16, 32, 64)


@register
class C23(Prop):
    id = "C23"
    bounds = ("9 x 9 style pairs: 16, 32 and 64 repetitions of every part of 2-4 characters (thorough 3-4) over markers, quotes, letters, digits, blanks and "
              "line breaks, after and before every character, alone and around placeholders and escape sequences; of every line and part of 3 characters "
              "with 8 lists of comment styles, also of symbolic markers; 16, 32 and 64 rows, distinct parameters, elements of a tuple")
    assumptions = ["work is counted in steps of the library's statements, calls, regular expressions and of operations that look at every element; a "
                   "count that grows faster than 10 % above proportional is reported when the time the unmodified library takes confirms it (more than "
                   "eight times as long for four times the size)"]

    def jobs(self, tier):
        deep = tier == "thorough"
        js = []
        for a, b in pairs():
            i = INIT[a]
            o = {"keyforms": ["exact"]} if a == "named_oracle" else {}
            fam = FAMILY[a]
            kw = dict(o, **({"numparams": "list", "size": 9} if fam == "numeric" else {}))
            w = {"chars": "".join(sorted(set(i + "%:a1_ \n\"()s\xe9")))}
            c = {"chars": "-/*# \t\nx"}
            P = lambda *x: {"pump": seq(a, *x)}
            # a part of the text that is repeated, and what is around it
            js.append(J("text", a, b, [S(1, w), P(S(3 if deep else 2, w)), S(1, w)], cost=5, **kw))
            js.append(J("part", a, b, [P(S(1, w), ("a", 1), S(1, "few")), S(1, "few")], vals=["T:2"], expand=True, **kw))
            js.append(J("after", a, b, [i, P(S(2, w)), S(2, w)], esc=True, cost=3, **kw))
            js.append(J("esc", a, b, [P(S(1, w), i, S(1, w), ("a", 1))], esc=True, **kw))
            if i == "%" or a == "named_oracle":
                js.append(J("open", a, b, [i + ("(" if i == "%" else '"'), P(S(2, w)), S(1, w)], cost=10, **kw))
            js.append(J("bytes", a, b, [S(1, w), P(S(1, w), ("a", 1), "\xe9")], bytes=True, **kw))
            if a == b or deep:
                js.append(J("long", a, b, [i, P(S(4, w))], cost=20, **kw))
                js.append(J("comment", a, b, [P(S(3, c)), S(2, c)], comments=True, cost=6, **kw))
            if (a, b) in (("named", "qmark"), ("format", "pyformat"), ("numeric_dollar", "named_oracle")) or deep and a == b:
                for k, st in enumerate((["--", "#"], [["/*", "*/"]], [["*", "*"], "-"], [["/*", "*/"], ["#", "-"]])):
                    js.append(J("comment%d" % k, a, b, [P(S(3, c)), S(2, c)], comments=st, cost=6, **kw))
                for k, st in enumerate((True, ["--", "#"], [["/*", "*/"]], [["*", "*"], "-"])):
                    js.append(J("line%d" % k, a, b, [S(1, c), P(S(1, c), "\n", S(2, c))], comments=st, cost=6, **kw))
                js.append(J("markers", a, b, [P(S(1, c), "\n"), S(1, c)], comments=[{"pair": [1, 1]}], cost=4, **kw))
                js.append(J("marker", a, b, [P(S(1, c), S(1, c), "\n"), S(1, c)], comments=[{"sym": 1}], cost=4, **kw))
            # more rows, parameters, elements
            js.append(J("rows", a, b, seq(a, ("a", 1), S(1, "few"), ("b", 2)), pumprows=True, vals=["tup:1-2", "obj"], expand=True, cost=7, **dict(kw, **container_kw(a, 2))))
            if a != "named_oracle":
                for e in (True, False):
                    many = {"numparams": "mapint" if e else "mapstr"} if fam == "numeric" else {}
                    js.append(J("params%s" % e, a, b, [], expand=e, vals=["T:2" if e else "obj"], cost=9, **many))
                    if fam == "named":
                        js[-1]["sql"] = [S(1, "few"), {"pump": ([INIT[a], "p"] if a != "pyformat" else ["%(p"]) + [{"count": 1}] +
                                                       ([")s", S(1, w)] if a == "pyformat" else [S(1, {"chars": " ,)"})])}]
                    elif fam == "numeric":
                        js[-1]["sql"] = [S(1, "few"), {"pump": [INIT[a], {"count": 1}, S(1, {"chars": " ,)"})]}]
                    else:
                        js[-1]["sql"] = [S(1, "few"), P((), S(1, {"chars": " ,)"}))]
            js.append(J("elems", a, b, seq(a, ("a", 1), S(1, "few"), ("a", 1)), pumpelems=True, expand=True, elems=["obj"], cost=8, **kw))
        return js

    def build(self, job):
        inps = []
        for n in SIZES:
            rows = {"rows": n} if job.get("pumprows") else {"vals": ["T:%d" % n]} if job.get("pumpelems") else {}
            inps.append(dict(build(dict(job, n=n, **rows)), pieces=growth.pieces(job)))
        return {"sizes": inps}

    def run(self, lib, inp, job):
        # first a bound from above: the steps of this and of similar inputs
        for exact in (False, True):
            outs = []
            works = []
            for x in inp["sizes"]:
                o, w = work.metered(lambda: harness.run(lib, x, job), exact)
                works.append(w)
                if w is None:
                    break
                outs.append(o)
            self.suspect = growth.superlinear(works)
            if not self.suspect:
                break
        if growth.DEBUG:
            print("   works", works, self.suspect, outs[-1][0] if outs else None)
        return ("ok", outs, works)

    def run_real(self, inp, job):
        if self.suspect is False:
            return ("ok", [harness.run(instrument.real(), x, job) for x in inp["sizes"]], None)
        # confirmed by the time the library takes, in a process of its own
        times = growth.measure(instrument.real(), inp["sizes"], job)
        return ("ok", [], times)

    suspect = None

    def judge(self, inp, out, job):
        m = out[2]
        if m is None:
            return None
        if isinstance(m, dict):
            return growth.verdict(m)
        if growth.superlinear(m):
            return "work for %s repetitions: %s" % (SIZES, m)
        return None
