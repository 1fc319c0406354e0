"""Counts the work the code under test does: steps of its own statements and
calls, of the regular expressions it runs, and of the operations that look at
every element of what they are given."""
__symex__ = True
METER = [False]
EXACT = [False]     # no step is counted that only other inputs take
W = [0]
LIMIT = 20000       # 64 repetitions take about half of it at most
MOST = [LIMIT]
COPY = 4            # elements copied at a time


class TooMuch(BaseException):
    """More work than any linear algorithm needs."""


def charge(n):
    W[0] += n
    if METER[0] and W[0] > MOST[0]:
        raise TooMuch


def metered(fn, exact=False):
    """(result of fn, work done), or (None, None) beyond the limit."""
    METER[0] = True
    EXACT[0] = exact
    W[0] = 0
    MOST[0] = LIMIT * (3 if exact else 1)
    try:
        return fn(), W[0]
    except TooMuch:
        return None, None
    finally:
        METER[0] = EXACT[0] = False


def size(x):
    try:
        return len(x)
    except TypeError:
        return 0


def counted(it):
    """The iterator of a comprehension, one step for each element."""
    if not METER[0]:
        return it
    return _count(iter(it))


def _count(it):
    for x in it:
        charge(1)
        yield x


_MOVE = {"insert", "pop", "copy", "extend", "reverse", "appendleft", "__getitem__"}
_SCAN = {"index", "count", "remove", "sort"}
_LIGHT = {"startswith", "endswith", "format", "join"}


def before(s, name, a):
    """A native method, before it runs."""
    if isinstance(s, str) or isinstance(s, bytes):
        return
    if isinstance(s, list):
        if name in _SCAN:
            charge(len(s))
        elif name == "insert" or name == "pop" and a:
            try:
                charge(abs(len(s) - (a[0] if a[0] >= 0 else len(s) + a[0])) // COPY)
            except TypeError:
                charge(len(s) // COPY)
        elif name in _MOVE:
            charge(size(a[0]) if a else len(s))
    elif isinstance(s, (dict, set, frozenset)):
        if name in ("copy", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            charge(len(s))
        elif name in ("update", "difference_update", "intersection_update") and a:
            charge(size(a[0]))


def after(s, name, a, r):
    """A method of a text or bytes, after it ran."""
    n = len(s)
    if name in ("find", "index"):
        lo = a[1] if len(a) > 1 and type(a[1]) is int else 0
        lo = max(0, lo + n if lo < 0 else lo)
        hi = a[2] if len(a) > 2 and type(a[2]) is int else n
        charge((r if type(r) is int and r >= 0 else min(hi, n)) - min(lo, n))
    elif name in ("rfind", "rindex"):
        charge(n - (r if type(r) is int and r >= 0 else 0))
    elif name in ("partition", "rpartition"):
        charge(n // COPY + len(r[0 if name == "partition" else 2]))
    elif name in ("startswith", "endswith"):
        charge(1)
    elif name in ("join", "format", "format_map"):
        charge(size(r) // COPY)
    elif name in ("split", "rsplit", "replace", "count", "translate", "splitlines"):
        charge(n)
    else:
        charge(n // COPY)
