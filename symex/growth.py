"""Growth of work with the size of the input, and of time to confirm it."""
import ctypes
import gc
import json
import os
import resource
import select
import signal
import time
from . import harness

__symex__ = True
SLACK = 40
DEBUG = bool(os.environ.get("SQLP_GROWTH"))


def superlinear(works):
    """Does the work for n, 2n and 4n repetitions grow faster than in proportion?"""
    if None in works:
        return True
    a, b, c = works
    return (c - b) - 2 * (b - a) > SLACK + (c - b) // 10


# --------------------------------------------------------------------------- time
def enlarge(inps, job, n):
    """The inputs for n repetitions, continued from those for 16, 32 and 64."""
    small, big = inps[1], inps[2]
    out = dict(big)
    if job.get("pumprows"):
        ps = big["params"]
        k = max(1, n // len(ps))
        out.update(params=[p for p in ps for _ in range(k)], many=k * len(ps))
        return out
    out["sql"] = text(big["pieces"], n)
    ps = []
    for p, q in zip(small["params"], big["params"]):
        ps.append(stretched(p, q, n))
    out["params"] = ps
    return out


def pieces(job, name="q"):
    """The parts of the query of a job, also those that are repeated."""
    out = []
    for i, s in enumerate(job["sql"]):
        if isinstance(s, dict) and "pump" in s:
            out.append([x["count"] if isinstance(x, dict) and "count" in x else harness.segment("%s%d_%d" % (name, i, j), x)
                        for j, x in enumerate(s["pump"])])
        else:
            out.append(harness.segment("%s%d" % (name, i), s))
    return out


def text(parts, n):
    return "".join(p if isinstance(p, str) else "".join(str(w + i) if type(w) is int else w for i in range(n) for w in p) for p in parts)


def stretched(p, q, n):
    """Parameters for n repetitions."""
    if len(q) <= len(p):
        if isinstance(q, dict):
            return {k: stretched_value(p.get(k), v, n) for k, v in q.items()}
        return [stretched_value(x, v, n) for x, v in zip(p, q)]
    per = (len(q) - len(p)) / 32
    m = len(q) + int(per * (n - 64)) + 1
    if isinstance(q, list):
        return (q * (m // len(q) + 1))[:max(m, len(q))]
    d = dict(q)
    keys = list(q)
    for i in range(len(q), m):
        d[more(keys, i)] = q[keys[i % len(keys)]]
    return d


def stretched_value(x, v, n):
    if type(v) is tuple and type(x) is tuple and len(v) > len(x):
        m = len(v) * n // 64
        return (v * (m // len(v) + 1))[:m]
    return v


def more(keys, i):
    """The i-th key of a mapping whose keys end in their number."""
    k = keys[-1]
    if isinstance(k, int):
        return i + keys[0]
    num = len(k) - len(k.rstrip("0123456789"))
    first = int(keys[0][len(keys[0].rstrip("0123456789")):] or 0)
    return k[:len(k) - num] + str(i + first)


def measure(lib, inps, job, limit=25.0):
    """CPU seconds by repetitions, measured in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            # it ends with its parent, and keeps none of its files open
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            resource.setrlimit(resource.RLIMIT_CPU, (int(limit) + 5, int(limit) + 5))
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            _child(lib, inps, job, w)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + limit
    dead = False
    while True:
        left = end - time.time()
        if left <= 0:
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 65536)
            if not d:
                dead = True
                break
            buf += d
    if not dead:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(r)
    lines = [json.loads(x) for x in buf.decode().split("\n")[:-1]]
    return {"times": lines, "finished": dead}


def _child(lib, inps, job, w):
    gc.disable()

    def once(n):
        inp = enlarge(inps, job, n)
        size = max(len(inp["sql"]), inp["many"])
        conv = harness.make(lib, inp["cfg"])
        sql = inp["sql"]
        ps = inp["params"]
        t = time.process_time()
        try:
            if inp["many"]:
                conv.formatmany(sql, ps)
            else:
                conv.format(sql, ps[0])
        except Exception:
            pass
        t = time.process_time() - t
        gc.collect()
        return t, size

    def say(n, t):
        os.write(w, (json.dumps([n, round(t, 5)]) + "\n").encode())
    n = 1
    while True:
        t, size = once(n)
        say(n, t)
        if t > 0.04 or size > 3000000:
            break
        n *= 2
    for k in (1, 2, 4):
        say(k * n, min(once(k * n)[0] for _ in range(3 if t < 0.5 else 1)))


def verdict(m):
    """None, or why the times are no linear growth."""
    ts = m["times"]
    if not m["finished"]:
        if ts and ts[-1][1] < 1.0:
            return "no result within 25 s for %d repetitions (%d: %.3f s)" % (2 * ts[-1][0], *ts[-1])
        ts = [t for t in ts if t[1] > 0.002]
        if len(ts) >= 3 and ts[-1][1] > 2.8 * ts[-2][1] > 2.8 * 2.8 * ts[-3][1]:
            return "time grows faster than the input: %s" % ts[-3:]
        return None
    (n, a), (_, b), (_, c) = ts[-3:]
    if a > 0.02 and b > 2.7 * a and c > 2.7 * b and c > 8 * a:
        return "time grows faster than the input: %s repetitions take %.3f s, %s %.3f s, %s %.3f s" % (n, a, 2 * n, b, 4 * n, c)
    return None
