"""Runs the jobs of a property: symbolic exploration, counterexample replay
against the real library, cross-checking of every path with a real run."""
import json
import multiprocessing
import os
import sys
import time
import traceback
from . import core, instrument, harness, rt
from .core import Ctx, Model, PathEnd, Budget, CTX
from .values import conc, has_vtext, Obj
from .harness import FixedCtx, guarded

TRACE = bool(os.environ.get("SQLP_TRACE"))


class Prop:
    """A property: jobs(tier), and how a job is built, run and judged."""
    id = None
    steps = False
    known = ()

    def jobs(self, tier):
        raise NotImplementedError

    def build(self, job):
        return harness.build(job)

    def run(self, lib, inp, job):
        return harness.run(lib, inp, job)

    def judge(self, inp, out, job):
        return harness.judge(inp, out, job)

    def run_real(self, inp, job):
        """The real library on concrete inputs."""
        return self.run(instrument.real(), inp, job)

    def known_finding(self, inp, out, job, reason):
        """Identifier of the known finding this violation is, or None."""
        return None

    def replay_real(self, inp, job):
        """Outcome to judge when confirming a counterexample (native inputs)."""
        return self.run_real(inp, job)


class NamedModel(Model):
    __slots__ = ()

    def __init__(self, named):
        Model.__init__(self, dict(named))

    def val(self, v):
        x = self.vals.get(v.name)
        if x is None or x not in v.dom:
            x = self.vals[v.name] = v.dom.first()
        return x


def named_model(m):
    return {v.name: x for v, x in m.vals.items()}


def rebuild(prop, job, model):
    """The concrete inputs a model stands for."""
    old = CTX[0]
    CTX[0] = FixedCtx(model)
    try:
        inp = prop.build(job)
    finally:
        CTX[0] = old
    return _native(lambda: conc(inp, model))


def _native(f):
    old = CTX[0]
    CTX[0] = None
    try:
        return f()
    finally:
        CTX[0] = old


def real_outcome(prop, job, model):
    """(inputs, outcome, verdict) of the real library on a model's inputs."""
    inp = rebuild(prop, job, model)

    def go():
        out = prop.run_real(inp, job)
        return out, prop.judge(inp, out, job)
    out, why = _native(go)
    return inp, out, why


def show(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = "<%s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "..."


def describe(inp):
    if not isinstance(inp, dict):
        return show(inp)
    keep = {k: v for k, v in inp.items() if k not in ("parts", "slots", "shapes", "of")}
    return show(keep, 700)


def run_job(prop, job, seconds, seed=1):
    """Explore one job.  Returns a result record."""
    core._VARS.clear()
    t0 = time.time()
    ctx = Ctx(deadline=t0 + seconds)
    res = {"label": job.get("label", ""), "paths": 0, "judged": 0, "checked": 0, "mismatch": [], "violation": None,
           "known": {}, "errors": [], "samples": []}
    state = {"n": 0}

    def path(c):
        state["n"] += 1
        inp = prop.build(job)
        err = None
        try:
            lib = instrument.load(prop.steps)
            out = prop.run(lib, inp, job)
        except (PathEnd, Budget):
            raise
        except Exception as e:
            if TRACE:
                traceback.print_exc()
            out = ("engine", type(e).__name__ + ": " + str(e)[:200])
        why = None
        if out[0] != "engine":
            try:
                why = prop.judge(inp, out, job)
            except (PathEnd, Budget):
                raise
            except Exception as e:
                if TRACE:
                    traceback.print_exc()
                out = ("engine", "judge: " + type(e).__name__ + ": " + str(e)[:200])
        res["judged"] += 1
        model = c.model
        c.obligations += 1
        # the same input through the real library
        cinp, rout, rwhy = real_outcome(prop, job, model)
        res["checked"] += 1
        if len(res["samples"]) < 2 or why or rwhy:
            res["samples"] = res["samples"][-1:] + [{"input": describe(cinp), "output": show(rout)}]
        if rwhy:
            if _report(prop, job, model, cinp, rout, rwhy, res):
                return True
            c.discharged += 1 if not why else 0
            return False
        agree = out[0] != "engine" and _native(lambda: agrees(prop, conc(out, model), rout))
        if why:
            if not c.path_taint or agree:
                res["mismatch"].append({"why": "spurious: " + why, "input": describe(cinp), "sym": show(out), "real": show(rout)})
            return False
        if not agree:
            if len(res["mismatch"]) < 20:
                res["mismatch"].append({"why": "outcome differs" if out[0] != "engine" else out[1], "input": describe(cinp),
                                        "sym": show(_native(lambda: conc(out, model))), "real": show(rout)})
            return False
        c.discharged += 1
        return False

    done = False
    try:
        done = ctx.explore(path)
    except Exception as e:
        if TRACE:
            traceback.print_exc()
        res["errors"].append(type(e).__name__ + ": " + str(e)[:300] + " @ " + traceback.format_exc()[-400:])
    CTX[0] = None
    res.update(paths=ctx.paths, forks=ctx.forks, queries=ctx.queries, solver_s=ctx.solver_s, complete=bool(done),
               obligations=ctx.obligations, discharged=ctx.discharged, taints=dict(ctx.taints), cut=ctx.cut, unknown=ctx.unknown,
               wall=time.time() - t0)
    return res


def agrees(prop, a, b):
    if a[0] == "ok" and leaks(a[1]):
        return True
    return harness.same_out(a, b)


def leaks(x):
    """Does the outcome contain text made from an opaque value?"""
    if isinstance(x, str):
        return has_vtext(x)
    if isinstance(x, dict):
        return any(leaks(k) or leaks(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(leaks(e) for e in x)
    return False


def _report(prop, job, model, cinp, rout, why, res):
    """A violation confirmed on the real library.  True to stop."""
    k = prop.known_finding(cinp, rout, job, why)
    if k is not None:
        e = res["known"].setdefault(k, {"count": 0, "example": describe(cinp), "why": why})
        e["count"] += 1
        return False
    res["violation"] = {"reason": why, "input": describe(cinp), "output": show(rout, 600), "vars": named_model(model), "job": job}
    return True


# --------------------------------------------------------------------------- pool
_PROP = None


def _init(pid):
    global _PROP
    from . import props
    _PROP = props.PROPS[pid]
    sys.setrecursionlimit(20000)


def _work(args):
    i, job, seconds = args
    try:
        r = run_job(_PROP, job, seconds)
    except BaseException as e:
        r = {"label": job.get("label", ""), "errors": [type(e).__name__ + ": " + str(e)[:200]], "violation": None, "paths": 0,
             "known": {}, "mismatch": [], "samples": [], "judged": 0, "checked": 0, "forks": 0, "queries": 0, "solver_s": 0,
             "complete": False, "obligations": 0, "discharged": 0, "taints": {}, "cut": 0, "unknown": 0, "wall": 0}
        if isinstance(e, KeyboardInterrupt):
            raise
    r["i"] = i
    return r


def run_prop(prop, tier, seconds, per_job, procs=8, stop=True):
    """All jobs of a property on a pool.  Returns (results, unfinished labels)."""
    jobs = prop.jobs(tier)
    t0 = time.time()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
    results = []
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(min(procs, len(jobs)), _init, (prop.id,), maxtasksperchild=12)
    try:
        it = pool.imap_unordered(_work, [(i, jobs[i], per_job) for i in order])
        for _ in range(len(jobs)):
            left = seconds - (time.time() - t0)
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            results.append(r)
            if r["violation"] and stop:
                break
    finally:
        pool.terminate()
        pool.join()
    got = {r["i"] for r in results}
    return jobs, results, [j.get("label", "") for i, j in enumerate(jobs) if i not in got]
