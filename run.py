#!/opt/veriftools/pyvenv/bin/python3
"""Check of one property: run.py <id> [quick|thorough], or run.py --replay FILE."""
import glob
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("SQLP_OUT", HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from symex import engine, instrument  # noqa: E402
from symex import props  # noqa: E402


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = props.PROPS[d["property"]]
    inp, out, why = engine.real_outcome(prop, d["job"], engine.NamedModel(d["vars"]))
    print("input:  %s" % engine.describe(inp))
    print("output: %s" % engine.show(out, 2000))
    if why:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("reason: %s" % why)
        return 1
    print("property %s holds on this input" % d["property"])
    return 0


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    prop = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    seconds = float(os.environ.get("SQLP_SECONDS", 600 if tier == "quick" else 6 * 3600))
    per_job = float(os.environ.get("SQLP_JOB_SECONDS", 150 if tier == "quick" else 1800))
    procs = int(os.environ.get("SQLP_PROCS", os.cpu_count() or 8))
    import z3  # noqa: F401  (loaded once, before the workers start)
    jobs, results, unfinished = engine.run_prop(prop, tier, seconds, per_job, procs)
    wall = time.time() - t0

    def total(k):
        return sum(r[k] for r in results)
    taints = {}
    known = {}
    errors = []
    mism = []
    samples = []
    for r in results:
        for k, v in r["taints"].items():
            taints[k] = taints.get(k, 0) + v
        for k, v in r["known"].items():
            e = known.setdefault(k, dict(v, count=0))
            e["count"] += v["count"]
        errors += [(r["label"], e) for e in r["errors"]]
        mism += [(r["label"], e) for e in r["mismatch"]]
        if r["samples"] and len(samples) < 6 and (len(samples) < 2 or r["i"] % 11 == 0):
            samples.append(dict(r["samples"][-1], job=r["label"]))
    incomplete = [r["label"] for r in results if not r["complete"] and not r["violation"]] + unfinished
    bad = [r for r in results if r["violation"]]
    vacuous = [r["label"] for r in results if r["complete"] and not r["judged"]]
    cov = {
        "states": total("paths"),
        "transitions": total("forks"),
        "traces_validated_against_impl": total("checked") - len(mism),
        "samples": samples,
        "jobs": len(jobs),
        "jobs_explored_completely": len(results) - len([r for r in results if not r["complete"]]),
        "paths_undecided": total("obligations") - total("discharged"),
        "solver_queries": total("queries"),
        "solver_seconds": round(total("solver_s"), 2),
        "solver": "z3 " + z3.get_version_string(),
        "solver_unknown": total("unknown"),
        "exhaustive": not incomplete and not taints and not mism and not errors,
        "incomplete_jobs": incomplete[:50],
        "vacuous_jobs": vacuous[:50],
        "concretisations": taints,
        "encoding_disagreements": [dict(e, job=l) for l, e in mism[:10]],
        "errors": ["%s: %s" % x for x in errors[:10]],
        "functions_encoded": functions(),
        "bounds": prop.bounds,
        "known_findings": known,
        "explanation": "states = feasible paths of the instrumented library explored to their end (every one judged by the solver over all "
                       "inputs that follow it), transitions = branch alternatives entered, traces_validated_against_impl = paths whose "
                       "model was also run through the unmodified library with the same outcome",
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": props.ASSUMPTIONS + list(getattr(prop, "assumptions", ())), "wall_s": round(wall, 2),
          "violations": len(bad)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("%s %s: %d jobs (%d complete), %d paths, %d branch alternatives, %d real runs, %d solver queries (%.1f s), %.1f s" % (
        pid, tier, len(results), cov["jobs_explored_completely"], cov["states"], cov["transitions"], total("checked"),
        cov["solver_queries"], cov["solver_seconds"], wall))
    if os.environ.get("SQLP_STATS"):
        by = {}
        for r in results:
            e = by.setdefault(r["label"].split(" ")[0], [0, 0, 0.0, 0.0])
            e[0] += 1
            e[1] += r["paths"]
            e[2] += r["wall"]
            e[3] = max(e[3], r["wall"])
        for k, e in sorted(by.items(), key=lambda x: -x[1][2])[:int(os.environ["SQLP_STATS"])]:
            print("   %-14s %4d jobs %7d paths %8.1f s (longest %.1f s)" % (k, *e))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (e.g. %s)" % (pid, props.KNOWN[k], known[k]["example"]))
    for l, e in errors[:5]:
        print("NOTE: job %s stopped: %s" % (l, e))
    for l, e in mism[:5]:
        print("NOTE: undecided path in job %s: %s\n   input %s\n   encoding %s\n   real     %s" % (l, e["why"], e["input"], e["sym"], e["real"]))
    if vacuous:
        print("NOTE: %d jobs without any input: %s" % (len(vacuous), ", ".join(vacuous[:8])))
    if mism or errors or incomplete or taints:
        print("NOTE: %d undecided paths, %d stopped jobs, %d incomplete jobs, concretisations %s" % (len(mism), len(errors), len(incomplete), taints))
    if bad:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        for old in glob.glob(os.path.join(d, pid + "-*.json")):
            os.remove(old)
        for n, r in enumerate(bad):
            v = r["violation"]
            path = os.path.join(d, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "job": v["job"], "vars": v["vars"], "reason": v["reason"], "input": v["input"],
                           "output": v["output"]}, f, indent=1)
            print("job:    %s" % r["label"])
            print("input:  %s" % v["input"])
            print("output: %s" % v["output"])
            print("reason: %s" % v["reason"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not results or cov["traces_validated_against_impl"] == 0:
        print("ERROR: nothing was decided")
        return 2
    return 0


def functions():
    if not instrument.FUNCTIONS:
        try:
            instrument.load()
        except Exception as e:
            return ["not loadable: %s" % e]
    return {k: v for k, v in instrument.FUNCTIONS.items()}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
