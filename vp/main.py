"""Runner: python -m vp.main <ID> [quick|thorough]   |   python -m vp.main replay <file>"""
import collections
import importlib
import json
import multiprocessing
import os
import re
import resource
import sys
import time
import traceback

from . import env
from .env import HarnessError
from . import plan as P
from .core import Facet, Hang, Rec, Reject, Violation, run_case

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
SHRINK_SECONDS = 25


def load(pid):
    for f in sorted(os.listdir(os.path.join(env.HERE, "vp", "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("vp.checks." + f[:-3])
    raise HarnessError("no check module for %s" % pid)


class _Stop(BaseException):
    pass


def shard(mod, facet, idx, n, seed, out):
    """Generate n cases of one facet; put a result dict on `out`."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    res = {"facet": facet.name, "evals": 0, "rejected": 0, "labels": collections.Counter(),
           "hits": set(), "samples": [], "failure": None, "error": None, "slow": 0.0}
    last = {}

    def one(plan):
        rec = Rec()
        res["evals"] += 1
        t = time.process_time()
        try:
            try:
                run_case(facet, plan, rec)
            finally:
                t = time.process_time() - t
                if t > res["slow"]:
                    res["slow"] = t
                    if t > 15 and os.environ.get("VERIF_SLOW"):
                        sys.stderr.write("%s: %.1f s: %s\n" % (facet.name, t, P.brief(plan, 3000)))
        except Reject:
            res["rejected"] += 1
            return
        except Violation as v:
            last["failure"] = (plan, str(v))
            raise
        except Hang:
            last["failure"] = (plan, "case did not finish within %d s" % facet.case_seconds)
            last["hang"] = True
            raise _Stop()
        if not last:
            for l in rec.labels:
                res["labels"][l] += 1
            if rec.nontrivial:
                d = P.digest(plan)
                if d not in res["hits"]:
                    res["hits"].add(d)
                    k = len(res["hits"])
                    if k in (1, 7, 40) and len(res["samples"]) < 3:
                        res["samples"].append(P.brief(plan))

    try:
        if idx < 0:
            for plan in facet.examples:
                try:
                    one(plan)
                except (Violation, _Stop):
                    break
        else:
            strat = facet.strategy()

            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                      print_blob=False, verbosity=Verbosity.quiet,
                      suppress_health_check=list(HealthCheck))
            @given(strat)
            def test(plan):
                one(plan)
            try:
                test()
            except (HarnessError, hypothesis.errors.FailedHealthCheck, hypothesis.errors.Unsatisfiable):
                raise
            except BaseException:
                if not last:
                    raise
    except BaseException:
        res["error"] = traceback.format_exc()
    if last.get("failure"):
        res["failure"] = last["failure"]
    res["hits"] = list(res["hits"])
    out.put(res)


def _child(mod, facet, idx, n, seed, path):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(3000)

    class Out:
        def put(self, res):
            import pickle
            res["mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
            with open(path + ".tmp", "wb") as f:
                pickle.dump(res, f)
            os.rename(path + ".tmp", path)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    shard(mod, facet, idx, n, seed, Out())


def run(pid, tier, seed):
    import pickle
    import shutil
    import tempfile
    t0 = time.time()
    mod = load(pid)
    # import hypothesis once, before forking
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa
    jobs = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for fi, facet in enumerate(mod.FACETS):
        total = int((facet.thorough if tier == "thorough" else facet.quick * getattr(mod, "QUICK", 2) * (3 if "large" in facet.name else 2)) * scale)
        shards = max(1, min(32 if tier == "thorough" else 8, total // 20))
        if facet.examples:
            jobs.append((facet, -1, 0, 0))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            jobs.append((facet, s, n, seed * 1000003 + fi * 1009 + s))
    order = sorted(range(len(jobs)), key=lambda i: jobs[i][1])  # examples first, interleave facets
    tmp = tempfile.mkdtemp(prefix="vp-")
    ctx = multiprocessing.get_context("fork")
    peak, slow = collections.Counter(), collections.Counter()
    running, done, pending = {}, [], collections.deque(order)
    stop = False
    failures, errors = [], []
    try:
        while pending or running:
            while pending and len(running) < WORKERS and not stop:
                i = pending.popleft()
                facet, idx, n, sd = jobs[i]
                path = os.path.join(tmp, "r%d" % i)
                p = ctx.Process(target=_child, args=(mod, facet, idx, n, sd, path))
                p.start()
                running[i] = (p, path)
            if stop:
                pending.clear()
            time.sleep(0.01)
            for i in list(running):
                p, path = running[i]
                if p.is_alive():
                    continue
                p.join()
                del running[i]
                if not os.path.exists(path):
                    errors.append("worker for facet %s shard %d died with exit code %s" % (
                        jobs[i][0].name, jobs[i][1], p.exitcode))
                    stop = True
                    continue
                with open(path, "rb") as f:
                    r = pickle.load(f)
                done.append(r)
                slow[r["facet"]] = max(slow[r["facet"]], round(r["slow"], 2))
                peak[r["facet"]] = max(peak[r["facet"]], r["mb"])
                if r["failure"]:
                    failures.append(r)
                    stop = True
                elif r["error"]:
                    errors.append(r["error"])
                    stop = True
            if stop and failures:
                # do not wait for the other shards to shrink their own failures
                for p, _ in running.values():
                    p.terminate()
                for p, _ in running.values():
                    p.join()
                running.clear()
                pending.clear()
    finally:
        for p, _ in running.values():
            p.terminate()
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings(pid, mod)
    evals = sum(r["evals"] for r in done)
    hits = set()
    labels = collections.defaultdict(collections.Counter)
    per = collections.defaultdict(lambda: {"evaluations": 0, "nontrivial": 0, "outside_domain": 0})
    samples = []
    for r in done:
        hits.update(r["facet"] + h for h in r["hits"])
        labels[r["facet"]].update(r["labels"])
        per[r["facet"]]["evaluations"] += r["evals"]
        per[r["facet"]]["nontrivial"] += len(r["hits"])
        per[r["facet"]]["outside_domain"] += r["rejected"]
        samples.extend({"facet": r["facet"], "plan": s} for s in r["samples"][:2])
    seen, keep = collections.Counter(), []
    for s in samples:
        if seen[s["facet"]] < 3:
            seen[s["facet"]] += 1
            keep.append(s)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hits),
            "rule": " | ".join("%s: %s" % (f.name, f.rule) for f in mod.FACETS),
            "samples": keep,
            "facets": {k: dict(v, labels=dict(sorted(labels[k].items()))) for k, v in per.items()},
            "known_findings_excluded": known,
            "peak_mb": dict(peak), "slowest_case_s": dict(slow),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(env.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(env.HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    if failures:
        r = min(failures, key=lambda r: len(P.dumps(r["failure"][0])))
        plan, msg = r["failure"]
        os.makedirs(os.path.join(env.HERE, "replays"), exist_ok=True)
        path = os.path.join(env.HERE, "replays", "%s-%s.json" % (pid, P.digest(plan)[:12]))
        with open(path, "w") as f:
            json.dump({"property": pid, "facet": r["facet"], "message": msg,
                       "plan": json.loads(P.dumps(plan))}, f, indent=1)
            f.write("\n")
        print("facet %s: %s" % (r["facet"], msg))
        print("plan: %s" % P.brief(plan, 3000))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        sys.stderr.write("harness error in %s:\n%s\n" % (pid, errors[0]))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, evals, len(hits), time.time() - t0))
    for r in sorted(per):
        print("  %-18s %s" % (r, per[r]))
    return 0


def known_findings(pid, mod):
    """Re-run the listed findings of this property; print one line for each that still fails."""
    path = os.path.join(env.HERE, "known_findings.json")
    n = 0
    if os.path.exists(path):
        with open(path) as f:
            listed = json.load(f)
        for e in listed.get("findings", []):
            if e["property"] != pid:
                continue
            facet = next(f for f in mod.FACETS if f.name == e["facet"])
            try:
                run_case(facet, P._dec(e["plan"]), Rec())
            except (Violation, Hang):
                n += 1
                print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    return n


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    facet = next(f for f in mod.FACETS if f.name == d["facet"])
    try:
        run_case(facet, P._dec(d["plan"]), Rec())
    except Hang:
        print("did not finish")
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    except Violation as v:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("held on this case")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "selftest":
        import hypothesis
        n = 0
        for f in sorted(os.listdir(os.path.join(env.HERE, "vp", "checks"))):
            if re.match(r"c\d\d_.*\.py$", f):
                n += len(importlib.import_module("vp.checks." + f[:-3]).FACETS)
        print("hypothesis %s, docria from %s, %d facets" % (hypothesis.__version__, env.PY, n))
        return 0
    if a[0] == "replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
