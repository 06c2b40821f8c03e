"""Entry point: python -m harness.main <ID> [--replay FILE] [--workers N] [--scale X]"""

import argparse
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback


def worker(idx, nworkers, mod, tier, seed, scale, outfile, logfile, only):
    from . import core
    fd = os.open(logfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    if getattr(mod, "LIMIT_MEMORY", True):
        resource.setrlimit(resource.RLIMIT_AS, (core.CASE_MEMORY, core.CASE_MEMORY))
    result = {"failures": [], "harness": None}
    ctx = core.Ctx(mod.PROPERTY, tier)
    ctx.known = core.load_known(mod.PROPERTY)
    per_test = {}
    try:
        for test in mod.TESTS:
            if only and test.name not in only:
                continue
            total = int((test.quick if tier == "quick" else test.thorough) * scale)
            n = total // nworkers + (1 if idx < total % nworkers else 0)
            before = (ctx.evaluations, len(ctx.nontrivial), ctx.rejected)
            t0 = time.monotonic()
            s = core.derive_seed(seed, mod.PROPERTY, test.name, idx)
            saved_fixed = test.fixed
            if idx != 0:
                test.fixed = []
            best = core.run_test(test, ctx, s, n)
            test.fixed = saved_fixed
            per_test[test.name] = {"evaluations": ctx.evaluations - before[0],
                                   "nontrivial": len(ctx.nontrivial) - before[1],
                                   "rejected": ctx.rejected - before[2],
                                   "wall_s": round(time.monotonic() - t0, 2)}
            if best is not None:
                result["failures"].append(best)
                break  # one failure is enough; stop this worker
    except core.HarnessError:
        result["harness"] = traceback.format_exc()
    except BaseException:
        result["harness"] = traceback.format_exc()
    result.update(events=ctx.events, evaluations=ctx.evaluations, rejected=ctx.rejected,
                  nontrivial=sorted(ctx.nontrivial), samples=ctx.samples,
                  known_hits=ctx.known_hits, per_test=per_test)
    with open(outfile, "w") as f:
        json.dump(result, f, default=repr)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def replay(mod, path):
    from . import core
    with open(path) as f:
        rec = json.load(f)
    test = next(t for t in mod.TESTS if t.name == rec["test"])
    ctx = core.Ctx(mod.PROPERTY, "quick")
    ctx.known = core.load_known(mod.PROPERTY)
    try:
        core.run_case(test, rec["case"], ctx)
    except (core.Violation, core.Hang) as err:
        traceback.print_exc()
        print(f"reproduced: {err}")
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    print("not reproduced: the property holds for the recorded case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", action="append")
    ap.add_argument("--verbose", action="store_true")
    opt = ap.parse_args()
    t0 = time.monotonic()
    from . import core
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = core.derive_seed(os.environ["VERIF_SEED"])
    tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
    scratch = tempfile.mkdtemp(prefix=f"verif-{opt.prop}-")
    os.chmod(scratch, 0o755)    # for checks that run as an unprivileged user
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        return _main(opt, tier, seed, scratch, t0)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def watch(pids, tier, t0):
    """Wait for the workers. In the quick tier, end those that are stuck."""
    left = set(pids)
    last = time.monotonic()
    while left:
        for pid in list(left):
            if os.waitpid(pid, os.WNOHANG)[0]:
                left.discard(pid)
                last = time.monotonic()
        time.sleep(0.02)
        now = time.monotonic()
        if tier == "quick" and (now - t0 > 780 or (len(left) < len(pids) and now - t0 > 300 and now - last > 200)):
            for pid in left:
                os.kill(pid, signal.SIGKILL)


def _main(opt, tier, seed, scratch, t0):
    from . import core
    prop = opt.prop
    sys.setrecursionlimit(5000)
    mod = importlib.import_module(f"checks.{prop}")
    if opt.replay:
        return replay(mod, opt.replay)
    nworkers = opt.workers or getattr(mod, "WORKERS", None) or min(8, max(1, os.cpu_count() or 1))
    pids = []
    outs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for idx in range(nworkers):
        out = os.path.join(scratch, f"w{idx}.json")
        log = os.path.join(scratch, f"w{idx}.log")
        pid = os.fork()
        if pid == 0:
            try:
                os.environ["VERIF_SCRATCH"] = os.path.join(scratch, f"w{idx}")
                os.mkdir(os.environ["VERIF_SCRATCH"])
                worker(idx, nworkers, mod, tier, seed, opt.scale, out, log, opt.only)
            finally:
                os._exit(9)
        pids.append(pid)
        outs.append((out, log))
    watch(pids, tier, core.STARTED)
    results = []
    harness = []
    for idx, (out, log) in enumerate(outs):
        if not os.path.exists(out):
            tail = ""
            if os.path.exists(log):
                with open(log, errors="replace") as f:
                    tail = f.read()[-3000:]
            harness.append(f"worker {idx} died without a result\n{tail}")
            continue
        with open(out) as f:
            r = json.load(f)
        results.append(r)
        if r["harness"]:
            harness.append(f"worker {idx}: {r['harness']}")
        if opt.verbose and os.path.exists(log):
            with open(log, errors="replace") as f:
                sys.stderr.write(f.read()[-4000:])
    events, per_test, known_hits = {}, {}, {}
    nontrivial = set()
    samples, failures = [], []
    evaluations = rejected = 0
    for r in results:
        evaluations += r["evaluations"]
        rejected += r["rejected"]
        nontrivial.update(r["nontrivial"])
        failures += r["failures"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in r["per_test"].items():
            d = per_test.setdefault(k, {"evaluations": 0, "nontrivial": 0, "rejected": 0, "wall_s": 0})
            for kk, vv in v.items():
                d[kk] = max(d[kk], vv) if kk == "wall_s" else d[kk] + vv
        for s in r["samples"]:
            if len([x for x in samples if x["test"] == s["test"]]) < 2:
                samples.append(s)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "rejected_out_of_domain": rejected,
            "per_test": per_test,
            "distribution": dict(sorted(events.items())),
            "workers": nworkers,
            "known_finding_hits": known_hits,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")
    for kid, e in core.load_known(prop).items():
        if known_hits.get(kid):
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if failures:
        best = min(failures, key=lambda b: b["size"])
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{best['test']}-{core.case_key(best['test'], best['case'])[:10]}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "test": best["test"], "case": best["case"],
                       "message": best["message"]}, f, indent=1, default=repr)
        print(f"{prop}/{best['test']}: {best['message'][:3000]}")
        print("case: " + json.dumps(best["case"], default=repr)[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness:
        print("HARNESS ERROR\n" + "\n".join(harness)[:6000], file=sys.stderr)
        return 2
    print(f"{prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial, "
          f"{rejected} out of domain), seed {seed}, {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
