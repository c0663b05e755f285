import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import warnings


def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply case counts (development)")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--nproc", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"

    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix="vp-check-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    parent = os.getpid()
    try:
        return _main(args, tier, scratch, t0)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(args, tier, scratch, t0):
    from . import core
    sys.path.insert(0, core.REPO)
    import hera_cal
    where = os.path.realpath(hera_cal.__file__)
    if not where.startswith(core.REPO + os.sep):
        print(f"harness error: hera_cal imported from {where}, not {core.REPO}")
        return 2
    import numpy as np
    np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import warm
    warm.quiet()

    if args.replay:
        rec = json.load(open(args.replay))
        mod = importlib.import_module("harness.props." + rec["property"].lower())
        sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
        r = core.replay_cases(sub, rec["history"] if "history" in rec else [rec["case"]], scratch)
        if r is None:
            print(f"replay {args.replay}: property {rec['property']} holds on this case")
            return 0
        print(f"replay: {r[0]}: {r[1]}")
        if r[0] == "violation":
            print(f"VIOLATION property={rec['property']} replay={args.replay}")
            return 1
        return 2

    prop = args.prop.upper()
    mod = importlib.import_module("harness.props." + prop.lower())
    known = load_known(core.VERIF, prop)
    known_keys = {k["key"] for k in known}
    budget = 600.0 if tier == "quick" else 5400.0
    t_end = t0 + budget
    hard_end = t_end + 180.0
    shrink_s = float(os.environ.get("VERIF_SHRINK", 45.0 if tier == "quick" else 240.0))

    jobs = []
    subs = [s for s in mod.SUBS if not args.sub or s.name == args.sub]
    for s in subs:
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(round(n * args.scale)))
        shards = max(1, min(s.shards if tier == "quick" else 8, n))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            seed = core.jobseed(args.seed, prop, s.name, k, tier)
            jobs.append(((s.name, k), _mk(core, s, seed, m, scratch, known_keys, t_end, shrink_s)))
    # longest-declared first is not known; interleave shards of different subs
    jobs.sort(key=lambda j: (j[0][1], j[0][0]))
    results = core.run_jobs(jobs, args.nproc, scratch, hard_end)

    by_name = {s.name: s for s in subs}
    per = collections.OrderedDict()
    nontriv, ev, samples, errors, failures, inconcl = set(), 0, [], [], [], []
    labels = collections.Counter()
    kcount = collections.Counter()
    for (name, k), status, r in results:
        p = per.setdefault(name, dict(cases=0, distinct_nontrivial=0, seconds=0.0, labels=collections.Counter(), nt=set()))
        if status == "ok":
            ev += r["evaluations"]
            p["cases"] += r["evaluations"]
            p["seconds"] += r["seconds"]
            p["nt"] |= r["nontrivial"]
            p["labels"].update(r["labels"])
            kcount.update(r["known"])
            if sum(1 for s in samples if s["sub"] == name) < 2:
                samples.extend(r["samples"][:2])
            if r["skipped"]:
                inconcl.append(f"{name}#{k}: {r['skipped']} cases skipped, time budget reached")
            if r["error"]:
                errors.append((name, r["error"]))
            if r["failure"]:
                failures.append((name, r["failure"]))
        elif status == "timeout":
            inconcl.append(f"{name}#{k}: time limit reached")
        elif status == "crash":
            errors.append((name, str(r)))
    out_fail = []
    for name, f in failures:
        got = core.confirm(by_name[name], f, scratch, shrink_s)
        if got is None:
            errors.append((name, "failure does not replay: " + f["msg"]))
            continue
        cases, msg = got
        rec = dict(property=prop, sub=name, message=msg, seed=args.seed, tier=tier)
        rec.update(dict(case=cases[0]) if len(cases) == 1 else dict(history=cases))
        js = json.dumps(rec, indent=1, sort_keys=True)
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        path = os.path.join(core.VERIF, "replays", f"{prop}-{name}-{hashlib.sha1(core.case_json(cases).encode()).hexdigest()[:10]}.json")
        with open(path, "w") as fh:
            fh.write(js + "\n")
        out_fail.append((name, path, msg))

    for p in per.values():
        p["distinct_nontrivial"] = len(p.pop("nt"))
        p["seconds"] = round(p["seconds"], 2)
        p["labels"] = dict(sorted(p["labels"].items()))
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=ev,
            distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per.values()),
            rule=mod.RULE,
            samples=samples[:12] or [{"note": "no non-trivial case small enough to print"}],
            per_subcheck=per, inconclusive=inconcl, errors=[f"{n}: {e}"[:500] for n, e in errors],
            known_findings_hit=dict(kcount)),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(out_fail))
    if not args.no_evidence:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
            fh.write("\n")
    print(f"{prop} [{tier}, seed {args.seed}]: {ev} cases, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, {wall:.1f} s")
    for name, p in per.items():
        print(f"  {name}: {p['cases']} cases, {p['distinct_nontrivial']} non-trivial, {p['seconds']} cpu-s {p['labels'] if os.environ.get('VERIF_LABELS') else ''}")
    for i in inconcl:
        print("  inconclusive:", i)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for name, path, msg in out_fail:
        print(f"  {name}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
    if out_fail:
        return 1
    if errors:
        for n, e in errors:
            print(f"harness error in {n}: {e[-3000:]}")
        return 2
    return 0


def _noop(*a, **k):
    return None


def load_known(verif, prop):
    p = os.path.join(verif, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]


def _mk(core, s, seed, m, scratch, known_keys, t_end, shrink_s):
    return lambda: core.job(s, seed, m, scratch, known_keys, t_end, shrink_s)


if __name__ == "__main__":
    sys.exit(main())
