"""Command line: run the check of one property, or replay a violation.

    python dst/run.py C01 [--tier quick|thorough] [--seed N]
    python dst/run.py --replay FILE
    python dst/run.py C01 --strict   (fail if runs are not repeatable)
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from dst import boot  # noqa: E402

boot.reexec()

import argparse  # noqa: E402
import collections  # noqa: E402
import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402

from dst import core  # noqa: E402

FINDINGS = os.path.join(boot.VERIF, "known_findings.json")


def known_findings(prop):
    with open(FINDINGS) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def matches(finding, violation):
    return finding["key"] == violation["key"] and all(
        violation["detail"].get(k) == v
        for k, v in finding.get("detail", {}).items())


def module(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def replay(path):
    with open(path) as f:
        data = json.load(f)
    mod = module(data["property"])
    boot.load()
    if hasattr(mod, "prepare"):
        mod.prepare()
    if data["violation"]["key"].startswith(("process-died", "no-progress")):
        # (in a process of its own)
        res = core.evaluate(mod, data["prefix"] + [data["case"]], timeout=60)
        v = (res or {}).get("violation")
        if v is None:
            print("no violation")
            return 0
        print(f"key={v['key']}")
        print(v["message"])
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    for case in data["prefix"]:
        core.run_case(mod, case)
    v, ctx = core.run_case(mod, data["case"], verbose=True)
    for line in ctx.trace:
        print("  ", line)
    if v is None:
        print("no violation")
        return 0
    print(f"key={v.key}")
    print(v.message)
    for k, x in v.detail.items():
        print(f"  {k}: {x}")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true",
                    help="only check that everything can be imported")
    ap.add_argument("--workers", type=int,
                    default=int(os.environ.get("DST_WORKERS", "0"))
                    or os.cpu_count() or 4)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--only", type=int, help="run this single case")
    ap.add_argument("--digests", help="write the digest of every case here")
    ap.add_argument("--strict", action="store_true",
                    help="fail when the simulation is not deterministic")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.setup:
        boot.load()
        print("pygsp imported and instrumented")
        return 0

    t0 = time.monotonic()
    prop, seed, tier = args.property, args.seed, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = module(prop)
    print(f"property={prop} tier={tier} VERIF_SEED={seed} "
          f"workers={args.workers}", flush=True)
    boot.load()
    if hasattr(mod, "prepare"):
        mod.prepare()
    conf = dict(mod.QUICK if tier == "quick" else mod.THOROUGH)
    n_cases = args.cases or conf["cases"]
    seconds = args.seconds or conf["seconds"]
    batch = conf.get("batch", 25)

    def make(i):
        rng = core.case_rng(seed, prop, i)
        case = mod.gen(rng, i, tier)
        case.setdefault("entropy", rng.getrandbits(32))
        return case

    if args.only is not None:
        case = make(args.only)
        print(json.dumps(case))
        v, ctx = core.run_case(mod, case, verbose=True)
        for line in ctx.trace:
            print("  ", line)
        print(dict(ctx.counts), dict(ctx.faults), ctx.steps)
        print("violation:", v, v.detail if v else "")
        return int(v is not None)

    # Known findings: the very inputs recorded must still fail, or are silent.
    findings = known_findings(prop)
    for k in findings:
        res = core.evaluate(mod, [k["case"]])
        if res is None or "error" in res:
            print("ERROR: known finding could not be evaluated",
                  res and res["error"])
            return 2
        if "violation" in res and matches(k, res["violation"]):
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")

    counts, faults = collections.Counter(), collections.Counter()
    states, digests = set(), {}
    violations, errors, suppressed = [], [], collections.Counter()
    totals = collections.Counter()

    def on_result(res, child):
        if "error" in res:
            errors.append(res)
            return
        totals["evaluations"] += 1
        totals["steps"] += res["steps"]
        counts.update(res["counts"])
        faults.update(res["faults"])
        if not res["trivial"]:
            totals["nontrivial"] += 1
            digests[res["i"]] = res["digest"]
        states.update(res["states"])
        if "violation" in res:
            for k in findings:
                if matches(k, res["violation"]):
                    suppressed[k["id"]] += 1
                    return
            violations.append((res, child))

    def batches():
        for start in range(0, n_cases, batch):
            yield [(i, (lambda i=i: make(i)))
                   for i in range(start, min(start + batch, n_cases))]

    pool_errors = core.pool(
        mod, batches(), args.workers, on_result, deadline=t0 + seconds,
        stop=lambda: bool(violations) or len(errors) > 3)

    # Whole batches again, in other processes and with another number of
    # workers: the event logs must agree, case by case.
    recheck = {}
    if not violations and not errors and not pool_errors:
        starts = sorted({i - i % batch for i in digests})
        starts = starts[::max(1, len(starts) // 3)][:3]

        def on_again(res, child):
            if "error" in res:
                errors.append(res)
            else:
                recheck[res["i"]] = res["digest"]

        core.pool(mod, ([(i, (lambda i=i: make(i)))
                         for i in range(s, min(s + batch, n_cases))
                         if i - s < conf.get("recheck", batch)]
                        for s in starts), 2, on_again,
                  stop_on_violation=False)
    mismatches = [i for i in recheck
                  if i in digests and recheck[i] != digests[i]]

    if args.digests:
        with open(args.digests, "w") as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f)

    status, replay_path = 0, None
    if violations:
        status = 1
        violations.sort(key=lambda rc: rc[0]["i"])
        res, child = violations[0]
        v, case = res["violation"], res["case"]
        print(f"case {res['i']}: {v['key']}: {v['message']}")
        prefix = []
        again = core.evaluate(mod, [case], timeout=60)
        if not (again and again.get("violation", {}).get("key") == v["key"]):
            # Needs what earlier cases left in the process.
            prefix = [make(i) for i, _ in child.items if i < res["i"]]
            again = core.evaluate(mod, prefix + [case], timeout=60)
        reproduced = bool(
            again and again.get("violation", {}).get("key") == v["key"])
        if reproduced:
            prefix, case = core.shrink(mod, prefix, case, v["key"],
                                       args.workers, conf.get("shrink", 60))
            final = core.evaluate(mod, prefix + [case], timeout=60)
            if final and "violation" in final:
                v = final["violation"]
        name = hashlib.sha256(json.dumps(
            [prefix, case], sort_keys=True).encode()).hexdigest()[:12]
        os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(boot.VERIF, "replays",
                                   f"{prop}-{name}.json")
        with open(replay_path, "w") as f:
            json.dump(dict(property=prop, seed=seed, case_index=res["i"],
                           violation=v, prefix=prefix, case=case,
                           reproduced=reproduced), f, indent=1)
        env = {k: x for k, x in os.environ.items() if k != "DST_BOOTED"}
        try:
            p = subprocess.run(
                [boot.PYTHON, os.path.join(HERE, "run.py"), "--replay",
                 replay_path], env=env, capture_output=True, text=True,
                timeout=120)
            confirmed = p.returncode == 1 and f"key={v['key']}" in p.stdout
        except subprocess.TimeoutExpired:
            confirmed = False
        print(f"minimised: {json.dumps(case)[:2000]}")
        print(f"{v['key']}: {v['message']}")
        print(json.dumps(v["detail"], indent=1)[:4000])
        print(f"reproduced={reproduced} replay_confirmed={confirmed}")
    wall = time.monotonic() - t0

    if not args.no_evidence:
        samples = [make(i) for i in range(0, n_cases,
                                          max(1, n_cases // 3))][:3]
        samples = [s if len(json.dumps(s)) < 3000 else
                   json.dumps(s)[:3000] + "..." for s in samples]
        cov = dict(
            evaluations=totals["evaluations"],
            distinct_nontrivial=len(set(digests.values())),
            rule=mod.RULE,
            samples=samples,
            distinct_states=len(states),
            state_measure=mod.STATES,
            simulated_steps=totals["steps"],
            time_unit="switch points passed in pygsp code; the code under "
                      "test has no clock or timer",
            faults_injected=dict(sorted(faults.items())),
            probes=dict(sorted(counts.items())),
            runs_per_hour=int(totals["evaluations"] / max(wall, 1e-9) * 3600),
            seeds=[f"{seed}:{prop}:{i}" for i in (0, n_cases - 1)],
            planned_cases=n_cases,
            real_components=mod.REAL,
            stubbed_components=mod.STUBS,
            determinism_rechecked=len(recheck),
            determinism_mismatches=len(mismatches),
            known_findings_hit=dict(suppressed),
        )
        ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
                  coverage=cov, wall_s=round(wall, 2),
                  violations=len(violations),
                  assumptions=mod.ASSUMPTIONS)
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(boot.VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    print(f"runs={totals['evaluations']} distinct={len(set(digests.values()))}"
          f" states={len(states)} steps={totals['steps']} "
          f"faults={dict(faults)} wall={wall:.1f}s")
    print("probes", dict(sorted(counts.items())))
    if mismatches:
        print(f"WARNING: determinism mismatches: {mismatches}")
    if violations:
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
        return 1
    if errors or pool_errors:
        for e in errors[:3]:
            print("HARNESS ERROR case", json.dumps(e["case"])[:3000])
            print(e["error"])
        for e in pool_errors:
            print("HARNESS ERROR", e)
        return 2
    if mismatches and args.strict:
        print("HARNESS ERROR: the simulation is not deterministic")
        return 2
    minimum = conf.get("min_cases", n_cases // 100)
    if totals["evaluations"] < minimum:
        print(f"HARNESS ERROR: only {totals['evaluations']} runs in time")
        return 2
    print("ok")
    return status


if __name__ == "__main__":
    # Everything written goes there, even by workers that are killed.
    scratch = tempfile.mkdtemp(prefix="dst-")
    tempfile.tempdir = os.environ["TMPDIR"] = scratch
    try:
        rc = main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
