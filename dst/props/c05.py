"""C05: seeded generation is reproducible and isolated."""

import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import boot
from .. import generators as gens
from ..core import Violation
from ..kernel import (HarnessError, Sim, SimAbort, SimDeadlock,
                      StepBudgetExceeded, position, where)

LEVEL = "exploration"
TECHNIQUE = ("seeded search over histories, thread interleavings and hash "
             "seeds, with every random stream owned by the simulator")
NOTE = ("Each generation is done alone, then again after a random history "
        "while other threads generate, draw from the global streams and "
        "reseed them, with the entropy of unseeded generators changed; some "
        "runs repeat it in another process, in another order, with another "
        "hash seed. Results are compared bit by bit.")
RULE = ("A run is one to three seeded generations (graph, layout, "
        "sparsification) in a thread, zero to two other threads generating "
        "variants of them, unseeded graphs or global random numbers, with 0 "
        "to 6 preemptions; or two processes generating the same list in "
        "different orders. Non-trivial: something else happened between the "
        "two generations compared. Distinctness: hash of the event log.")
STATES = "(kind of generation, what interfered)"
REAL = "pygsp, NumPy, SciPy; real threads and processes"
STUBS = "thread scheduler; seeds of unseeded generators; locks of pygsp"
ASSUMPTIONS = ["the same machine and libraries"]
QUICK = dict(cases=5000, seconds=100, batch=25)
THOROUGH = dict(cases=200000, seconds=780, batch=50)

EVERY = 600    # one run in so many uses other processes
OTHERS = ["generate", "variant", "variant", "unseeded", "npglobal",
          "pyglobal", "npseed", "pyseed"]


def gen_other(rng, targets):
    k = rng.choice(OTHERS)
    q = dict(do=k)
    if k == "generate":
        q["spec"] = gens.gen(rng)
    elif k == "variant":
        q["spec"] = gens.variant(rng, rng.choice(targets))
    elif k == "unseeded":
        q["spec"] = gens.gen(rng, rng.choice(
            [x for x in gens.KINDS if x != "sparsify"]), seeded=False)
    elif k in ("npseed", "pyseed"):
        q["seed"] = rng.choice([0, 1, 5])
    return q


def gen(rng, i, tier):
    if i % EVERY == 17:
        specs = []
        for _ in range(14):
            specs.append(gens.gen(rng))
            specs.append(gens.variant(rng, specs[-1]))
        return dict(processes=specs, order=rng.getrandbits(32),
                    hashseed=rng.randint(1, 4000))
    targets = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = gens.gen(rng)
        q = dict(do="generate", spec=s)
        if s["kind"] in ("layout", "sparsify"):
            q["before"] = [rng.choice(gens.TOUCH)
                           for _ in range(rng.choice([0, 1, 2, 3]))]
        targets.append(q)
    specs = [q["spec"] for q in targets]
    before = [gen_other(rng, specs) for _ in range(rng.choice([0, 1, 2, 4]))]
    threads = [targets]
    for _ in range(rng.choice([0, 1, 1, 2])):
        threads.append([gen_other(rng, specs)
                        for _ in range(rng.randint(1, 4))])
    preempt = [dict(tid=rng.randrange(len(threads)),
                    by=rng.choice(["step", "place"]), frac=round(rng.random(), 5),
                    to=rng.randrange(len(threads)))
               for _ in range(rng.choice([0, 2, 3, 4, 6]))]
    return dict(targets=targets, threads=threads[1:], before=before,
                preempt=preempt)


def digest(spec):
    return gens.digest(gens.make(spec), spec["kind"])


class Globals:
    """The global streams, as they should be."""

    def __init__(self, seed):
        np.random.seed(seed)
        random.seed(seed)
        self.np = np.random.mtrand._rand.__class__(seed)
        self.py = random.Random(seed)

    def check(self, d):
        a, b = np.random.get_state(), self.np.get_state()
        if not (a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:]) or \
                random.getstate() != self.py.getstate():
            raise Violation("global-stream-disturbed",
                            "a global random stream was drawn from or "
                            "reseeded", **d)


def act(q, g):
    k = q["do"]
    if k == "npglobal":
        a, b = np.random.uniform(size=3), g.np.uniform(size=3)
        if (a != b).any():
            raise Violation("global-stream-disturbed",
                            f"numpy's global stream gives {a}, not {b}")
    elif k == "pyglobal":
        a, b = random.random(), g.py.random()
        if a != b:
            raise Violation("global-stream-disturbed",
                            f"the global stream gives {a}, not {b}")
    elif k == "npseed":
        np.random.seed(q["seed"])
        g.np.seed(q["seed"])
    elif k == "pyseed":
        random.seed(q["seed"])
        g.py.seed(q["seed"])
    else:
        return gens.digest(gens.make(q["spec"], q.get("before", ())),
                           q["spec"]["kind"])


def lists(case):
    return [case["targets"]] + case["threads"]


class Execution:
    def __init__(self, case, entropy, preempt, record, before):
        from .. import seams
        self.case = case
        seams.seed_entropy(entropy)
        self.g = Globals(entropy % 1000)
        self.results = []
        self.errors = []
        self.sim = Sim(preempt=preempt, record=record)
        if before:
            for q in case["before"]:
                act(q, self.g)

    def body(self, t):
        def f(th):
            for q in lists(self.case)[t]:
                try:
                    r = act(q, self.g)
                except (SimAbort, HarnessError):
                    raise
                except Violation as v:
                    self.errors.append(v)
                    return
                except Exception as e:
                    self.errors.append(Violation(
                        f"unexpected-{type(e).__name__}",
                        f"{q}: {type(e).__name__}: {str(e)[:300]}"))
                    return
                if t == 0:
                    self.results.append(r)
        return f

    def go(self):
        self.sim.run_threads([self.body(t) for t in
                              range(len(lists(self.case)))])
        if isinstance(self.sim.abort, (SimDeadlock, StepBudgetExceeded)):
            raise Violation("no-termination", str(self.sim.abort))
        if self.errors:
            raise self.errors[0]
        self.g.check({})


def run_processes(case, ctx):
    specs = case["processes"]
    here = [digest(s) for s in specs]
    order = list(range(len(specs)))
    random.Random(case["order"]).shuffle(order)
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]),
               DST_BOOTED="1")
    r = subprocess.run(
        [sys.executable, "-m", "dst.props.c05"], env=env, cwd=boot.VERIF,
        input=json.dumps([specs[k] for k in order]), capture_output=True,
        text=True, timeout=150)
    if r.returncode:
        raise HarnessError(r.stderr[-2000:])
    there = json.loads(r.stdout.splitlines()[-1])
    for k, d in zip(order, there):
        ctx.log(k, d)
        ctx.state((specs[k]["kind"], "process"))
        if here[k] != d:
            raise Violation("differs-between-processes",
                            f"{specs[k]} is not the same in another process",
                            kind=specs[k]["kind"])
    ctx.fault("other process and hash seed")
    ctx.probe("generations compared", len(specs))


def run(case, ctx):
    if "processes" in case:
        return run_processes(case, ctx)
    n = len(lists(case))
    alone = Execution(case, 1, {}, True, before=False)
    alone.go()
    preempt = {}
    for f in case["preempt"]:
        tid, to = f["tid"] % n, f["to"] % n
        rec = alone.sim.recorded.get(tid, [])
        if rec and to != tid:
            preempt[(tid, position(f, rec) + 1)] = to
    x = Execution(case, case.get("entropy", 0) or 3, preempt, False, True)
    try:
        x.go()
    finally:
        ctx.steps += alone.sim.total + x.sim.total
    for a, b, w in x.sim.switches:
        ctx.fault("preemption")
        ctx.log(f"T{a}->T{b} at {w}")
    ctx.log("digest", x.sim.digest, *x.results)
    others = sorted({q["do"] for t in [case["before"]] + case["threads"]
                     for q in t})
    for q, a, b in zip(case["targets"], alone.results, x.results):
        spec = q["spec"]
        for o in others:
            ctx.state((spec["kind"], o))
        if a != b:
            raise Violation("not-reproducible", f"{spec} gives something "
                            "else the second time", kind=spec["kind"])
        # (an integer is an integer, also NumPy's)
        clean = digest(dict(spec, seed=np.int64(spec["seed"])))
        if clean != a:
            raise Violation("not-reproducible", f"{spec} depends on the "
                            "history of the graph", kind=spec["kind"])
        ctx.probe("generations compared")
    # Four other seeds cannot all give the same.
    spec = case["targets"][0]["spec"]
    others4 = {digest(dict(spec, seed=s))
               for s in gens.SEEDS[:5]}
    if len(others4) == 1:
        raise Violation("seed-ignored", f"{spec} is the same for every seed",
                        kind=spec["kind"])
    ctx.trivial = not (others or x.sim.switches)


def main():
    boot.load()
    specs = json.load(sys.stdin)
    print(json.dumps([digest(s) for s in specs]))


if __name__ == "__main__":
    main()
