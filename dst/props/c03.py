"""C03: threads using graphs concurrently get the sequential answers."""

from .. import ops, world
from ..core import Violation
from ..kernel import (HarnessError, Sim, SimAbort, SimDeadlock,
                      StepBudgetExceeded, position, where)

LEVEL = "exploration"
TECHNIQUE = ("seeded search over thread interleavings at the interpreter's "
             "switch points in pygsp code")
NOTE = ("Two or three threads run one at a time; the simulator switches "
        "between them at points chosen by the seed among those where "
        "CPython 3.12 may (function entry, backward jumps, returns from "
        "library calls). Library calls are atomic, as they are for code "
        "that never shares arrays being written.")
RULE = ("A run is two or three threads, each with a list of operations on "
        "one shared graph and its filters (read-only operations), or each "
        "on its own graph (any operation), with 1 to 8 preemptions at "
        "switch points chosen by step or by code site; every result is "
        "compared with the dense model, then everything the graphs answer. "
        "Non-trivial: at least one preemption took place inside pygsp. "
        "Distinctness: hash of the event log, which includes the sequence "
        "of switches.")
STATES = "(code site switched from, code site where the other thread was)"
REAL = "pygsp, NumPy, SciPy, NetworkX, graph-tool; real threads"
STUBS = "thread scheduler; locks created by pygsp"
ASSUMPTIONS = [
    "no thread changes the Laplacian type of a shared graph, nor computes a "
    "partial basis of it, while others use it",
    "no switch happens inside a library call",
]
QUICK = dict(cases=16000, seconds=95, batch=30)
THOROUGH = dict(cases=300000, seconds=780, batch=50)

EXCLUDE = {"laplacian", "partial_basis", "coordinates", "signal", "sparsify",
           "spectrogram"}
SHARED = [n for n in ops.ALL if n not in EXCLUDE]
W = dict(battery=4, full_basis=3, estimate=3, lmax=4, basis=4, filt=6, heat=3, gabor=3,
         structure=3, gft=3, D=2, networkx=2, graphtool=2)


def pick(rng, names):
    return rng.choice([n for n in names for _ in range(W.get(n, 1))])


def gen(rng, i, tier):
    own = rng.random() < .3
    n = rng.choice([2, 2, 3])
    threads, graphs = [], []
    for t in range(n if own else 1):
        spec = world.spec_graph(rng, nmin=4, nmax=9)
        if spec["kind"] == "loops":
            spec["lap"] = "combinatorial"
        graphs.append(spec)
    same = rng.random() < .3
    # One thread inside an operation, the others asking for everything.
    probe = not own and rng.random() < .4
    for t in range(n):
        spec = graphs[t] if own else graphs[0]
        if same and t and not own:
            threads.append([dict(q) for q in threads[0]])
            continue
        if probe and t:
            threads.append([dict(op="battery", p=ops.OPS["battery"].gen(
                rng, spec))])
            continue
        seq = []
        for _ in range(rng.randint(1, 1 if probe else 3)):
            name = pick(rng, ops.ALL if own else SHARED)
            seq.append(dict(op=name, p=ops.OPS[name].gen(rng, spec)))
        threads.append(seq)
    before = []
    if not own:
        for _ in range(rng.choice([0, 0, 0, 0, 0, 1] if probe else
                                  [0, 0, 0, 1, 2, 3])):
            name = rng.choice(SHARED + ["signal", "laplacian", "laplacian",
                                        "signal"])
            before.append(dict(op=name, p=ops.OPS[name].gen(rng,
                                                            graphs[0])))
    if not own and any(q["op"] == "heat" for seq in threads for q in seq):
        # Heat follows lmax, which may change under it, but not by much.
        for q in before + [q for seq in threads for q in seq]:
            if q["op"] == "estimate":
                q["p"] = dict(method="lanczos")
    preempt = [dict(tid=rng.randrange(n), frac=round(rng.random(), 5),
                    by=rng.choice(["step", "site"]), to=rng.randrange(n))
               for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 8]))]
    if probe:
        preempt = preempt[:2]
        preempt[0].update(tid=0, by=rng.choice(["step", "site", "site"]),
                          to=rng.randrange(1, n))
        return dict(graphs=graphs, before=before, threads=threads,
                    preempt=preempt, first=0)
    return dict(graphs=graphs, before=before, threads=threads,
                preempt=preempt, first=rng.randrange(n))


class Execution:
    def __init__(self, case, preempt, record):
        self.case = case
        self.own = len(case["graphs"]) > 1
        self.sim = Sim(preempt=preempt, record=record)
        self.results = [[] for _ in case["threads"]]
        self.slots = [ops.Slot(s) for s in case["graphs"]]
        for k, q in enumerate(case["before"]):
            o = ops.OPS[q["op"]]
            s = self.slots[0]
            if not o.able(s, q["p"]):
                continue
            try:
                r = o.run(s, q["p"])
            except Exception as e:
                raise Violation(f"unexpected-{type(e).__name__}",
                                f"{q['op']} alone: {e}", before=k)
            o.settle(s, q["p"], r)
        if not self.own:
            for s in self.slots:
                s.lmaxes = True

    def slot(self, t):
        return self.slots[t % len(self.slots)]

    def body(self, t):
        def f(th):
            s = self.slot(t)
            for k, q in enumerate(self.case["threads"][t]):
                o = ops.OPS[q["op"]]
                if not o.able(s, q["p"]):
                    self.results[t].append(None)
                    continue
                try:
                    r = o.run(s, q["p"])
                except (SimAbort, HarnessError):
                    raise
                except ops.NOCONV as e:
                    if not o.noconv or not world.genuine(e):
                        self.results[t].append((q, e, k))
                    return
                except Exception as e:
                    self.results[t].append((q, e, k))
                    return
                if self.own:
                    o.settle(s, q["p"], r)
                    try:
                        o.check(s, q["p"], r, dict(thread=t, step=k,
                                                   op=q["op"]))
                    except Violation as v:
                        self.results[t].append((q, v, k))
                        return
                    self.results[t].append(None)
                else:
                    self.results[t].append((q, r, k))
        return f

    def go(self):
        self.sim.run_threads([self.body(t) for t in
                              range(len(self.case["threads"]))],
                             self.case["first"] % len(self.case["threads"]))
        if isinstance(self.sim.abort, SimDeadlock):
            raise Violation("deadlock", str(self.sim.abort))
        if isinstance(self.sim.abort, StepBudgetExceeded):
            raise Violation("no-termination", str(self.sim.abort))


def judge(x, d0):
    for t, rs in enumerate(x.results):
        s = x.slot(t)
        for item in rs:
            if item is None:
                continue
            q, r, k = item
            d = dict(thread=t, step=k, op=q["op"], **d0)
            if isinstance(r, Violation):
                r.detail.update(d0)
                raise r
            if isinstance(r, Exception):
                raise Violation(
                    f"thread-raised-{type(r).__name__}",
                    f"{q['op']}: {type(r).__name__}: {str(r)[:300]}", **d)
            ops.OPS[q["op"]].check(s, q["p"], r, d)
    for s in x.slots:
        d = dict(step="afterwards", **d0)
        try:
            ops.check_state(s, d)
        except (Violation, HarnessError):
            raise
        except ops.NOCONV:
            pass
        except Exception as e:
            raise Violation(f"unusable-{type(e).__name__}",
                            f"afterwards: {type(e).__name__}: {e}", **d)


def run(case, ctx):
    from .. import seams
    n = len(case["threads"])
    if n == 0:
        ctx.trivial = True
        return
    rehearsal = Execution(case, {}, True)
    rehearsal.go()
    judge(rehearsal, dict(schedule="no preemption"))
    seams.seed_entropy(case.get("entropy", 0))
    preempt = {}
    for f in case["preempt"]:
        tid, to = f["tid"] % n, f["to"] % n
        rec = rehearsal.sim.recorded.get(tid, [])
        if not rec:
            continue
        if to == tid:
            to = (to + 1) % n
        preempt[(tid, position(f, rec) + 1)] = to
    x = Execution(case, preempt, False)
    try:
        x.go()
    finally:
        ctx.steps += x.sim.total
    sw = [f"T{a}->T{b} at {w}" for a, b, w in x.sim.switches]
    for line in sw:
        ctx.fault("preemption")
        ctx.log(line)
    at = [None] * n
    for a, b, w in x.sim.switches:
        at[a] = w
        ctx.state((w, at[b]))
    ctx.log("digest", x.sim.digest)
    judge(x, dict(schedule=sw))
    ctx.log([[ops.describe(i[1]) for i in r if i] for r in x.results])
    ctx.probe("threads", n)
    ctx.trivial = not x.sim.switches
