"""C15: every log message is emitted exactly once."""

import collections
import io
import logging
import os
import sys
import threading

import numpy as np

from .. import boot, kernel, seams, world
from ..core import Violation
from ..kernel import Sim, SimAbort, SimDeadlock, StepBudgetExceeded

LEVEL = "exploration"
TECHNIQUE = ("seeded search over interleavings of the first uses of the "
             "loggers in programs started anew, with interrupts and failing "
             "streams")
NOTE = ("Every run imports the package again, as a program that starts, with "
        "no logger of it existing yet. One to three threads use it at once; "
        "the simulator switches between them, and interrupts them, inside "
        "the functions that build and use the loggers. Then everything is "
        "used again by one thread.")
RULE = ("A run is a program with 1 to 3 threads of 1 to 4 operations that "
        "log, 0 to 6 preemptions and possibly one interrupt at switch points "
        "chosen by the seed, what the user did with the logging hierarchy "
        "(handlers, levels, propagation) before and after the import, and "
        "possibly a stream that fails. Non-trivial: a preemption or an "
        "interrupt took place inside pygsp, or a stream failed. "
        "Distinctness: hash of the event log.")
STATES = "(code site switched from, code site where the other thread was)"
REAL = "pygsp, logging, NumPy, SciPy; real threads"
STUBS = ("thread scheduler; locks created by pygsp; interrupts; the "
         "streams that handlers write to")
ASSUMPTIONS = [
    "modules are imported by one thread",
    "no switch happens inside a library call, nor inside logging itself, "
    "which has locks of its own",
]
QUICK = dict(cases=3000, seconds=110, batch=60)
THOROUGH = dict(cases=300000, seconds=780, batch=100)

OPS = ["negative", "negative", "loops", "community", "community", "regular",
       "basis", "D", "lmax", "plain", "plain", "linegraph", "inverse",
       "pyramid", "build", "build", "build", "components", "disconnected",
       "nn", "irregular", "center", "bounds", "ill", "eps",
       "sparsify", "list"]


def gen(rng, i, tier):
    threads = []
    n = rng.choice([1, 2, 2, 2, 3])
    same = rng.random() < .4
    for t in range(n):
        if same and t:
            threads.append([dict(q) for q in threads[0]])
            continue
        threads.append([dict(op=rng.choice(OPS), k=rng.randrange(2),
                             seed=rng.getrandbits(16))
                        for _ in range(rng.randint(1, 4))])
    preempt = [dict(tid=rng.randrange(n), to=rng.randrange(n),
                    # (a window as short as the construction of a logger
                    # is likely among the first steps)
                    near=rng.random() < .7, frac=round(rng.random(), 5))
               for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]) if n > 1
                              else 0)]
    user = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        user.append(dict(
            what=rng.choice(["handler", "handler", "level", "propagate"]),
            on=rng.choice(["", "pygsp", "pygsp.graphs", "pygsp.graphs.graph",
                           "pygsp.graphs.fourier"]),
            level=rng.choice([0, 10, 30, 40]),
            when=rng.choice(["before", "after"])))
    case = dict(threads=threads, preempt=preempt, user=user,
                first=rng.randrange(n))
    if rng.random() < (.2 if n > 1 else .8):
        case["faults"] = [dict(tid=rng.randrange(n),
                               near=rng.random() < .7,
                               frac=round(rng.random(), 5))]
    if rng.random() < .3:
        case["redirect"] = True
    if rng.random() < .15:
        case["broken"] = rng.randint(1, 4)
    return case


class Interrupt(KeyboardInterrupt):
    pass


# --------------------------------------------------------------- the listeners

class Listener(logging.Handler):
    """A handler of the user."""

    def __init__(self, level):
        super().__init__(level)
        self.got = collections.Counter()

    def emit(self, record):
        self.got[id(record)] += 1


class Console(io.StringIO):
    """Standard error of the program, which may fail."""

    def __init__(self, broken=None):
        super().__init__()
        self.broken = broken
        self.writes = 0

    def write(self, text):
        self.writes += 1
        if self.broken is not None and self.writes % self.broken == 0:
            raise OSError("simulated: the pipe is broken")
        return super().write(text)


class Program:
    """The logging of one program, observed."""

    def __init__(self, case, start):
        self.case = case
        self.records = []          # every record made, in order
        self.by_thread = collections.defaultdict(list)
        self.emitted = collections.defaultdict(list)  # record -> handlers
        self.listeners = []        # (logger name, listener)
        self.levels, self.mute, self.taken = {}, set(), set()
        self.console = Console(case.get("broken"))
        self.user("before")
        self.p = start()
        self.user("after")

    def user(self, when):
        for u in self.case["user"]:
            if u["when"] != when:
                continue
            lg = logging.getLogger(u["on"] or None)
            if u["what"] == "handler":
                h = Listener(u["level"])
                if not lg.handlers:
                    # The user takes the logger over before the package
                    # builds it: the package need not add its own handler.
                    self.taken.add(u["on"])
                lg.addHandler(h)
                self.listeners.append((u["on"], h))
            elif u["what"] == "level" and u["on"] and when == "after":
                lg.setLevel(u["level"] or 10)
                # (the package chooses the level of a logger it builds)
                if lg.handlers:
                    self.levels[u["on"]] = u["level"] or 10
            elif u["what"] == "propagate" and u["on"]:
                lg.propagate = False
                self.mute.add(u["on"])

    def saw(self, record):
        self.records.append(record)
        self.by_thread[threading.get_ident()].append(record)


def watch_logging(get):
    """Patches logging so that Program sees every record and emission."""
    make = logging.Logger.makeRecord
    emit = logging.StreamHandler.emit

    def makeRecord(logger, *args, **kwargs):
        r = make(logger, *args, **kwargs)
        if get() is not None and logger.name.split(".")[0] in ("pygsp",
                                                               "sim"):
            get().saw(r)
        return r

    def emitted(handler, record):
        if get() is not None:
            get().emitted[id(record)].append(handler)
        return emit(handler, record)

    logging.Logger.makeRecord = makeRecord
    logging.StreamHandler.emit = emitted

    def undo():
        logging.Logger.makeRecord = make
        logging.StreamHandler.emit = emit
    return undo


# -------------------------------------------------------------- the operations

def ring(n=6):
    W = np.zeros((n, n))
    for i in range(n):
        W[i, (i + 1) % n] = W[(i + 1) % n, i] = 1
    return W


def op(program, q, memo):
    """Performs the operation; returns the messages that it should log."""
    p = program.p
    from pygsp import filters, graphs, reduction, utils
    W = ring()
    kind, k = q["op"], q["k"]
    if kind == "negative":
        W[0, 1] = W[1, 0] = -1
        graphs.Graph(W)
        return [("pygsp.graphs.graph", 30)]
    if kind == "loops":
        W[2, 2] = 1
        graphs.Graph(W)
        return [("pygsp.graphs.graph", 30)]
    if kind == "plain":
        G = graphs.Graph(W)
        G.L, G.dw, G.n_edges
        return []
    if kind == "community":
        kw = dict(comm_density=.9) if k else dict(k_neigh=2)
        graphs.Community(N=12, Nc=2, seed=q["seed"], **kw)
        return [("pygsp.graphs.community", 20)]
    if kind == "regular":
        graphs.RandomRegular(6, 2, seed=q["seed"])
        return []
    if kind in ("basis", "D", "lmax"):
        G = graphs.Graph(W)
        if kind == "basis" and k:
            G.compute_fourier_basis()
        if kind == "lmax" and k:
            G.estimate_lmax()
        if kind == "D" and k:
            G.compute_differential_operator()
        dict(basis=lambda: (G.U, G.e), D=lambda: G.D, lmax=lambda: G.lmax)[
            kind]()
        # (the second time it is known)
        dict(basis=lambda: G.U, D=lambda: G.D, lmax=lambda: G.lmax)[kind]()
        return [] if k else [("pygsp.graphs.graph", 30)]
    if kind == "linegraph":
        if k:
            W[0, 1] = W[1, 0] = 2
        graphs.LineGraph(graphs.Graph(W))
        return [("pygsp.graphs.linegraph", 30)] if k else []
    if kind == "inverse":
        G = graphs.Graph(W)
        G.compute_fourier_basis()
        f = filters.Filter(G, lambda x: 1 / (1 + x) if k else 1. * (x > .5))
        try:
            f.inverse()
        except Exception:
            pass
        return [] if k else [("pygsp.filters.filter", 30)]
    if kind == "pyramid":
        G = graphs.Graph(ring(8) * np.linspace(1, 2, 8)[:, None] *
                         np.linspace(1, 2, 8))
        G.compute_fourier_basis()
        Gs = reduction.graph_multiresolution(G, 1, sparsify=False)
        h = (lambda x: 1 / (1 + x))
        reduction.pyramid_analysis(Gs, np.ones(8), h_filters=[h] if k else h)
        return [] if k else [("pygsp.reduction", 30)]
    if kind == "components":
        W = np.zeros((6, 6))
        W[0, 1] = W[1, 0] = W[2, 3] = W[3, 2] = W[4, 5] = W[5, 4] = 1
        graphs.Graph(W).extract_components()
        return [("pygsp.graphs.graph", 20)] * 3
    if kind == "disconnected":
        graphs.Graph(np.zeros((4, 4))).is_connected()
        return []
    if kind == "nn":
        graphs.NNGraph(np.arange(12.).reshape(6, 2) ** 1.1, k=2,
                       use_flann=False)
        return None     # (which backends are tried is not specified)
    if kind == "irregular":
        graphs.RandomRegular(6, 2, max_iter=1 + 200 * k, seed=q["seed"])
        return [] if k else None    # (by which logger is not specified)
    if kind == "eps":
        graphs.Community(N=12, Nc=2, epsilon=.3 + k, comm_density=None,
                         k_neigh=None, seed=q["seed"])
        return [("pygsp.graphs.community", 20)]
    if kind == "sparsify":
        path = np.diag(np.ones(11), 1)
        reduction.graph_sparsify(graphs.Graph(path + path.T), .9 - .5 * k,
                                 maxiter=1, seed=q["seed"])
        return None
    if kind == "list":
        G = graphs.Graph(W)
        try:
            reduction.pyramid_analysis([G, G], np.ones(6),
                                       h_filters=[] if k else 3)
        except (TypeError, ValueError):
            pass
        return [] if k else [("pygsp.reduction", 40)]
    if kind == "ill":
        G = graphs.Graph(W)
        G.compute_fourier_basis()
        filters.Filter(G, lambda x: 1e-12 * (1 + k * 1e14) +
                       (x > .5)).inverse()
        return [] if k else [("pygsp.filters.filter", 30)]
    if kind == "center":
        G = graphs.Graph(W)
        G.set_coordinates("spring", center=np.zeros((1, 2 + k)), iterations=2,
                          seed=q["seed"])
        return [("pygsp.graphs.graph", 40)] if k else []
    if kind == "bounds":
        bounds, wide = [.1, .5], [0, 1 - .6 * k]
        try:
            filters.compute_jackson_cheby_coeff(bounds, wide, 3)
        except TypeError:
            pass
        return [("pygsp.filters.approximations", 40)] if k else []
    name = f"sim.{q['seed'] % 3}"
    lg = utils.build_logger(name)
    if not isinstance(lg, logging.Logger) or lg.name != name:
        raise Violation("logger-wrong", f"{lg}")
    lg.warning("message %d", q["seed"])
    return [(name, 30)]


# ----------------------------------------------------------------- the verdict

def judge(pr, d):
    """Every record reached every handler once."""
    own_total = collections.Counter()
    for r in pr.records:
        names, parts = [""], r.name.split(".")
        chain = [".".join(parts[:k]) for k in range(len(parts), 0, -1)]
        reached = []
        for c in chain:
            reached.append(c)
            if c in pr.mute:
                break
        else:
            reached.append("")
        what = dict(d, logger=r.name, text=r.getMessage()[:80],
                    function=r.funcName)
        for on, h in pr.listeners:
            want = int(on in reached and r.levelno >= h.level)
            if h.got[id(r)] != want:
                raise Violation(
                    "user-handler", f"a handler of {on or 'the root'} "
                    f"received a message of {r.name} {h.got[id(r)]} times "
                    f"instead of {want}", **what)
        hs = pr.emitted[id(r)]
        own_total[len(hs)] += 1
        if len(hs) > 1 or not hs and r.name not in pr.taken:
            raise Violation(
                "not-exactly-once", f"a message of {r.name} was emitted "
                f"{len(hs)} times by {len(set(map(id, hs)))} handlers",
                **what)
    for name, level in pr.levels.items():
        if logging.getLogger(name).level != level:
            raise Violation("level-changed", f"the level of {name} is "
                            f"{logging.getLogger(name).level}: the user set "
                            f"{level}", **d)
    return own_total


def compare(pr, got, expected, d):
    """The messages that the operation shall log, and no other.

    (By which logger is not specified. The package shows every message of
    the loggers that it builds, unless the user decided otherwise.)
    """
    if pr.levels or pr.taken:
        return
    got = [(r.levelno, r.name) for r in got]
    want = [level for _, level in expected]
    if [level for level, _ in got] != want:
        raise Violation("messages-wrong", f"logged {got}, expected {want}",
                        **d)


class Execution:
    def __init__(self, case, start, preempt, faults, record):
        self.case = case
        global CURRENT
        CURRENT = None
        self.pr = None
        self.sim = Sim(preempt=preempt, faults=faults, record=record,
                       everywhere=True,
                       make_exc=lambda name: Interrupt("simulated"))
        self.results = [[] for _ in case["threads"]]
        sys.stderr = Console(case.get("broken"))
        self.pr = Program(case, start)
        self.pr.console = sys.stderr
        CURRENT = self.pr

    def body(self, t):
        def f(th):
            me = threading.get_ident()
            for k, q in enumerate(self.case["threads"][t]):
                n = len(self.pr.by_thread[me])
                err = exp = None
                self.sim.begin_op(th, k)
                try:
                    exp = op(self.pr, q, None)
                except (SimAbort, kernel.HarnessError):
                    raise
                except Violation as v:
                    err = v
                except (Exception, Interrupt) as e:
                    err = e
                finally:
                    self.sim.end_op(th)
                self.results[t].append(
                    (q, k, err, exp, self.pr.by_thread[me][n:]))
                if isinstance(err, Interrupt):
                    continue
                if err is not None:
                    return
        return f

    def go(self):
        self.sim.run_threads([self.body(t) for t in
                              range(len(self.case["threads"]))],
                             self.case["first"] % len(self.case["threads"]))
        if isinstance(self.sim.abort, SimDeadlock):
            raise Violation("deadlock", str(self.sim.abort))
        if isinstance(self.sim.abort, StepBudgetExceeded):
            raise Violation("no-termination", str(self.sim.abort))

    def judge(self, d0, ctx):
        for t, rs in enumerate(self.results):
            for q, k, err, exp, got in rs:
                d = dict(thread=t, step=k, op=q["op"], **d0)
                if isinstance(err, Violation):
                    err.detail.update(d)
                    raise err
                if isinstance(err, Interrupt):
                    continue
                if err is not None:
                    raise Violation(f"unexpected-{type(err).__name__}",
                                    f"{q['op']}: {err}", **d)
                if exp is not None:
                    compare(self.pr, got, exp, d)
        judge(self.pr, d0)
        # Once more, everything, by one thread, which may have redirected
        # the standard error of the program.
        if self.case.get("redirect"):
            sys.stderr = Console(self.case.get("broken"))
        for t, seq in enumerate(self.case["threads"]):
            for k, q in enumerate(seq):
                m = len(self.pr.records)
                d = dict(thread="main", step=k, op=q["op"], **d0)
                exp = op(self.pr, q, None)
                if exp is not None:
                    compare(self.pr, self.pr.records[m:], exp, d)
        judge(self.pr, dict(d0, step="afterwards"))
        ctx.probe("messages", len(self.pr.records))
        lines = self.pr.console.getvalue().splitlines()
        if sys.stderr is not self.pr.console:
            lines += sys.stderr.getvalue().splitlines()
        if not self.case.get("broken") and len(lines) != sum(
                len(self.pr.emitted[id(r)]) for r in self.pr.records):
            raise Violation("console-wrong", f"{len(lines)} lines for "
                            f"{len(self.pr.records)} messages", **d0)


CURRENT = None


def position(f, rec):
    """The step of a thread at which a fault or preemption takes place."""
    if f["near"]:
        # near what builds loggers, wherever that is
        hot = [i for i, (c, _) in enumerate(rec)
               if c is not None and "logger" in c.co_qualname.lower()]
        if hot:
            return hot[int(f["frac"] * len(hot)) % len(hot)]
    return int(min(f["frac"], .99999) * len(rec))


def run(case, ctx):
    n = len(case["threads"])
    if not n or not any(case["threads"]):
        ctx.trivial = True
        return
    undo = watch_logging(lambda: CURRENT)
    stderr, raising = sys.stderr, logging.raiseExceptions
    logging.raiseExceptions = False
    disabled = logging.root.manager.disable
    root = os.path.join(boot.REPO, "pygsp")
    sims = {name: logging.root.manager.loggerDict.get(name)
            for name in ("sim", "sim.0", "sim.1", "sim.2")}
    global CURRENT

    def execution(preempt, faults, record, then):
        global CURRENT
        for name in sims:
            logging.root.manager.loggerDict.pop(name, None)
        with seams.restarted(root) as start:
            logging.disable(logging.NOTSET)
            seams.seed_entropy(case.get("entropy", 0))
            x = Execution(case, start, preempt, faults, record)
            try:
                x.go()
                then(x)
            finally:
                CURRENT = None
                ctx.steps += x.sim.total

    try:
        rec = {}

        def first(x):
            x.judge(dict(schedule="no preemption"), ctx)
            rec.update(x.sim.recorded)
            rec["ops"] = x.sim.recorded_ops

        execution({}, None, True, first)
        preempt, faults = {}, []
        for f in case["preempt"]:
            tid, to = f["tid"] % n, f["to"] % n
            steps = rec.get(tid, [])
            if steps:
                to = (to + 1) % n if to == tid else to
                preempt[(tid, position(f, steps) + 1)] = to
        for f in case.get("faults", ()):
            tid = f["tid"] % n
            ops_ = sorted(k for k in rec["ops"] if k[0] == tid)
            flat = [(k, j, p) for k in ops_
                    for j, p in enumerate(rec["ops"][k])]
            if flat:
                k, j, _ = flat[position(f, [p for _, _, p in flat])]
                faults.append(dict(tid=tid, op=k[1], at="point", n=j + 1,
                                   exc="Interrupt"))

        def second(x):
            sw = [f"T{a}->T{b} at {w}" for a, b, w in x.sim.switches]
            for line in sw:
                ctx.fault("preemption")
                ctx.log(line)
            for f in x.sim.fired:
                ctx.fault("interrupt")
                ctx.log(f["where"])
                sw.append(f"interrupt at {f['where']}")
                ctx.state((f["where"], "interrupt"))
            if case.get("broken"):
                ctx.fault("failing stream")
            at = [None] * n
            for a, b, w in x.sim.switches:
                at[a] = w
                ctx.state((w, at[b]))
            ctx.log("digest", x.sim.digest)
            x.judge(dict(schedule=sw), ctx)

        execution(preempt, faults, False, second)
    finally:
        CURRENT = None
        undo()
        sys.stderr = stderr
        logging.raiseExceptions = raising
        logging.disable(disabled)
        for name, lg in sims.items():
            logging.root.manager.loggerDict.pop(name, None)
    ctx.trivial = not ctx.faults
