"""C08: storage faults never turn into silently wrong graphs."""

import os
import resource
import shutil
import signal
import tempfile

import numpy as np

from .. import storage, world
from ..core import Violation
from ..kernel import Sim, SimAbort, HarnessError, StepBudgetExceeded
from . import c07

LEVEL = "fault_enumeration"
TECHNIQUE = ("simulated disk with faults at every file operation of seeded "
             "histories of saves and loads, in one or two threads")
NOTE = ("File operations of saves and loads go through a simulated disk "
        "which fails, fills up, tears, loses or shortens what is written, or "
        "crashes; afterwards a load either fails or gives a graph that was "
        "saved there, and everything works again once the storage does.")
RULE = ("A run is a sequence of 2 to 8 saves, loads and changes of a graph, "
        "in one thread or two, with faults planned for some of them at the "
        "n-th file operation, library call or return from one. Non-trivial: at "
        "least one fault fired. Distinctness: hash of the event log.")
STATES = ("(operation, format, backend, kind of fault, file operation it hit, "
          "outcome)")
REAL = "pygsp, NumPy, SciPy, NetworkX, graph-tool (C++), XML and GML parsers"
STUBS = ("files of the scratch directory opened from Python go through a "
         "simulated disk; for graph-tool the file size limit of the process "
         "makes the writes of the C++ code fail")
ASSUMPTIONS = [
    "pages which are lost read as zeros",
    "a crash keeps any prefix or any set of pages of what was written, or "
    "the previous file",
    "graph-tool itself neither reports that it could not write everything "
    "nor always that a file is truncated: what it loads from such files is "
    "not judged",
]
QUICK = dict(cases=14000, seconds=80, batch=50)
THOROUGH = dict(cases=400000, seconds=780, batch=100)

FORMATS = [("graphml", "networkx"), ("gml", "networkx"), ("gexf", "networkx"),
           ("graphml", "networkx"), ("gml", "networkx"), ("gexf", "networkx"),
           ("graphml", None), ("gml", None), ("gexf", None),
           ("graphml", "graph-tool"), ("gml", "graph-tool")]
NAMES = ["s", "t", "speed_limit"]
EXCS = ["MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError"]


def make_exc(name):
    return {"MemoryError": MemoryError, "KeyboardInterrupt":
            KeyboardInterrupt, "RuntimeError": RuntimeError,
            "OSError": OSError}[name]("simulated")


def gen(rng, i, tier):
    spec = world.spec_graph(rng, nmin=4, nmax=14, laps=False)
    threads = 2 if rng.random() < .25 else 1

    def op(first):
        name = "save" if first else rng.choice(
            ["save", "save", "load", "load", "load", "signal", "edge",
             "power"] if threads == 1 else ["save", "save", "load"])
        q = dict(op=name, seed=rng.getrandbits(16))
        if name == "save":
            q["fmt"], q["backend"] = rng.choice(FORMATS)
            q["path"] = rng.randrange(2)
            q["gz"] = q["backend"] == "networkx" and rng.random() < .15
        elif name == "load":
            q["path"] = rng.randrange(2)
        elif name == "signal":
            q.update(name=rng.choice(NAMES), dim=rng.choice([0, 0, 2, 3]))
        if name in ("save", "load") and rng.random() < .6:
            kinds = storage.WRITE if name == "save" else storage.READ
            if threads > 1:
                kinds = [x for x in kinds if x != "crash"]
            w = rng.random()
            n = 1 + int(rng.expovariate(1 / rng.choice([1, 3, 20])))
            if w < .7:
                q["fault"] = dict(kind=rng.choice(kinds), n=n,
                                  part=round(rng.random(), 2))
            elif w < .8 and name == "save":
                q["fault"] = dict(kind="limit", n=rng.randrange(1200))
            else:
                q["fault"] = dict(kind="code", at=rng.choice(
                    ["call", "point"]), n=n, exc=rng.choice(EXCS))
        return q

    progs = [[op(k == 0) for k in range(rng.randint(2, 8))]
             for _ in range(threads)]
    case = dict(spec=spec, threads=progs, buffer=rng.choice(
        [16, 64, 300, 1000, 8192]),
        signals=[dict(name=nm, dim=rng.choice([0, 0, 2, 3]),
                      seed=rng.getrandbits(16))
                 for nm in NAMES[:rng.randint(0, 3)]])
    if threads > 1:
        case["preempt"] = [
            [t, 1 + int(rng.expovariate(1 / 150)), 1 - t]
            for t in range(2) for _ in range(rng.randint(1, 6))]
    return case


class File:
    """What a path may contain."""

    def __init__(self):
        self.versions = []   # acceptable contents
        self.sure = False    # the last one is there
        self.exists = False
        self.kw = {}


class Runner:

    def __init__(self, case, ctx, tmp):
        self.case, self.ctx, self.tmp = case, ctx, tmp
        plan, faults = {}, []
        for t, prog in enumerate(case["threads"]):
            for k, q in enumerate(prog):
                f = q.get("fault")
                if f is None:
                    continue
                if f["kind"] == "code":
                    faults.append(dict(tid=t, op=k, at=f["at"], n=f["n"],
                                       exc=f["exc"]))
                elif f["kind"] != "limit":
                    plan[t, k] = dict(f)
        pre = {(a, b): c for a, b, c in case.get("preempt", ())}
        self.sim = Sim(preempt=pre, faults=faults, make_exc=make_exc)
        self.disk = storage.Disk(tmp, self.sim, plan, case["entropy"])
        from pygsp import graphs
        self.graphs = graphs
        spec = case["spec"]
        W = world.typed(spec, world.adjacency(spec))
        self.G = graphs.Graph(world.as_format(W, spec["fmt"]))
        self.t = c07.Thing("pg", self.G, W, {})
        for s in case["signals"]:
            self.set_signal(s)

    def set_signal(self, s):
        n = len(self.t.W)
        x = world.signal(s["seed"], n, *([s["dim"]] if s["dim"] else []))
        self.G.set_signal(x, s["name"])
        self.t.signals = dict(self.t.signals, **{s["name"]: x})

    def verify(self, d):
        c07.check_pg(self.t, d)

    def thread(self, th):
        files = self.files = {}
        multi = len(self.case["threads"]) > 1
        for k, q in enumerate(self.case["threads"][th.tid]):
            d = dict(thread=th.tid, step=k, op=q["op"])
            self.sim.point(th, None, -3)
            if q["op"] == "signal":
                self.set_signal(q)
            elif q["op"] == "edge":
                self.edge(q)
            elif q["op"] == "power":
                self.disk.settle_crash()
                for f in files.values():
                    f.sure = False
                self.ctx.fault("power loss")
            else:
                f = files.setdefault(q["path"], File())
                getattr(self, q["op"])(th, k, q, f, d)
            if not multi:
                self.verify(d)
        # The storage works again.
        for path, f in files.items():
            d = dict(thread=th.tid, step="end", op="save")
            q = dict(fmt="graphml", backend="networkx", path=path, gz=False,
                     **{"op": "save"})
            self.save(th, None, q, f, d)
            self.load(th, None, dict(op="load", path=path), f,
                      dict(d, op="load"))

    def edge(self, q):
        """Another graph from now on."""
        W = self.t.W.copy()
        r = world.nprng("edge", q["seed"])
        i, j = r.choice(len(W), 2, replace=False)
        W[i, j] = W[j, i] = 0 if W[i, j] else 3
        sig = self.t.signals
        self.G = self.graphs.Graph(W)
        self.t = c07.Thing("pg", self.G, W, {})
        for name, x in sig.items():
            self.G.set_signal(x, name)
        self.t.signals = dict(sig)

    def attempt(self, th, k, q, fn):
        """Returns (result, exception, faults fired)."""
        nf, nd = len(self.sim.fired), len(self.disk.fired)
        if k is not None:
            self.sim.begin_op(th, k)
        f = q.get("fault") or {}
        limited = f.get("kind") == "limit" and len(self.case["threads"]) == 1
        if limited:
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (f["n"], hard))
        r = e = None
        try:
            r = fn()
        except (SimAbort, HarnessError):
            raise
        except BaseException as exc:
            e = exc
        finally:
            if limited:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if k is not None:
                self.sim.end_op(th)
            self.disk.end_op(th.tid)
        fired = [("code", f"{x['exc']} {x['at']}", x["where"])
                 for x in self.sim.fired[nf:] if x["tid"] == th.tid]
        fired += [(kind, kind, what) for (t, o), kind, what
                  in self.disk.fired[nd:] if t == th.tid]
        if limited:
            fired.append(("limit", "limit", ""))
        for kind, name, what in fired:
            self.ctx.fault(name)
        return r, e, fired

    def path(self, th, q, fmt, gz):
        return os.path.join(self.tmp, f"t{th.tid}-{q['path']}.{fmt}" +
                            (".gz" if gz else ""))

    def save(self, th, k, q, f, d):
        fmt, backend = q["fmt"], q["backend"]
        path = self.path(th, q, fmt, q["gz"])
        if f.kw.get("path") != path:
            # another file
            f.versions, f.sure, f.exists = [], False, os.path.exists(path)
            f.gone = True
        kw = dict(backend=backend)
        if q["gz"]:
            kw["fmt"] = fmt
        f.kw = dict(kw, path=path)
        rel = 1e-5 if (fmt, backend) == ("gml", "graph-tool") else 0
        new = c07.Thing("pg", None, self.t.W, dict(self.t.signals), rel)
        # (an earlier file of the same name)
        past = self.past.setdefault(path, [])
        _, e, fired = self.attempt(th, k, q, lambda: self.G.save(path, **kw))
        crashed = isinstance(e, storage.Crash)
        if crashed:
            self.disk.settle_crash()
        kinds = {x[0] for x in fired}
        d.update(fmt=fmt, backend=backend, fault=fired[:1])
        if e is not None and not fired:
            raise Violation(f"unexpected-{type(e).__name__}",
                            f"save without fault: {e}", **d)
        if e is not None and kinds <= storage.BENIGN:
            raise Violation(f"unexpected-{type(e).__name__}",
                            f"save despite a legal short write: {e}", **d)
        past.append(new)
        f.versions = list(past)
        f.sure = e is None and not (kinds & storage.SILENT) and not (
            kinds and backend == "graph-tool")
        if f.sure:
            past[:] = [new]
            f.versions = [new]
        if e is not None:
            self.ctx.probe("saves that failed")
        self.note(k, q, fmt, backend, fired, e)
        if crashed:
            self.ctx.probe("crashes")
            for g in self.files.values():
                g.sure = False

    def load(self, th, k, q, f, d):
        if not f.kw:
            return
        kw = {a: b for a, b in f.kw.items() if a != "path"}
        path = f.kw["path"]
        G, e, fired = self.attempt(
            th, k, q, lambda: self.graphs.Graph.load(path, **kw))
        if isinstance(e, storage.Crash):
            self.disk.dead = False
        kinds = {x[0] for x in fired}
        d.update(kw, fault=fired[:1])
        self.note(k, q, path.split(".")[-1], kw["backend"], fired, e)
        if e is not None:
            self.ctx.probe("loads that failed")
            if f.sure and kinds <= storage.BENIGN:
                raise Violation(f"unexpected-{type(e).__name__}",
                                f"load of a good file: {type(e).__name__}: "
                                f"{e}", **d)
            if isinstance(e, AssertionError):
                raise Violation("unexpected-AssertionError", f"load: {e}",
                                **d)
            if k is None:
                raise Violation(f"unexpected-{type(e).__name__}",
                                f"load once the storage works: {e}", **d)
            if kinds & {"limit"} or not f.sure:
                return
            # Without the fault the file is still good.
            return self.load(th, None, dict(op="load", path=q["path"]), f,
                             dict(d, retried=True))
        if kw["backend"] == "graph-tool" and not f.sure:
            self.ctx.probe("graph-tool loads after faults (not judged)")
            return
        self.ctx.probe("loads compared")
        errors = []
        for t in f.versions[::-1]:
            t = c07.Thing("pg", G, t.W, t.signals, t.rel)
            try:
                c07.check_pg(t, d)
                return
            except Violation as v:
                errors.append(v)
        v = errors[0]
        raise Violation(("good-file-" if f.sure else "silently-") + v.key,
                        v.message, **v.detail)

    def note(self, k, q, fmt, backend, fired, e):
        kind = fired[0][1:] if fired else ""
        self.ctx.state((q["op"], fmt, backend, str(kind)[:60],
                        type(e).__name__))
        self.ctx.log(k, q["op"], fmt, backend, kind, type(e).__name__)


def scenario(case, ctx, tmp):
    r = Runner(case, ctx, tmp)
    r.past = {}
    try:
        with storage.mounted(r.disk, case["buffer"]):
            if len(case["threads"]) == 1:
                r.sim.run_inline(r.thread)
            else:
                r.sim.run_threads([r.thread] * len(case["threads"]))
                if r.sim.abort is not None:
                    raise Violation(type(r.sim.abort).__name__,
                                    str(r.sim.abort))
        r.verify(dict(step="end"))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += r.sim.total
        ctx.log("digest", r.sim.digest, r.sim.switch_digest)
    if r.sim.switches:
        ctx.probe("thread switches", len(r.sim.switches))
    ctx.trivial = not ctx.faults


def run(case, ctx):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    tmp = tempfile.mkdtemp(prefix="dst-c08-")
    try:
        scenario(case, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


assert np
