"""C16: bundled and fixed graphs are the same, whatever happened before."""

import gc
import io
import os

import _io
import networkx as nx
import numpy as np
import scipy.io
from scipy import sparse, spatial

from .. import boot, seams, storage, world
from ..core import Violation
from ..kernel import HarnessError, Sim, SimAbort, StepBudgetExceeded

LEVEL = "fault_enumeration"
TECHNIQUE = ("simulated disk below the package's data, with faults at every "
             "file operation of seeded histories of loads, uses and changes "
             "of the bundled graphs, and of fixed topologies, in one or two threads")
NOTE = ("Each run is a program that was just started. The bundled files are "
        "read through a simulated disk that fails, is short or ends early; "
        "library calls fail and are interrupted; what was loaded before is "
        "used and modified by its owner. Every load must give the graph "
        "which the data files define (computed by a model from the files), "
        "or fail; and succeed once nothing fails.")
RULE = ("A run is 2 to 7 operations (make a graph or read a file, modify "
        "arrays in place, relayout, change the Laplacian, drop a graph) in "
        "each of one or two threads, with faults planned for some of the "
        "loads at the n-th file operation, library call or return from one, "
        "and up to 8 preemptions. Non-trivial: a fault, a switch or a second "
        "load of the same data. Distinctness: hash of the event log.")
STATES = "(what is loaded, what happened to its data before, fault, outcome)"
REAL = "pygsp (imported anew in each run), NumPy, SciPy; real threads"
STUBS = ("files below pygsp/data, opened from Python by whatever means, go "
         "through a simulated disk; thread scheduler")
ASSUMPTIONS = ["the installed data files themselves are intact"]
QUICK = dict(cases=7000, seconds=100, batch=25)
THOROUGH = dict(cases=200000, seconds=660, batch=50)

KINDS = [("Logo", {}), ("Minnesota", {}), ("Minnesota", dict(connected=False)),
         ("Airfoil", {}), ("DavidSensorNet", dict(N=64)),
         ("DavidSensorNet", dict(N=500)), ("DavidSensorNet", dict(N=64, seed=3)),
         ("TwoMoons", {}), ("TwoMoons", dict(sigmag=.2)),
         ("TwoMoons", dict(moontype="standard", dim=1))]
FIXED = {
    "Path": [dict(N=6), dict(N=6, directed=True), dict(N=9), dict(N=2)],
    "Ring": [dict(N=7), dict(N=7, k=2), dict(N=6, k=3), dict(N=9, k=1)],
    "Grid2d": [dict(N1=3, N2=4), dict(N1=4, N2=3), dict(N1=4),
               dict(N1=3, N2=4, diagonal=.5), dict(N1=3, N2=4, diagonal=2)],
    "Torus": [dict(Nv=3, Mv=4), dict(Nv=4, Mv=3), dict(Nv=4)],
    "Comet": [dict(N=9, k=4), dict(N=9, k=5), dict(N=7, k=4)],
    "Star": [dict(N=5), dict(N=9)],
    "LowStretchTree": [dict(k=1), dict(k=2), dict(k=3)],
    "FullConnected": [dict(N=5), dict(N=9)],
}
WEIGHTS = [6, 3, 3, 5, 8, 5, 3, .3, .3, .3]
FILES = {"Logo": ["logogsp"], "Minnesota": ["minnesota"],
         "Airfoil": ["airfoil"], "TwoMoons": ["two_moons"],
         "Bunny": ["bunny"], "DavidSensorNet": ["david64", "david500"]}
CHANGES = ["coords", "labels", "info", "limits", "plotting", "Xin"]
USES = ["random2D", "ring2D", "normalized", "combinatorial", "D", "signal",
        "lmax", "degrees"]
EXCS = ["MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError"]


def make_exc(name):
    return {"MemoryError": MemoryError, "KeyboardInterrupt":
            KeyboardInterrupt, "RuntimeError": RuntimeError,
            "OSError": OSError}[name]("simulated")


def gen(rng, i, tier):
    threads = 2 if rng.random() < .35 else 1
    if tier != "quick" and rng.random() < .0003:
        # (each takes a minute)
        pool, threads = [("Bunny", {})], 1
    else:
        # (few data sets per run, so that they meet again)
        pool = rng.choices(KINDS, WEIGHTS, k=rng.choice([1, 1, 2]))
        if rng.random() < .4:
            kind = rng.choice(sorted(FIXED))
            pool = [(kind, kw) for kw in rng.sample(
                FIXED[kind], rng.choice([1, 2]))] + pool[1:]

    def op(first):
        name = "load" if first else rng.choice(
            ["load", "load", "load", "change", "change", "use", "raw",
             "drop"])
        q = dict(op=name, seed=rng.getrandbits(16), of=rng.randrange(8))
        if name == "load":
            q["kind"], q["kw"] = rng.choice(pool)
            if rng.random() < .2:
                q["kw"] = dict(q["kw"], lap_type="normalized")
        elif name == "raw":
            q["file"] = rng.choice(FILES.get(rng.choice(pool)[0], ["bunny"]))
            q["change"] = rng.random() < .6
        elif name == "change":
            q["what"] = rng.sample(CHANGES, rng.choice([1, 2, len(CHANGES)]))
        elif name == "use":
            q["what"] = rng.choice(USES)
        if name in ("load", "raw") and rng.random() < .45:
            n = 1 + int(rng.expovariate(1 / rng.choice(
                [1, 3, 8, 20] if q.get("kind") in FIXED else [1, 3, 8])))
            if rng.random() < (0 if q.get("kind") in FIXED else .6):
                q["fault"] = dict(kind=rng.choice(storage.READ), n=n,
                                  part=round(rng.random(), 2))
            else:
                q["fault"] = dict(kind="code", at=rng.choice(
                    ["call", "point"]), n=n, exc=rng.choice(EXCS))
        return q

    case = dict(threads=[[op(k == 0) for k in range(rng.randint(2, 7))]
                         for _ in range(threads)])
    if pool[0][0] == "Bunny":
        case["threads"] = [[q for q in case["threads"][0] if q is
                            case["threads"][0][0] or q["op"] != "load"]]
    if threads > 1:
        case["preempt"] = [[t, 1 + int(rng.expovariate(1 / rng.choice(
            [5, 30, 200]))), 1 - t] for t in range(2)
            for _ in range(rng.randint(1, 4))]
    return case


# ---------------------------------------------------------------------- model

_files = {}
_models = {}


def bundled(name):
    """The contents of a data file."""
    if name not in _files:
        path = os.path.join(boot.REPO, "pygsp/data/pointclouds", name + ".mat")
        with storage._real_open(path, "rb") as f:
            _files[name] = {k: v for k, v in scipy.io.loadmat(
                io.BytesIO(f.read())).items() if not k.startswith("__")}
    return _files[name]


def plain(x):
    """As an array that can be compared (MATLAB's strings are nested)."""
    x = np.asarray(x)
    if x.dtype.kind != "O":
        return np.array(x)

    def inner(y):
        while isinstance(y, np.ndarray):
            y = y.ravel()[0] if y.size else ""
        return y
    return np.array([str(inner(y)) for y in x.ravel()]).reshape(x.shape)


def symmetric(i, j, v, n):
    W = sparse.csr_matrix((v, (i, j)), shape=(n, n))
    return (W + W.T) / 2


def neighbours(X, k, sigma):
    D, N = spatial.cKDTree(X).query(X, k=k + 1)
    n = len(X)
    return symmetric(np.repeat(np.arange(n), k), N[:, 1:].ravel(),
                     np.exp(-D[:, 1:].ravel() ** 2 / sigma), n)


def within(X, eps):
    pairs = spatial.cKDTree(X).query_pairs(eps, output_type="ndarray")
    d = np.linalg.norm(X[pairs[:, 0]] - X[pairs[:, 1]], axis=1)
    v = np.exp(-d ** 2 / d.mean())
    i, j = pairs.T
    return symmetric(np.r_[i, j], np.r_[j, i], np.r_[v, v], len(X))


def fixed(kind, kw):
    """The adjacency matrix of a topology, by its definition."""
    k, n = kw.get("k", 1), kw.get("N")
    if kind == "LowStretchTree":
        edges = [(0, 1), (0, 2), (2, 3)]
        for p in range(1, k):
            m = 4 ** p
            a, b, c = m - 1, (5 * m + 1) // 3 - 1, m + (4 * m + 2) // 3 - 1
            edges = [(i + q * m, j + q * m) for q in range(4)
                     for i, j in edges] + [(a, b), (a, c), (c, 3 * m)]
        g = nx.Graph(edges)
    elif kind == "Path":
        g = nx.path_graph(n, nx.DiGraph if kw.get("directed") else nx.Graph)
    elif kind == "Ring":
        g = nx.circulant_graph(n, range(1, k + 1))
    elif kind in ("Comet", "Star"):
        k = n - 1 if kind == "Star" else k
        g = nx.star_graph(k)
        nx.add_path(g, range(k, n))
    elif kind == "FullConnected":
        g = nx.complete_graph(n)
    elif kind == "Torus":
        g = nx.grid_2d_graph(kw.get("Mv", kw["Nv"]), kw["Nv"], periodic=True)
    elif kind == "Grid2d":
        a, b, d = kw["N1"], kw.get("N2", kw["N1"]), kw.get("diagonal", 0)
        g = nx.grid_2d_graph(a, b)
        for i in range(a - 1 if d else 0):
            for j in range(b - 1):
                g.add_edge((i, j), (i + 1, j + 1), weight=d)
                g.add_edge((i + 1, j), (i, j + 1), weight=d)
    return nx.to_scipy_sparse_array(g, nodelist=sorted(g))


def alone(kind, kw):
    """What else there is in a program which does nothing else."""
    with seams.restarted(os.path.join(boot.REPO, "pygsp")) as start:
        start()
        from pygsp import graphs
        G = getattr(graphs, kind)(**kw)
        return {k: np.array(get(G, k)) for k in (
            "coords", "limits", "root") if get(G, k) is not None}


def model(kind, kw):
    """What the data files say: adjacency and arrays by attribute."""
    kw = {k: v for k, v in kw.items() if k not in ("lap_type", "seed")}
    key = kind, tuple(sorted(kw.items()))
    if key in _models:
        return _models[key]
    out = {}
    if kind in FIXED:
        out = alone(kind, kw)
        W = sparse.csr_matrix(fixed(kind, kw))
    elif kind == "Logo":
        m = bundled("logogsp")
        W, out["coords"] = m["W"], m["coords"]
        for x in ("idx_g", "idx_s", "idx_p"):
            out["info." + x] = m[x] - 1
        out["limits"] = [0, 640, -400, 0]
    elif kind == "Minnesota":
        m = bundled("minnesota")
        W = sparse.csr_matrix(m["A"]).astype(float)
        out["coords"], out["labels"] = m["xy"], m["labels"]
        if kw.get("connected", True):
            W = W.tolil()
            W[348, 354] = W[354, 348] = 1
            W = (W.tocsr() > 0).astype(float)
        out["limits"] = [-98, -89, 43, 50]
    elif kind == "Airfoil":
        m = bundled("airfoil")
        i, j = m["i_inds"].ravel() - 1, m["j_inds"].ravel() - 1
        W = symmetric(i, j, np.ones(len(i)), len(m["x"]))
        out["coords"] = np.c_[m["x"], m["y"]]
        out["limits"] = [-1e-4, 1.01 * m["x"].max(),
                         -1e-4, 1.01 * m["y"].max()]
    elif kind == "DavidSensorNet":
        m = bundled(f"david{kw['N']}")
        W, out["coords"] = m["W"], m["coords"]
        out["limits"] = [0, 1, 0, 1]
    elif kind == "TwoMoons":
        X = bundled("two_moons")["features"][:kw.get("dim", 2)].T
        W = neighbours(X, 5, kw.get("sigmag", .05))
        out["coords"] = X
        out["labels"] = np.repeat([0., 1.], 1000)
    elif kind == "Bunny":
        X = bundled("bunny")["bunny"]
        W, out["coords"] = within(X, .02), X
    W = sparse.csr_matrix(W).astype(float)
    _models[key] = W, out
    return W, out


def laplacian(W, kind):
    W = (W + W.T) / 2
    W = W - sparse.diags(W.diagonal())
    d = np.asarray(W.sum(axis=0)).ravel()
    if kind == "combinatorial":
        return sparse.diags(d) - W
    s = np.divide(1, np.sqrt(d), where=d > 0, out=np.zeros_like(d))
    return sparse.diags((d > 0).astype(float)) - \
        sparse.diags(s) @ W @ sparse.diags(s)


def get(G, name):
    if name == "limits":
        return G.plotting.get("limits")
    if name.startswith("info."):
        return G.info.get(name[5:])
    return getattr(G, name, None)


class Thing:
    """A graph, and what is known of it."""

    def __init__(self, G, kind, kw):
        self.G, self.kind, self.kw = G, kind, kw
        self.W, values = model(kind, kw)
        self.values = {k: plain(v) for k, v in values.items()}
        self.lap = kw.get("lap_type", "combinatorial")
        self.signals = {}

    def check(self, d, key, full=True):
        G, W = self.G, self.W
        d = dict(d, kind=self.kind)

        def wrong(what, message):
            raise Violation(f"{key}-{what}", f"{self.kind}({self.kw}): "
                            f"{message}", **d)
        if G.N != W.shape[0] or G.W.shape != W.shape:
            wrong("size", f"{G.N} vertices, W {G.W.shape}")
        diff = abs(G.W - W)
        # (the bunny is in single precision)
        if diff.nnz and diff.max() > (1e-5 if self.kind == "Bunny" else 1e-9):
            wrong("weights", f"{diff.nnz} weights differ, by {diff.max()}")
        directed = self.kw.get("directed", False)
        n = W.nnz if directed else sparse.triu(W).nnz
        if G.n_edges != n or G.Ne != n:
            wrong("edges", f"{G.n_edges} edges instead of {n}")
        for name, v in self.values.items():
            got = get(G, name)
            if got is None or np.shape(got) != v.shape or \
                    not np.array_equal(plain(got), v):
                wrong(name, f"{np.asarray(got)!r}"[:200] + " instead of "
                      f"{v!r}"[:200])
        if sorted(G.signals) != sorted(self.signals):
            wrong("signals", f"{sorted(G.signals)}")
        if G.lap_type != self.lap:
            wrong("lap_type", G.lap_type)
        if not full:
            return
        diff = abs(G.L - laplacian(sparse.csr_matrix(G.W).astype(
            float), self.lap))
        if diff.nnz and diff.max() > 1e-9:
            wrong("laplacian", f"L differs by {diff.max()}")

    def change(self, what, seed):
        """The owner modifies what belongs to the graph."""
        G = self.G
        if what == "plotting":
            G.plotting["vertex_size"] = 3
            return
        names = [n for n in self.values if n == what or
                 n.startswith(what + ".")]
        if what == "Xin" and isinstance(getattr(G, "Xin", None), np.ndarray):
            names = ["Xin"]
        for name in names:
            x = get(G, name)
            if isinstance(x, list):
                x[0] = 77
            elif x.flags.writeable:
                x[...] = world.nprng("change", seed).integers(
                    0, 5, x.shape)
            else:
                continue
            # (what else of this graph shares the memory changes as well)
            for n in self.values:
                y = get(G, n)
                if n == name or isinstance(x, np.ndarray) and \
                        np.shares_memory(x, y):
                    self.values[n] = plain(y)

    def use(self, what, seed):
        G = self.G
        if what == "random2D":
            G.set_coordinates("random2D", seed=seed)
            self.values["coords"] = np.array(G.coords)
        elif what == "ring2D":
            G.set_coordinates("ring2D")
            self.values["coords"] = np.array(G.coords)
        elif what in ("normalized", "combinatorial"):
            G.compute_laplacian(what)
            self.lap = what
        elif what == "D":
            G.compute_differential_operator()
        elif what == "signal":
            G.set_signal(np.ones(G.N), "s")
            self.signals["s"] = 1
        elif what == "lmax":
            G.estimate_lmax("bounds")
        elif what == "degrees":
            G.d, G.dw, G.A, G.get_edge_list()


# ----------------------------------------------------------------------- runs

class mounted:
    """Also what the import system reads goes through the simulated disk."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        disk = self.disk
        self.other = storage.mounted(disk, 4096)
        self.other.__enter__()
        self.real = real, open_code = _io.FileIO, _io.open_code

        def ours(file):
            return isinstance(file, str) and \
                os.path.realpath(file).startswith(disk.root + os.sep)

        def FileIO(file, mode="r", *args, **kw):
            if ours(file):
                return storage.Raw(disk, file, mode.replace("b", ""))
            return real(file, mode, *args, **kw)

        def sim_open_code(path):
            if ours(path):
                return io.open(path, "rb")
            return open_code(path)
        _io.FileIO, _io.open_code = FileIO, sim_open_code

    def __exit__(self, *exc):
        _io.FileIO, _io.open_code = self.real
        self.other.__exit__(*exc)


class Runner:

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        plan, faults = {}, []
        for t, prog in enumerate(case["threads"]):
            for k, q in enumerate(prog):
                f = q.get("fault")
                if f is None:
                    continue
                if f["kind"] == "code":
                    faults.append(dict(tid=t, op=k, at=f["at"], n=f["n"],
                                       exc=f["exc"]))
                else:
                    plan[t, k] = dict(f)
        self.sim = Sim(preempt={(a, b): c for a, b, c in
                                case.get("preempt", ())},
                       faults=faults, make_exc=make_exc, budget=20_000_000)
        self.disk = storage.Disk(os.path.join(boot.REPO, "pygsp/data"),
                                 self.sim, plan, case["entropy"])
        self.seen = {}      # data -> what happened to it
        self.live = [[] for _ in case["threads"]]
        from pygsp import graphs, utils
        self.graphs, self.utils = graphs, utils

    def attempt(self, th, k, fn):
        nf, nd = len(self.sim.fired), len(self.disk.fired)
        r = e = None
        self.sim.begin_op(th, k)
        try:
            r = fn()
        except (SimAbort, HarnessError):
            raise
        except BaseException as exc:
            e = exc
        finally:
            self.sim.end_op(th)
            self.disk.end_op(th.tid)
        fired = [f"{x['exc']} at {x['at']}" for x in self.sim.fired[nf:]
                 if x["tid"] == th.tid]
        fired += [f"file {kind}" for (t, _), kind, _ in self.disk.fired[nd:]
                  if t == th.tid]
        for f in fired:
            self.ctx.fault(f)
        return r, e, fired

    def loaded(self, th, k, q, fn, judge, name):
        """fn, possibly with a fault, then without if it failed."""
        d = dict(thread=th.tid, step=k, op=q["op"], fault=q.get("fault"))
        r, e, fired = self.attempt(th, k, fn)
        past = self.seen.get(name, "nothing")
        self.ctx.state((name, past, str(fired[:1]), type(e).__name__))
        self.ctx.log(th.tid, k, name, past, fired, type(e).__name__)
        # (who keeps what a file contained cannot know that it ended early)
        def early():
            return any(kind == "eof" for _, kind, _ in self.disk.fired)
        if e is not None:
            # (the system may always return less than what was asked for)
            hard = [f for f in fired if f != "file short"]
            if early() and not hard:
                return
            if not hard:
                raise Violation(f"unexpected-{type(e).__name__}",
                                f"{name}: {type(e).__name__}: {e}", **d)
            self.seen[name] = "failed"
            self.ctx.probe("loads that failed")
            r, e, fired = self.attempt(th, None, fn)
            d["retried"] = True
            if e is not None and early():
                return
            if e is not None:
                raise Violation("retry-fails", f"{name}: {type(e).__name__}: "
                                f"{e}, although nothing fails any more", **d)
        judge(r, d)
        self.ctx.probe("loads compared")
        if past != "nothing":
            self.again = True
        self.seen.setdefault(name, "loaded")

    again = False

    def thread(self, th):
        live = self.live[th.tid]
        for k, q in enumerate(self.case["threads"][th.tid]):
            d = dict(thread=th.tid, step=k, op=q["op"])
            self.sim.point(th, None, -3)
            getattr(self, q["op"])(th, k, q, live)
            for t in live:
                t.check(d, "other-changed", full=False)

    def load(self, th, k, q, live):
        kind, kw = q["kind"], q["kw"]

        def judge(G, d):
            t = Thing(G, kind, kw)
            t.check(d, "wrong")
            live.append(t)
        self.loaded(th, k, q, lambda: getattr(self.graphs, kind)(**kw),
                    judge, kind + str(kw.get("N", "")))

    def raw(self, th, k, q, live):
        path = "pointclouds/" + q["file"]
        want = bundled(q["file"])

        def judge(data, d):
            for name, v in want.items():
                x = data.get(name)
                same = x is not None and x.shape == v.shape and (
                    abs(x - v).nnz == 0 if sparse.issparse(v) else
                    np.array_equal(plain(x), plain(v)))
                if not same:
                    raise Violation("wrong-data", f"{q['file']}: {name} is "
                                    f"{x!r}"[:300], **d)
            if q["change"]:
                for name in list(data):
                    x = data[name]
                    if sparse.issparse(x):
                        x.data[...] = 3
                    elif isinstance(x, np.ndarray) and x.flags.writeable \
                            and x.dtype.kind in "iuf" and x.nbytes > 64:
                        # (SciPy lets small ones share memory with the
                        # interpreter's own bytes objects)
                        x[...] = 1
                    if (q["seed"] + len(name)) % 3 == 0:
                        del data[name]
                self.seen[q["file"]] = "changed"
        self.loaded(th, k, q, lambda: self.utils.loadmat(path), judge,
                    q["file"])

    def change(self, th, k, q, live):
        if live:
            t = live[q["of"] % len(live)]
            for what in q["what"]:
                t.change(what, q["seed"])
            self.seen[t.kind + str(t.kw.get("N", ""))] = "changed"
            self.ctx.probe("graphs changed by their owner")

    def use(self, th, k, q, live):
        if live:
            live[q["of"] % len(live)].use(q["what"], q["seed"])

    def drop(self, th, k, q, live):
        if live:
            t = live.pop(q["of"] % len(live))
            t.G = None
            gc.collect(0)


def scenario(case, ctx):
    r = Runner(case, ctx)
    try:
        with mounted(r.disk):
            if len(case["threads"]) == 1:
                r.sim.run_inline(r.thread)
            else:
                r.sim.run_threads([r.thread] * len(case["threads"]))
                if r.sim.abort is not None:
                    raise Violation("no-termination", str(r.sim.abort))
        for t in [t for live in r.live for t in live]:
            t.check(dict(step="end"), "other-changed")
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += r.sim.total
        ctx.log("digest", r.sim.digest, r.sim.switch_digest)
    for _ in r.sim.switches:
        ctx.fault("preemption")
    ctx.trivial = not (ctx.faults or r.again)


def run(case, ctx):
    for q in [q for prog in case["threads"] for q in prog]:
        if q["op"] == "load":
            model(q["kind"], q["kw"])
    with seams.restarted(os.path.join(boot.REPO, "pygsp")) as start:
        start()
        scenario(case, ctx)
