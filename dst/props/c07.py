"""C07: graphs survive saving, loading and conversion unchanged."""

import copy
import os
import pickle
import shutil
import tempfile

import numpy as np
from scipy import sparse
from scipy.sparse import csgraph  # noqa: F401

from .. import generators as gens
from .. import world
from ..core import Violation
from ..kernel import Sim, StepBudgetExceeded

LEVEL = "exploration"
TECHNIQUE = ("seeded search over histories of signals, conversions, files "
             "and operations on several copies of a graph")
NOTE = ("Sequences of conversions to NetworkX and graph-tool, imports, saves "
        "and loads in every format and backend, on graphs that are used and "
        "modified in between. Every object obtained, and every object that "
        "should not have changed, is compared with a dense model.")
RULE = ("A run is 3 to 12 operations on up to 8 graphs, exported graphs and "
        "files descending from one generated graph. Non-trivial: at least "
        "one import or load was compared. Distinctness: hash of the event "
        "log.")
STATES = "(operation, format, backend, kind of graph, types of signals)"
REAL = "pygsp, NumPy, SciPy, NetworkX, graph-tool, file system"
STUBS = "none (storage faults are C08)"
ASSUMPTIONS = [
    "files are saved and loaded with the same backend",
    "signal names are identifiers that are not reserved by the formats, and "
    "do not end like a dimension of another signal",
    "integers are below 2**31 in GML files",
    "graph-tool's GML files keep six significant digits",
]
QUICK = dict(cases=24000, seconds=90, batch=80)
THOROUGH = dict(cases=400000, seconds=780, batch=100)

NAMES = ["s", "t_1", "x_2", "sig", "a", "b_10", "Q9", "speed_limit", "weight",
         "name", "value"]
DTYPES = ["f8", "f8", "f4", "i8", "i4", "i2", "i1", "u1", "bool", "wide",
          "nan", "array"]
FORMATS = [("graphml", "networkx"), ("gml", "networkx"), ("gexf", "networkx"),
           ("graphml", "graph-tool"), ("gml", "graph-tool"),
           ("graphml", None), ("gml", None), ("gexf", None)]
OPS = ["signal", "signal", "signal", "poke", "drop", "use", "use", "to_nx",
       "to_nx", "to_gt", "from_nx", "from_nx", "from_gt", "from_gt", "save",
       "save", "save", "load", "load", "load", "copy", "mutate", "user_nx",
       "user_gt"]


def gen(rng, i, tier):
    spec = world.spec_graph(rng, nmin=1 if rng.random() < .1 else 4, nmax=10)
    if spec["n"] < 4:
        spec["kind"] = rng.choice(["er", "path", "er_w", "er_dir"])
    if rng.random() < .15:
        spec["twist"] = rng.choice(["edgeless", "negative", "mixed", "small",
                                    "wide", "wide", "loop"])
    if spec["kind"] == "loops" or spec.get("twist") == "loop":
        spec["lap"] = "combinatorial"
    seq = []
    for k in range(rng.randint(3, 12)):
        name = rng.choice(OPS) if k else "signal"
        q = dict(op=name, on=rng.randrange(8), seed=rng.getrandbits(16))
        if name == "signal":
            q.update(name=rng.choice(NAMES), dtype=rng.choice(DTYPES),
                     dim=rng.choice([0, 0, 0, 2, 3, 12]))
        elif name == "use":
            q["what"] = [rng.choice(gens.TOUCH[:-1])
                         for _ in range(rng.choice([1, 2]))]
        elif name == "save":
            q["fmt"], q["backend"] = rng.choice(FORMATS)
            q["path"] = rng.randrange(3)
            q["explicit"] = rng.random() < .3
        elif name == "copy":
            q["how"] = rng.choice(["deepcopy", "pickle"])
        elif name.startswith("user"):
            q.update(directed=rng.random() < .5, multi=rng.random() < .4,
                     weight=rng.choice(["weight", "weight", "w", None]),
                     n=rng.randint(2, 8))
        seq.append(q)
    return dict(spec=spec, ops=seq)


# ------------------------------------------------------------------ the model

class Thing:
    """An object and what it must contain."""

    def __init__(self, kind, obj, W, signals, rel=0, **kw):
        self.kind, self.obj, self.W = kind, obj, np.array(W, float)
        self.signals = signals
        self.rel = rel
        self.__dict__.update(kw)

    @property
    def directed(self):
        return bool((self.W != self.W.T).any())


def same(got, want, rel):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    ok = (got == want) | (np.isnan(got) & np.isnan(want))
    if rel:
        with np.errstate(all="ignore"):
            ok |= np.abs(got - want) <= rel * np.abs(want)
    return bool(ok.all())


def need(cond, key, msg, d):
    if not cond:
        raise Violation(key, msg, **d)


def check_signals(got, t, d):
    need(set(got) == set(t.signals), "signals-lost",
         f"signals {sorted(got)} instead of {sorted(t.signals)}", d)
    for k, x in t.signals.items():
        need(same(got[k], x, t.rel), "signal-changed",
             f"signal {k}: {np.asarray(got[k])!r}"[:300] +
             f" instead of {x!r}"[:300], d)


def check_weights(W, t, d):
    need(same(W, t.W, t.rel), "weights-changed",
         f"adjacency {np.asarray(W)!r}"[:400] + f" instead of {t.W!r}"[:400],
         d)


def check_pg(t, d):
    G = t.obj
    check_weights(G.W.toarray(), t, d)
    need(G.N == G.n_vertices == len(t.W), "vertices-lost", f"{G.N}", d)
    need(bool(G.is_directed()) == t.directed or t.rel,
         "direction-changed", f"is_directed() is {G.is_directed()}", d)
    ne = np.count_nonzero(t.W if t.directed else np.triu(t.W))
    need(G.n_edges == ne, "edges-lost", f"{G.n_edges} instead of {ne}", d)
    check_signals(G.signals, t, d)


def broken(signals):
    out = {}
    for k, x in signals.items():
        if x.ndim == 2:
            for j in range(x.shape[1]):
                out[f"{k}_{j}"] = x[:, j]
        else:
            out[k] = x
    return out


def check_nx(t, d):
    g, n = t.obj, len(t.W)
    need(list(g.nodes) == list(range(n)), "vertices-lost",
         f"nodes {list(g.nodes)}", d)
    need(g.is_directed() == t.directed, "direction-changed",
         f"is_directed() is {g.is_directed()}", d)
    W = np.zeros((n, n))
    for a, b, data in g.edges(data=True):
        W[a, b] = data["weight"]
        if not t.directed:
            W[b, a] = data["weight"]
    check_weights(W, t, d)
    x = broken(t.signals)
    for i in range(n):
        got = g.nodes[i]
        need(set(got) == set(x), "signals-lost", f"attributes {sorted(got)} "
             f"instead of {sorted(x)}", d)
        for k in x:
            need(same(got[k], x[k][i], t.rel), "signal-changed",
                 f"signal {k}[{i}]: {got[k]} instead of {x[k][i]}", d)


def check_gt(t, d):
    g, n = t.obj, len(t.W)
    need(g.num_vertices() == n, "vertices-lost", f"{g.num_vertices()}", d)
    need(g.is_directed() == t.directed, "direction-changed",
         f"is_directed() is {g.is_directed()}", d)
    W = np.zeros((n, n))
    w = g.ep["weight"]
    count = 0
    for e in g.edges():
        a, b = int(e.source()), int(e.target())
        W[a, b] = w[e]
        if not t.directed:
            W[b, a] = w[e]
        count += 1
    check_weights(W, t, d)
    x = broken(t.signals)
    got = {k: np.array(v.a) for k, v in g.vp.items()}
    need(set(got) == set(x), "signals-lost",
         f"properties {sorted(got)} instead of {sorted(x)}", d)
    for k in x:
        need(same(got[k], x[k], t.rel), "signal-changed",
             f"signal {k}: {got[k]} instead of {x[k]}", d)


CHECKS = dict(pg=check_pg, nx=check_nx, gt=check_gt, file=lambda t, d: None)


def vector(seed, n, dtype, dim):
    r = world.nprng("io", seed)
    shape = (n, dim) if dim else (n,)
    x = r.normal(size=shape) * 10
    if dtype == "wide":
        return x * 10.0 ** r.integers(-200, 200, size=shape)
    if dtype == "nan":
        x.ravel()[r.integers(0, x.size)] = r.choice([np.nan, np.inf, -np.inf])
        return x
    if dtype == "bool":
        return x > 0
    if dtype == "array":
        return x.tolist()
    if dtype == "u1":
        return np.abs(x).astype("u1")
    return x.astype(dtype)


def adjacency(spec):
    W = world.typed(spec, world.adjacency(spec))
    tw = spec.get("twist")
    if tw == "edgeless":
        W = W * 0
    elif tw == "negative" and W.dtype != bool:
        W = -W
    elif tw in ("mixed", "wide") and W.dtype.kind == "f":
        r = world.nprng("twist", spec["seed"])
        F = r.integers(-18, 19, size=W.shape)
        F = np.triu(F) + np.triu(F, 1).T
        W = W * (10.0 ** F if tw == "wide" else np.where(F < 0, -1., 1.))
    elif tw == "small":
        W = (np.abs(W) * 3).astype("u1") if W.max() < 50 else W
    elif tw == "loop":
        W = W.copy()
        W[-1, -1] = 1
    return W


def connected(W):
    n, _ = sparse.csgraph.connected_components(W != 0, connection="strong")
    return n == 1 and len(W) > 3


def user_nx(q):
    """A NetworkX graph that pygsp did not make, and what it is."""
    import networkx as nx
    r = world.nprng("unx", q["seed"])
    n, dirc, multi = q["n"], q["directed"], q["multi"]
    g = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph,
         (1, 1): nx.MultiDiGraph}[dirc, multi]()
    names = [[5 * i + 1, f"n{i}", (i, "x")][int(r.integers(3))]
             for i in range(n)]
    names = [names[k] for k in r.permutation(n)]
    X = {"u": np.full(n, np.nan), "v": np.full(n, np.nan)}
    for i, name in enumerate(names):
        a = {}
        for k in X:
            if r.random() < .7:
                a[k] = X[k][i] = float(np.round(r.normal(), 3))
        g.add_node(name, **a)
    X = {k: x for k, x in X.items() if not np.isnan(x).all()}
    W = np.zeros((n, n))
    for _ in range(int(r.integers(0, 2 * n))):
        i, j = (int(k) for k in r.integers(0, n, 2))
        if not multi and W[i, j]:
            continue
        w = float(np.round(r.uniform(.1, 3), 2))
        attrs = {}
        if r.random() < .8:
            attrs["weight"] = w
        attrs["w"] = 2 * w
        g.add_edge(names[i], names[j], **attrs)
        v = attrs.get(q["weight"], 1.) if q["weight"] else 1.
        W[i, j] += v
        if not dirc and i != j:
            W[j, i] += v
    return g, W, X


def user_gt(q):
    import graph_tool as gt
    r = world.nprng("ugt", q["seed"])
    n, dirc = q["n"], q["directed"]
    g = gt.Graph(directed=dirc)
    g.add_vertex(n)
    w = g.new_edge_property("double")
    w2 = g.new_edge_property("int")
    W = np.zeros((n, n))
    has = r.random() < .8
    for _ in range(int(r.integers(0, 2 * n))):
        i, j = (int(k) for k in r.integers(0, n, 2))
        if not q["multi"] and W[i, j]:
            continue
        e = g.add_edge(i, j)
        w[e] = float(np.round(r.uniform(.1, 3), 2))
        w2[e] = int(r.integers(1, 5))
        v = w[e] if q["weight"] == "weight" and has else \
            w2[e] if q["weight"] == "w" else 1
        W[i, j] += v
        if not dirc and i != j:
            W[j, i] += v
    if has:
        g.ep["weight"] = w
    g.ep["w"] = w2
    X = {}
    for k, ty in (("u", "double"), ("v", "int")):
        if r.random() < .7:
            p = g.new_vertex_property(ty)
            p.a = np.arange(n) * 3
            g.vp[k] = p
            X[k] = np.arange(n) * 3.
    return g, W, X


def scenario(case, ctx, tmp):
    from pygsp import graphs
    c = world.Calls(ctx)
    W0 = adjacency(case["spec"])
    G0 = c.ok("Graph", graphs.Graph, world.as_format(
        W0, case["spec"]["fmt"]), lap_type=case["spec"].get(
            "lap", "combinatorial"))
    things = [Thing("pg", G0, W0, {})]
    n_loaded = 0

    def pick(kind, on):
        c = [t for t in things if t.kind == kind]
        return c[on % len(c)] if c else None

    def add(t, d):
        CHECKS[t.kind](t, d)
        if len(things) < 8:
            things.append(t)
        else:
            things[1 + len(ctx.counts) % 7] = t

    for k, q in enumerate(case["ops"]):
        op, d = q["op"], dict(step=k, op=q["op"])
        src = None
        note = ""
        if op in ("signal", "poke", "drop", "use", "to_nx", "to_gt", "save",
                  "copy"):
            src = pick("pg", q["on"])
            G, n = src.obj, len(src.W)
        if op == "signal":
            x = vector(q["seed"], n, q["dtype"], q["dim"])
            c.ok("set_signal", G.set_signal, x, q["name"])
            src.signals[q["name"]] = np.array(x, float)
            note = q["dtype"]
        elif op == "poke":
            names = sorted(src.signals)
            if names:
                name = names[q["seed"] % len(names)]
                x = src.obj.signals[name]
                i = q["seed"] % n
                src.signals[name] = src.signals[name].copy()
                x[i] = 1
                src.signals[name][i] = 1
        elif op == "drop":
            if src.signals:
                name = sorted(src.signals)[q["seed"] % len(src.signals)]
                del src.obj.signals[name]
                src.signals = {a: b for a, b in src.signals.items()
                               if a != name}
        elif op == "use":
            loops = np.diag(src.W).any() or (src.W < 0).any()
            what = [w for w in q["what"] if w != "signal" and not (
                w == "normalized" and loops)]
            # (ARPACK refuses some tiny or disconnected graphs)
            wide = case["spec"].get("twist") == "wide"
            if connected(src.W) and not (src.W < 0).any() and not wide:
                c.ok(f"use {what}", gens.touch, G, what)
        elif op == "copy":
            H = c.ok("copy", copy.deepcopy, G) if q["how"] == "deepcopy" else \
                c.ok("copy", lambda: pickle.loads(pickle.dumps(G)))
            add(Thing("pg", H, src.W, dict(src.signals), src.rel), d)
        elif op == "to_nx":
            add(Thing("nx", c.ok("to_networkx", G.to_networkx), src.W,
                      dict(src.signals), src.rel), d)
        elif op == "to_gt":
            add(Thing("gt", c.ok("to_graphtool", G.to_graphtool), src.W,
                      dict(src.signals), src.rel), d)
        elif op == "from_nx":
            src = pick("nx", q["on"])
            if src is None:
                continue
            H = c.ok("from_networkx", graphs.Graph.from_networkx, src.obj)
            add(Thing("pg", H, src.W, dict(src.signals), src.rel), d)
            n_loaded += 1
        elif op == "from_gt":
            src = pick("gt", q["on"])
            if src is None:
                continue
            H = c.ok("from_graphtool", graphs.Graph.from_graphtool, src.obj)
            add(Thing("pg", H, src.W, dict(src.signals), src.rel), d)
            n_loaded += 1
        elif op == "save":
            fmt, backend = q["fmt"], q["backend"]
            if fmt == "gml" and n and np.abs(src.W).max() >= 2 ** 31:
                continue
            ext = fmt if not q["explicit"] else "dat"
            path = os.path.join(tmp, f"graph{q['path']}.{ext}")
            kw = dict(backend=backend)
            if q["explicit"]:
                kw["fmt"] = fmt
            c.ok(f"save {fmt} {backend}", G.save, path, **kw)
            things[:] = [t for t in things
                         if not (t.kind == "file" and t.obj == path)]
            rel = 1e-5 if (fmt, backend) == ("gml", "graph-tool") else 0
            t = Thing("file", path, src.W, dict(src.signals),
                      max(rel, src.rel), kw=kw)
            add(t, d)
            note = f"{fmt} {backend}"
        elif op == "load":
            src = pick("file", q["on"])
            if src is None:
                continue
            H = c.ok(f"load {src.obj[-12:]} {src.kw}", graphs.Graph.load,
                     src.obj, **src.kw)
            d.update(src.kw, names=sorted(src.signals))
            add(Thing("pg", H, src.W, dict(src.signals), src.rel), d)
            n_loaded += 1
            note = f"{os.path.basename(src.obj)} {src.kw}"
        elif op == "mutate":
            src = pick("nx" if q["seed"] % 2 else "gt", q["on"])
            if src is None:
                continue
            src.W, src.signals = src.W.copy(), dict(src.signals)
            if src.kind == "nx" and src.obj.number_of_edges():
                a, b = list(src.obj.edges)[0][:2]
                src.obj[a][b]["weight"] = 7.5
                src.W[a, b] = 7.5
                if not src.obj.is_directed():
                    src.W[b, a] = 7.5
                elif not src.directed:
                    things.remove(src)
                    src = None
            elif src.kind == "gt" and src.obj.num_vertices():
                for name, x in broken(src.signals).items():
                    if name in src.signals:
                        src.obj.vp[name].a[0] = 1
                        src.signals[name] = x.copy()
                        src.signals[name][0] = 1
                        break
                if q["seed"] % 3 == 0:
                    # new vertices move the arrays of graph-tool
                    src.obj.add_vertex(5000)
                    things.remove(src)
                    src = None
        elif op == "user_nx":
            g, W, X = user_nx(q)
            H = c.ok("from_networkx", graphs.Graph.from_networkx, g,
                     weight=q["weight"])
            add(Thing("pg", H, W, X, 1e-12), d)
            n_loaded += 1
        elif op == "user_gt":
            g, W, X = user_gt(q)
            H = c.ok("from_graphtool", graphs.Graph.from_graphtool, g,
                     weight=q["weight"] or "absent")
            add(Thing("pg", H, W, X, 1e-12), d)
            n_loaded += 1
        if src is not None:
            # the source is what it was, whatever was made of it
            CHECKS[src.kind](src, dict(d, object="source"))
        ctx.state((op, note, case["spec"]["kind"], case["spec"].get("twist"),
                   sorted({x.ndim for x in src.signals.values()})
                   if src else 0))
        ctx.log(k, op, note, len(things),
                [f"{np.nansum(t.W):.6g}" for t in things])
    for t in things:
        CHECKS[t.kind](t, dict(step="end"))
    ctx.probe("imports and loads compared", n_loaded)
    ctx.trivial = not n_loaded


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="dst-c07-")
    sim = Sim()
    try:
        sim.run_inline(lambda th: scenario(case, ctx, tmp))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        ctx.steps += sim.total
        ctx.log("digest", sim.digest)
