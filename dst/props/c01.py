"""C01: spectral answers describe the current Laplacian after any history."""

import gc

import numpy as np
from scipy.sparse.linalg import ArpackError

from .. import world
from ..core import Violation
from ..kernel import Sim, StepBudgetExceeded
from ..world import check_basis, check_D, check_L, check_lmax, close

LEVEL = "exploration"
TECHNIQUE = "seeded operation histories against a dense reference model"
NOTE = ("Seeded search over histories of public operations on up to three "
        "live graphs; every answer is compared with an independent dense "
        "model. Trusts LAPACK for the model's eigenvalues. Nothing is "
        "claimed beyond the histories explored.")
RULE = ("A run is a seeded history of Laplacian changes, full and partial "
        "Fourier basis computations, lmax estimations, differential operator "
        "computations, layouts, transforms, derived graphs, refused calls and "
        "queries over 1 to 3 graphs alive at once (created, replaced, "
        "garbage collected during the run); every answer is compared with a "
        "dense model that is recomputed from the adjacency matrix. A run is "
        "non-trivial if it contains at least one query after a change of "
        "cached state; distinctness is by the hash of its event log.")
STATES = ("(Laplacian type, cached basis size class, lmax method, last "
          "operation, graph kind) tuples visited")
REAL = "pygsp, NumPy, SciPy (LAPACK, ARPACK)"
STUBS = "seed source of unseeded generators (ARPACK starting vectors)"
ASSUMPTIONS = [
    "normalized Laplacians of graphs with self-loops are not compared",
    "ARPACK not converging is a legal outcome of a partial basis",
]
QUICK = dict(cases=12000, seconds=75, batch=40)
THOROUGH = dict(cases=400000, seconds=780, batch=60)

QUERIES = ["U", "e", "coherence", "lmax", "D", "L", "gft", "igft", "grad",
           "div", "dirichlet", "structure", "edges"]
OPS = ["lap"] * 5 + ["basis"] * 3 + ["partial"] * 4 + ["lmax"] * 4 + \
    ["diff", "eigenmap", "subgraph", "components", "linegraph", "new",
     "signal", "coords", "bad", "bad", "relap"]


def gen(rng, i, tier):
    many = tier == "thorough" and rng.random() < .3
    graphs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = world.spec_graph(rng, nmax=40 if many else 14)
        if s["kind"] == "loops":
            s["lap"] = "combinatorial"
        graphs.append(s)
    ops = []
    for _ in range(rng.randint(3, 24 if many else 12)):
        op = dict(op=rng.choice(OPS), g=rng.randrange(len(graphs)))
        kind = op["op"]
        if kind == "lap":
            op["type"] = rng.choice(["combinatorial", "normalized"])
        elif kind == "partial":
            op["k"] = rng.randint(2, 8)
        elif kind == "lmax":
            op["method"] = rng.choice(["lanczos", "bounds"])
        elif kind == "new":
            op["spec"] = world.spec_graph(rng, nmax=14)
            if op["spec"]["kind"] == "loops":
                op["spec"]["lap"] = "combinatorial"
        elif kind == "bad":
            op["what"] = rng.choice(["lap", "lmax", "gft", "grad", "div",
                                     "signal", "basis", "coords", "W",
                                     "dirichlet", "igft"])
        elif kind in ("subgraph", "coords", "signal", "eigenmap"):
            op["seed"] = rng.getrandbits(16)
        op["q"] = [rng.choice(QUERIES)
                   for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        ops.append(op)
    return dict(graphs=graphs, ops=ops)


class Slot:
    """A graph, its model, and what is known of its caches."""

    def __init__(self, spec):
        self.spec = spec
        self.G, self.m = world.build(spec, coords=True)
        self.basis = None     # number of eigenvectors, if computed
        self.method = None    # how lmax was last obtained, if known
        self.signals = {}

    def relap(self, lap):
        self.m.lap = lap
        self.basis = self.method = None


def query(slot, what, c, d):
    G, m = slot.G, slot.m
    n = m.n
    if what in ("U", "e", "coherence"):
        v = c.ok(f"G.{what}", lambda: getattr(G, what), allow=(
            ArpackError,))
        if what == "coherence":
            slot.full()
        sizes = {n, slot.basis or n}
        U, e = c.ok("G.U", lambda: G.U), c.ok("G.e", lambda: G.e)
        k = U.shape[1]
        if k not in sizes:
            raise Violation("basis-shape", f"{k} eigenvectors, expected one "
                            f"of {sorted(sizes)}", **d)
        check_basis(G, m, k, U, e, **d)
        if slot.basis is None:
            slot.full()
        if what == "coherence" and abs(v - np.abs(U).max()) > 1e-12:
            raise Violation("coherence-wrong", f"{v} != {np.abs(U).max()}",
                            **d)
    elif what == "lmax":
        v = c.ok("G.lmax", lambda: G.lmax)
        check_lmax(G, m, slot.method, v, **d)
    elif what == "D":
        check_D(G, m, c.ok("G.D", lambda: G.D), **d)
    elif what == "L":
        check_L(G, m, **d)
    elif what in ("gft", "igft"):
        if slot.basis is not None and slot.basis < n:
            return
        s = world.signal(n, n)
        if what == "gft":
            r = c.ok("gft", G.gft, s)
            slot.full()
            close("gft", r, G.U.T @ s, m.near(1e-4, 1e-9), **d)
            back = c.ok("igft", G.igft, r)
            close("igft(gft)", back, s, m.near(1e-3, 1e-7), **d)
        else:
            r = c.ok("igft", G.igft, s)
            slot.full()
            close("igft", r, G.U @ s, m.near(1e-4, 1e-9), **d)
        check_basis(G, m, **d)
    elif what == "grad":
        s = world.signal(n, n, 2)
        r = c.ok("grad", G.grad, s)
        check_D(G, m, **d)
        close("grad", r, world.dense(G.D).T @ s,
              1e-9 * (1 + np.abs(r).max()) if r.size else 0, **d)
        if m.lap == "combinatorial" or m.exact_normalized:
            want = np.einsum("ij,ik,kj->", s, m.L(), s)
            got = float(np.sum(np.square(r)))
            if abs(got - want) > 1e3 * m.tol():
                raise Violation("energy-wrong", f"|grad|^2={got}, "
                                f"xLx={want}", **d)
    elif what == "div":
        s = world.signal(n, n)
        g = c.ok("grad", G.grad, s)
        r = c.ok("div", G.div, g)
        if m.lap == "combinatorial" or m.exact_normalized:
            close("div(grad)", r, m.L() @ s, 1e2 * m.tol(), **d)
    elif what == "dirichlet":
        s = world.signal(n, n)
        r = float(c.ok("dirichlet_energy", G.dirichlet_energy, s))
        if abs(r - s @ m.L() @ s) > 1e2 * m.tol():
            raise Violation("energy-wrong", f"{r} != {s @ m.L() @ s}", **d)
    elif what == "structure":
        world.check_structure(G, m, **d)
    elif what == "edges":
        world.check_edges(G, m, **d)


def _full(self):
    if self.basis != self.m.n:
        self.basis = self.m.n
        self.method = "fourier"


Slot.full = _full


def apply(slots, op, c, ctx, d):
    slot = slots[op["g"]]
    G, m, n = slot.G, slot.m, slot.m.n
    kind = op["op"]
    if kind == "lap":
        if op["type"] == "normalized" and m.loops:
            return
        c.ok("compute_laplacian", G.compute_laplacian, op["type"])
        if op["type"] != m.lap:
            slot.relap(op["type"])
            ctx.probe("laplacian changed")
        check_L(G, m, **d)
    elif kind == "relap":
        c.ok("compute_laplacian", G.compute_laplacian, m.lap)
    elif kind == "basis":
        c.ok("compute_fourier_basis", G.compute_fourier_basis)
        slot.full()
    elif kind == "partial":
        k = min(op["k"], n)
        before = slot.basis
        r = c.ok("compute_fourier_basis(k)", G.compute_fourier_basis, k,
                 allow=(ArpackError,))
        if isinstance(r, Exception):
            ctx.fault("solver did not converge (genuine)")
            return
        if k == n:
            slot.full()
        elif before is None or k > before:
            slot.basis = k
            ctx.probe("partial basis")
    elif kind == "lmax":
        c.ok("estimate_lmax", G.estimate_lmax, op["method"])
        slot.method = op["method"]
    elif kind == "diff":
        c.ok("compute_differential_operator", G.compute_differential_operator)
        check_D(G, m, **d)
    elif kind == "eigenmap":
        dim = 2 + op["seed"] % 2
        if n < dim + 3:
            return
        r = c.ok("set_coordinates(eigenmap)", G.set_coordinates,
                 f"laplacian_eigenmap{dim}D", allow=(ArpackError,))
        if isinstance(r, Exception):
            return
        if slot.basis is None or slot.basis < dim + 1:
            slot.basis = dim + 1
        U, e = G.U, G.e
        check_basis(G, m, U.shape[1], U, e, **d)
        close("eigenmap", G.coords, U[:, 1:dim + 1], 0, **d)
    elif kind == "subgraph":
        r = world.nprng(op["seed"])
        v = r.choice(n, size=int(r.integers(2, n + 1)), replace=False)
        if op["seed"] % 2:
            v = v.tolist()
        sub = c.ok("subgraph", G.subgraph, v)
        # A subgraph has its own, independent caches.
        sm = world.Model(m.W[np.ix_(v, v)], m.lap, m.f32)
        world.check_structure(sub, sm, **d)
        check_L(sub, sm, **d)
        close("coords", sub.coords, G.coords[v], 0, **d)
        for name, s in slot.signals.items():
            close("signal", sub.signals[name], s[v], 0, **d)
        if len(sm.edges) > 1 and not m.f32:
            sub.compute_fourier_basis()
            check_basis(sub, sm, **d)
            check_lmax(sub, sm, "fourier", **d)
    elif kind == "components":
        if m.directed:
            c.fails("extract_components", NotImplementedError,
                    G.extract_components)
            return
        parts = c.ok("extract_components", G.extract_components)
        seen = []
        for p in parts:
            idx = list(p.info["orig_idx"])
            seen += idx
            pm = world.Model(m.W[np.ix_(idx, idx)], m.lap, m.f32)
            if not pm.connected:
                raise Violation("component-wrong", f"{idx} is not connected",
                                **d)
            world.check_structure(p, pm, **d)
        if sorted(seen) != list(range(n)):
            raise Violation("component-wrong", f"components {seen}", **d)
        out = [m.W[i, j] for a in parts for b in parts if a is not b
               for i in a.info["orig_idx"] for j in b.info["orig_idx"]]
        if np.any(out):
            raise Violation("component-wrong", "components are linked", **d)
    elif kind == "linegraph":
        from pygsp import graphs
        if m.loops or m.directed or not m.edges:
            return
        lg = c.ok("LineGraph", graphs.LineGraph, G)
        s, t, _ = G.get_edge_list()
        B = np.zeros((n, len(s)))
        B[s, np.arange(len(s))] = B[t, np.arange(len(s))] = 1
        want = ((B.T @ B) > 0) - np.eye(len(s))
        close("line graph", lg.W, want, 0, **d)
        check_D(G, m, **d)
    elif kind == "new":
        slots[op["g"]] = None
        del slot, G
        gc.collect(0)
        slots[op["g"]] = Slot(op["spec"])
    elif kind == "signal":
        s = world.signal(op["seed"], n, *([2] if op["seed"] % 3 == 0 else []))
        name = f"s{op['seed'] % 3}"
        c.ok("set_signal", G.set_signal, s, name)
        slot.signals[name] = s
    elif kind == "coords":
        c.ok("set_coordinates", G.set_coordinates,
             ["ring2D", "line1D", "line2D", "random2D", "random3D"]
             [op["seed"] % 5], **({"seed": 3} if op["seed"] % 5 > 2 else {}))
    elif kind == "bad":
        w = op["what"]
        E = (ValueError, TypeError)
        ctx.fault("invalid call")
        if w == "lap":
            c.fails("compute_laplacian", E, G.compute_laplacian, "unknown")
        elif w == "lmax":
            c.fails("estimate_lmax", E, G.estimate_lmax, "unknown")
        elif w == "gft":
            c.fails("gft", E, G.gft, np.zeros(n + 1))
        elif w == "igft":
            c.fails("igft", E, G.igft, np.zeros(n + 1))
        elif w == "grad":
            c.fails("grad", E, G.grad, np.zeros(n + 2))
        elif w == "dirichlet":
            c.fails("dirichlet", E, G.dirichlet_energy, np.zeros(n + 2))
        elif w == "div":
            c.fails("div", E, G.div, np.zeros(len(m.edges) + 1))
        elif w == "signal":
            c.fails("set_signal", E, G.set_signal, np.zeros(n + 1), "bad")
            if "bad" in G.signals:
                raise Violation("refused-signal-kept", "set_signal failed but "
                                "stored the signal", **d)
        elif w == "basis":
            c.fails("compute_fourier_basis", E, G.compute_fourier_basis,
                    n + 3)
        elif w == "coords":
            old = G.coords
            c.fails("set_coordinates", E, G.set_coordinates, "unknown")
            c.fails("set_coordinates", E, G.set_coordinates,
                    np.zeros((n + 1, 2)))
            if G.coords is not old:
                raise Violation("coords-changed", "by a refused call", **d)
        elif w == "W":
            def assign():
                G.W = m.W
            c.fails("G.W = ...", AttributeError, assign)


def scenario(case, ctx):
    c = world.Calls(ctx)
    slots = [c.ok("Graph", Slot, s) for s in case["graphs"]]
    for k, op in enumerate(case["ops"]):
        d = dict(step=k, op=op["op"])
        if op["op"] == "new":
            c.ok("Graph", apply, slots, op, c, ctx, d)
        else:
            apply(slots, op, c, ctx, d)
        for q in op["q"]:
            query(slots[op["g"]], q, c, dict(d, query=q))
        s = slots[op["g"]]
        b = None if s.basis is None else \
            "full" if s.basis == s.m.n else "partial"
        ctx.state((s.m.lap, b, s.method, op["op"], s.spec["kind"]))
        ctx.log(k, op["op"], s.m.lap, s.basis, s.method,
                len(s.m.edges), round(s.m.lmax(), 6))
    for k, slot in enumerate(slots):
        for q in ["lmax", "L", "U", "e", "coherence", "D", "lmax", "gft",
                  "grad", "div", "dirichlet", "structure", "edges"]:
            query(slot, q, c, dict(step="end", graph=k, query=q))
        for name, s in slot.signals.items():
            close("signal", slot.G.signals[name], s, 0, step="end")
    ctx.trivial = not case["ops"]


def run(case, ctx):
    sim = Sim()
    try:
        sim.run_inline(lambda th: scenario(case, ctx))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += sim.total
        ctx.log("digest", sim.digest)
