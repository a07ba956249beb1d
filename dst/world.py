"""Graphs for the simulated workloads, and their independent dense model."""

import json

import numpy as np
from scipy import sparse
from scipy.sparse.linalg import ArpackError, ArpackNoConvergence

from . import seams
from .core import Violation


def nprng(*key):
    import zlib
    return seams._real_default_rng(
        [zlib.crc32(json.dumps(k).encode()) for k in key])


# ---------------------------------------------------------------- graph specs

KINDS = ["er", "er_w", "er_dir", "path", "ring", "star", "complete",
         "isolated", "two", "tree", "sbm_w", "loops", "int", "bool", "f32"]
FMTS = ["dense", "csr", "csc", "coo", "lil", "csr_array"]


def spec_graph(rng, kinds=None, nmin=4, nmax=16, scales=True, laps=True,
               big=.03):
    """A random graph specification (JSON)."""
    kind = rng.choice(kinds or KINDS)
    n = rng.randint(nmin, nmax)
    if rng.random() < big:
        # (rarely, for what depends on the size)
        n = rng.choice([rng.randint(17, 40), rng.randint(41, 130)])
    spec = dict(kind=kind, n=n,
                seed=rng.getrandbits(24), fmt=rng.choice(FMTS))
    if scales and rng.random() < 0.25:
        spec["scale"] = rng.choice([1e-6, 1e-3, 1e3, 1e6])
    if laps and rng.random() < 0.4:
        spec["lap"] = "normalized"
    return spec


def adjacency(spec):
    """Dense adjacency matrix of a specification."""
    n, kind = spec["n"], spec["kind"]
    r = nprng("adj", spec["seed"], n, kind)
    W = np.zeros((n, n))

    def tree():
        for i in range(1, n):
            j = int(r.integers(0, i))
            W[i, j] = W[j, i] = r.uniform(0.5, 2)

    if kind in ("er", "er_w", "int", "bool", "f32", "loops"):
        tree()
        M = np.triu(r.uniform(size=(n, n)) < 0.3, 1)
        V = r.uniform(0.1, 2, size=(n, n)) * M
        W = np.maximum(W, V + V.T)
        if kind in ("er", "bool"):
            W = (W != 0).astype(float)
        if kind == "int":
            W = np.ceil(W * 3)
        if kind == "loops":
            for i in r.choice(n, size=max(1, n // 4), replace=False):
                W[i, i] = r.uniform(0.5, 2)
    elif kind == "er_dir":
        tree()
        W = np.triu(W) + (r.uniform(size=(n, n)) < 0.25) * \
            r.uniform(0.1, 2, size=(n, n))
        W -= np.diag(np.diag(W))
    elif kind == "path":
        for i in range(n - 1):
            W[i, i + 1] = W[i + 1, i] = 1
    elif kind == "ring":
        for i in range(n):
            W[i, (i + 1) % n] = W[(i + 1) % n, i] = 1
    elif kind == "star":
        W[0, 1:] = W[1:, 0] = r.uniform(0.5, 2, size=n - 1)
    elif kind == "complete":
        W[:] = 1
        W -= np.eye(n)
    elif kind == "isolated":
        tree()
        k = max(1, n // 4)
        W[-k:, :] = 0
        W[:, -k:] = 0
        W[0, 1] = W[1, 0] = 1.5
    elif kind == "two":
        tree()
        h = n // 2
        W[:h, h:] = 0
        W[h:, :h] = 0
        W[0, 1] = W[1, 0] = 1.
        W[-1, -2] = W[-2, -1] = 1.
    elif kind == "tree":
        tree()
    elif kind == "sbm_w":
        z = np.sort(r.integers(0, 3, n))
        P = np.where(z[:, None] == z[None], 0.8, 0.1)
        M = np.triu(r.uniform(size=(n, n)) < P, 1)
        V = r.uniform(0.5, 2, size=(n, n)) * M
        W = V + V.T
        tree()
    else:
        raise ValueError(kind)
    if kind not in ("int", "bool"):
        W = W * spec.get("scale", 1)
    return W


def as_format(W, fmt):
    if fmt == "dense":
        return np.array(W)
    if fmt == "csr_array":
        return sparse.csr_array(W)
    return getattr(sparse, fmt + "_matrix")(W)


def typed(spec, W):
    if spec["kind"] == "int":
        return W.astype(int)
    if spec["kind"] == "bool":
        return W.astype(bool)
    if spec["kind"] == "f32":
        return W.astype(np.float32)
    return W


def coords_for(spec, dim=2):
    return nprng("coords", spec["seed"], spec["n"]).uniform(
        size=(spec["n"], dim))


def build(spec, coords=False):
    """(Graph, Model) of a specification."""
    from pygsp import graphs
    W = typed(spec, adjacency(spec))
    kw = {}
    if coords:
        kw["coords"] = coords_for(spec)
    G = graphs.Graph(as_format(W, spec.get("fmt", "csr")),
                     lap_type=spec.get("lap", "combinatorial"), **kw)
    return G, Model(W.astype(float), spec.get("lap", "combinatorial"),
                    f32=spec["kind"] == "f32")


# -------------------------------------------------------------- dense model

class Model:
    """What the graph is, computed independently with dense algebra."""

    def __init__(self, W, lap="combinatorial", f32=False):
        self.W = np.array(W, float)
        self.n = len(W)
        self.lap = lap
        self.f32 = f32
        self.directed = bool((self.W != self.W.T).any())
        self.loops = bool((np.diag(self.W) != 0).any())
        self.S = (self.W + self.W.T) / 2
        if self.directed:
            self.dw = (self.W.sum(0) + self.W.sum(1)) / 2
            nz = self.W != 0
            self.d = (nz.sum(0) + nz.sum(1)) / 2
        else:
            self.dw = self.W.sum(0)
            self.d = (self.W != 0).sum(1)
        if self.directed:
            self.edges = {(int(i), int(j)): self.W[i, j]
                          for i, j in zip(*np.nonzero(self.W))}
        else:
            self.edges = {(int(i), int(j)): self.W[i, j]
                          for i, j in zip(*np.nonzero(np.triu(self.W)))}
        self._cache = {}

    @property
    def exact_normalized(self):
        """Self-loops are only fully ignored by combinatorial Laplacians."""
        return not self.loops

    def L(self, lap=None):
        lap = lap or self.lap
        if lap == "combinatorial":
            return np.diag(self.dw) - self.S
        with np.errstate(all="ignore"):
            h = np.where(self.dw > 0, 1 / np.sqrt(self.dw), 0)
        L = np.eye(self.n) - h[:, None] * self.S * h[None]
        iso = self.dw == 0
        L[iso, iso] = 0
        return L

    def eig(self, lap=None):
        lap = lap or self.lap
        if lap not in self._cache:
            L = self.L(lap)
            self._cache[lap] = np.linalg.eigh((L + L.T) / 2)
        return self._cache[lap]

    def lmax(self, lap=None):
        return float(self.eig(lap)[0][-1])

    @property
    def connected(self):
        def reach(A):
            seen, todo = {0}, [0]
            while todo:
                for j in np.nonzero(A[todo.pop()])[0]:
                    if int(j) not in seen:
                        seen.add(int(j))
                        todo.append(int(j))
            return len(seen) == self.n
        return reach(self.W) and (not self.directed or reach(self.W.T))

    def simple_spectrum(self, lap=None):
        e = self.eig(lap)[0]
        return bool(np.min(np.diff(e)) > 1e-4 * e[-1]) if self.n > 1 else True

    def tol(self, factor=1.0):
        """Absolute accuracy expected of spectral quantities."""
        eps = 2e-5 if self.f32 else 1e-9
        return factor * eps * max(self.lmax(), 1e-300) * self.n

    def near(self, single, double):
        """A tolerance by precision: single precision errs more on larger
        graphs."""
        return single * max(1, self.n / 20) if self.f32 else double


# ------------------------------------------------------------------- checkers

def dense(x):
    return x.toarray() if sparse.issparse(x) else np.asarray(x)


def close(name, got, want, tol, key=None, **detail):
    got, want = dense(got), dense(want)
    if got.shape != want.shape:
        raise Violation(key or f"{name}-shape",
                        f"{name}: shape {got.shape}, expected {want.shape}",
                        **detail)
    if got.size == 0:
        return
    err = np.max(np.abs(got.astype(complex) - want)) \
        if np.iscomplexobj(got) or np.iscomplexobj(want) else \
        np.max(np.abs(got.astype(float) - want.astype(float)))
    if not err <= tol:
        raise Violation(key or f"{name}-wrong",
                        f"{name}: off by {err:.3g} (tolerance {tol:.3g})",
                        **detail)


def check_L(G, m, **d):
    close("L", G.L, m.L(), m.tol(), **d)
    if G.lap_type != m.lap:
        raise Violation("lap_type-wrong",
                        f"lap_type is {G.lap_type}, not {m.lap}", **d)


def check_basis(G, m, k=None, U=None, e=None, strict=True, **d):
    """The (partial) Fourier basis is one of the current Laplacian."""
    U = G.U if U is None else U
    e = G.e if e is None else e
    k = m.n if k is None else k
    if U.shape != (m.n, k) or e.shape != (k,):
        raise Violation("basis-shape",
                        f"U {U.shape}, e {e.shape}, expected {k} of {m.n}",
                        **d)
    L, et = m.L(), m.eig()[0]
    t = m.tol(10) if k == m.n else m.tol(1e3)
    close("eigenpairs", L @ U, U * e[None], t, key="basis-wrong", **d)
    close("U'U", U.T @ U, np.eye(k), m.near(1e-4, 1e-7),
          key="basis-wrong", **d)
    if (np.diff(e) < -t).any():
        raise Violation("eigenvalues-unsorted", "e is not sorted", **d)
    if k == m.n:
        close("e", e, et, t, key="eigenvalues-wrong", **d)
        if abs(e[0]) > m.tol():
            raise Violation("eigenvalues-wrong", f"e[0]={e[0]}", **d)
    elif strict and m.simple_spectrum():
        close("e", e, et[:k], m.tol(1e5), key="eigenvalues-wrong", **d)


def lmax_valid(v, m, method=None):
    """Is v an acceptable largest eigenvalue, for the way it was obtained?"""
    t = m.lmax()
    rel = m.near(1e-4, 1e-8)
    low = t * (1 - rel)
    if method not in ("fourier", "bounds"):
        # The Lanczos estimate (tolerance 0.5%, plus 1%) is not a strict
        # bound: an unlucky starting vector may find the second eigenvalue.
        e = m.eig()[0]
        low = .97 * (e[-2] if m.n > 1 and e[-2] > .8 * t else t)
    if not np.isfinite(v) or v < low - 1e-300:
        return False
    if method == "fourier":
        return bool(v <= t * (1 + rel) + 1e-300)
    if method == "lanczos":
        return bool(v <= 1.01 * t * (1 + rel))
    # upper bounds: at most the crudest of the documented ones
    if m.lap == "normalized":
        hi = 2.02
    else:
        hi = 2.02 * max(np.max(m.dw), 1e-300)
    return bool(v <= hi * (1 + rel))


def check_lmax(G, m, method=None, v=None, **d):
    v = float(G.lmax if v is None else v)
    if not lmax_valid(v, m, method):
        raise Violation(
            "lmax-invalid",
            f"lmax={v!r} ({method}) but the largest eigenvalue of the "
            f"{m.lap} Laplacian is {m.lmax()!r}", **d)


def check_D(G, m, D=None, **d):
    """L = D D', one column per edge, oriented from source to target."""
    D = dense(G.D if D is None else D)
    if D.shape != (m.n, len(m.edges)):
        raise Violation("D-shape", f"D is {D.shape}, expected "
                        f"{(m.n, len(m.edges))}", **d)
    if m.lap == "combinatorial" or m.exact_normalized:
        close("DD'", D @ D.T, m.L(), m.tol(), key="D-wrong", **d)
    # each column is an edge (or a null column for a self-loop)
    cols = {}
    for c in D.T:
        nz = np.nonzero(c)[0]
        if len(nz) == 0:
            cols["loop"] = cols.get("loop", 0) + 1
            continue
        if len(nz) != 2:
            raise Violation("D-wrong", f"a column has {len(nz)} non-zeros",
                            **d)
        s, t = (nz[0], nz[1]) if c[nz[0]] < 0 else (nz[1], nz[0])
        cols[(int(s), int(t))] = (c[s], c[t])
    half = 2 if m.directed else 1
    for (s, t), w in m.edges.items():
        if s == t:
            continue
        if (s, t) not in cols:
            raise Violation("D-wrong", f"no column for edge {(s, t)}", **d)
        a, b = cols[(s, t)]
        if m.lap == "combinatorial":
            wa = wb = w
        else:
            wa, wb = w / m.dw[s], w / m.dw[t]
        for got, want in ((a, -np.sqrt(wa / half)), (b, np.sqrt(wb / half))):
            if abs(got - want) > (m.near(1e-4, 1e-9)) * abs(want):
                raise Violation("D-wrong", f"edge {(s, t)}: {got}, expected "
                                f"{want}", **d)


def check_structure(G, m, what=None, **d):
    """Cached structural facts."""
    def fact(name, got, want):
        if got != want:
            raise Violation("structure-wrong", f"{name}: {got}, not {want}",
                            fact=name, **d)
    checks = [
        lambda: fact("n_vertices", G.n_vertices, m.n),
        lambda: fact("N", G.N, m.n),
        lambda: fact("n_edges", G.n_edges, len(m.edges)),
        lambda: fact("Ne", G.Ne, len(m.edges)),
        lambda: fact("is_directed", bool(G.is_directed()), m.directed),
        lambda: fact("is_connected", bool(G.is_connected()), m.connected),
        lambda: fact("has_loops", bool(G.has_loops()), m.loops),
        lambda: fact("is_weighted", bool(G.is_weighted()),
                     bool((m.W[m.W != 0] != 1).any())),
        lambda: close("W", G.W, m.W, 0 if not m.f32 else 1e-6 * abs(
            m.W).max(), key="structure-wrong", **d),
        lambda: close("A", dense(G.A).astype(float), (m.W > 0).astype(float),
                      0, key="structure-wrong", **d),
        lambda: close("d", np.ravel(G.d), m.d, 0, key="structure-wrong", **d),
        lambda: close("dw", np.ravel(G.dw), m.dw,
                      (1e-5 if m.f32 else 1e-11) * (abs(m.dw).max() + 1e-300),
                      key="structure-wrong", **d),
        lambda: check_edges(G, m, **d),
    ]
    for k, c in enumerate(checks):
        if what is None or k in what:
            c()


N_STRUCTURE = 13


def check_edges(G, m, edges=None, **d):
    s, t, w = G.get_edge_list() if edges is None else edges
    got = {(int(a), int(b)): float(c) for a, b, c in zip(s, t, w)}
    if len(got) != len(s) or set(got) != set(m.edges):
        raise Violation("edges-wrong", f"{sorted(got)[:8]} instead of "
                        f"{sorted(m.edges)[:8]}", **d)
    for k, v in m.edges.items():
        if abs(got[k] - v) > (1e-6 if m.f32 else 0) * abs(v):
            raise Violation("edges-wrong", f"weight of {k}: {got[k]}, not {v}",
                            **d)


def signal(spec, n, *shape, key=0):
    return nprng("sig", spec, n, list(shape), key).normal(size=(n,) + shape)


def genuine(e):
    """Does ARPACK report that it found no answer (legal) or a misuse?"""
    return isinstance(e, ArpackNoConvergence) or (
        isinstance(e, ArpackError) and "No shifts" in str(e))


class Calls:
    """Calls into the library; unexpected exceptions are violations."""

    def __init__(self, ctx):
        self.ctx = ctx

    def ok(self, name, fn, *a, allow=(), **k):
        """Call that must succeed (or raise one of the allowed types)."""
        from . import kernel
        try:
            return fn(*a, **k)
        except (Violation, kernel.SimAbort, kernel.HarnessError):
            raise
        except Exception as e:
            if isinstance(e, allow) and (
                    genuine(e) or not isinstance(e, ArpackError)):
                self.ctx.probe(f"allowed {type(e).__name__}")
                return e
            import traceback
            raise Violation(f"unexpected-{type(e).__name__}",
                            f"{name}: {type(e).__name__}: {str(e)[:300]}",
                            traceback=traceback.format_exc()[-1500:])

    def fails(self, name, types, fn, *a, **k):
        """Call that must be refused with one of these exception types."""
        from . import kernel
        try:
            r = fn(*a, **k)
        except types:
            return
        except (Violation, kernel.SimAbort, kernel.HarnessError):
            raise
        except Exception as e:
            raise Violation("wrong-refusal", f"{name}: {type(e).__name__}: "
                            f"{str(e)[:200]}, expected {types}")
        raise Violation("not-refused", f"{name} returned {type(r).__name__}")
