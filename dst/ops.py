"""Operations of the public API, each with its own oracle.

``run`` only calls the package (so that it can be interrupted or run in a
simulated thread); ``check`` compares what it returned with the dense model.
"""

import numpy as np
from numpy.polynomial import chebyshev
from scipy.sparse.linalg import ArpackError

from . import world
from .core import Violation
from .world import close, dense

OPS = {}


class Slot:
    """A graph, its model, and the filter banks that live with it."""

    def __init__(self, spec):
        self.spec = spec
        self.G, self.m = world.build(spec, coords=True)
        self.coords = world.coords_for(spec)
        self.signals = {}
        self.banks = {}
        self.partial = False   # a partial basis may be cached
        self.spectr = None     # the last spectrogram, if any
        self.lmaxes = None     # concurrent values of lmax, if any

    @property
    def n(self):
        return self.m.n


def op(cls):
    cls.name = cls.__name__.lstrip("_")
    OPS[cls.name] = cls
    return cls


class Op:
    mutates = False   # changes what later answers are (not only caches)
    lmax = False      # may compute lmax
    noconv = False    # may legitimately not converge

    @staticmethod
    def gen(rng, spec):
        return {}

    @staticmethod
    def able(s, p):
        return True

    @staticmethod
    def settle(s, p, r):
        """The operation succeeded: update the model."""

    @staticmethod
    def check(s, p, r, d):
        pass


def sig(p, n, *shape):
    return world.signal(p["seed"], n, *shape)


def seeded(rng, **more):
    return dict(seed=rng.getrandbits(16), **more)


# ------------------------------------------------------------------- queries

@op
class basis(Op):
    @staticmethod
    def run(s, p):
        return s.G.U, s.G.e

    @staticmethod
    def settle(s, p, r):
        pass

    @staticmethod
    def check(s, p, r, d):
        U, e = r
        if U.shape[1] != s.n and not s.partial:
            raise Violation("basis-shape", f"U {U.shape} of {s.n}", **d)
        world.check_basis(s.G, s.m, U.shape[1], U, e, **d)


@op
class full_basis(Op):
    mutates = True

    @staticmethod
    def run(s, p):
        s.G.compute_fourier_basis()
        return s.G.U, s.G.e, s.G.coherence, s.G.lmax

    @staticmethod
    def settle(s, p, r):
        s.partial = False

    @staticmethod
    def check(s, p, r, d):
        U, e, c, lm = r
        world.check_basis(s.G, s.m, s.n, U, e, **d)
        if abs(c - np.abs(U).max()) > 1e-12:
            raise Violation("coherence-wrong", f"{c}", **d)
        # (the basis may have been known before another estimate)
        world.check_lmax(s.G, s.m, None, lm, **d)


@op
class partial_basis(Op):
    mutates = True
    noconv = True

    @staticmethod
    def gen(rng, spec):
        return dict(k=rng.randint(2, 7))

    @staticmethod
    def able(s, p):
        return p["k"] < s.n

    @staticmethod
    def run(s, p):
        s.G.compute_fourier_basis(p["k"])
        return s.G.U, s.G.e

    @staticmethod
    def settle(s, p, r):
        s.partial = r[0].shape[1] < s.n

    @staticmethod
    def check(s, p, r, d):
        U, e = r
        if U.shape[1] < p["k"]:
            raise Violation("basis-shape", f"{U.shape} for {p['k']}", **d)
        world.check_basis(s.G, s.m, U.shape[1], U, e, **d)


@op
class lmax(Op):
    lmax = True

    @staticmethod
    def run(s, p):
        return float(s.G.lmax)

    @staticmethod
    def check(s, p, r, d):
        world.check_lmax(s.G, s.m, None, r, **d)


@op
class estimate(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return dict(method=rng.choice(["lanczos", "bounds"]))

    @staticmethod
    def run(s, p):
        s.G.estimate_lmax(p["method"])
        return float(s.G.lmax)

    @staticmethod
    def check(s, p, r, d):
        world.check_lmax(s.G, s.m, None if s.lmaxes else p["method"], r, **d)


@op
class laplacian(Op):
    mutates = True

    @staticmethod
    def gen(rng, spec):
        return dict(type=rng.choice(["combinatorial", "normalized"]))

    @staticmethod
    def able(s, p):
        return not (s.m.loops and p["type"] == "normalized")

    @staticmethod
    def run(s, p):
        s.G.compute_laplacian(p["type"])
        return s.G.L

    @staticmethod
    def settle(s, p, r):
        if s.m.lap != p["type"]:
            s.m.lap = p["type"]
            s.partial = False
            s.spectr = None

    @staticmethod
    def check(s, p, r, d):
        close("L", r, s.m.L(p["type"]), s.m.tol(), **d)


@op
class diff(Op):
    @staticmethod
    def run(s, p):
        s.G.compute_differential_operator()
        return s.G.D

    @staticmethod
    def check(s, p, r, d):
        world.check_D(s.G, s.m, r, **d)


@op
class D(Op):
    @staticmethod
    def run(s, p):
        return s.G.D

    check = diff.check


@op
class structure(Op):
    @staticmethod
    def gen(rng, spec):
        return dict(what=sorted(rng.sample(range(world.N_STRUCTURE), 4)))

    @staticmethod
    def run(s, p):
        G = s.G
        get = [lambda: G.n_vertices, lambda: G.N, lambda: G.n_edges,
               lambda: G.Ne, G.is_directed, G.is_connected, G.has_loops,
               G.is_weighted, lambda: G.W, lambda: G.A, lambda: G.d,
               lambda: G.dw, G.get_edge_list]
        return [get[k]() for k in p["what"]]

    @staticmethod
    def check(s, p, r, d):
        m = s.m
        want = [m.n, m.n, len(m.edges), len(m.edges), m.directed,
                m.connected, m.loops, bool((m.W[m.W != 0] != 1).any())]
        for k, got in zip(p["what"], r):
            if k < 8:
                if bool(got != want[k]):
                    raise Violation("structure-wrong", f"fact {k}: {got}, "
                                    f"not {want[k]}", **d)
            elif k == 12:
                world.check_edges(s.G, m, got, **d)
            else:
                ref = [m.W, (m.W > 0).astype(float), m.d, m.dw][k - 8]
                g = dense(got).astype(float)
                if k >= 10:
                    g = np.ravel(g)
                close(f"fact {k}", g, ref,
                      (1e-5 if m.f32 else 1e-11) * (abs(ref).max() + 1e-300),
                      key="structure-wrong", **d)


@op
class gft(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng, shape=rng.choice([[], [2], [3, 2]]))

    @staticmethod
    def able(s, p):
        return not s.partial

    @staticmethod
    def run(s, p):
        x = sig(p, s.n, *p["shape"])
        y = s.G.gft(x)
        return x, y, s.G.igft(y), s.G.U

    @staticmethod
    def check(s, p, r, d):
        x, y, z, U = r
        t = s.m.near(1e-4, 1e-8)
        close("gft", y, np.tensordot(U, x, ([0], [0])), t, **d)
        close("igft(gft)", z, x, t, **d)
        world.check_basis(s.G, s.m, s.n, U, s.G.e, **d)


@op
class grad(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng)

    @staticmethod
    def run(s, p):
        x = sig(p, s.n)
        y = s.G.grad(x)
        return x, y, s.G.div(y), s.G.dirichlet_energy(x)

    @staticmethod
    def check(s, p, r, d):
        x, y, z, en = r
        if s.m.lap == "combinatorial" or s.m.exact_normalized:
            Lx = s.m.L() @ x
            close("div(grad)", z, Lx, 1e2 * s.m.tol(), **d)
            for e in (en, np.sum(y ** 2)):
                if abs(e - x @ Lx) > 1e3 * s.m.tol():
                    raise Violation("energy-wrong", f"{e} != {x @ Lx}", **d)


@op
class signal(Op):
    mutates = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng, two=rng.random() < .3, name=rng.choice("abc"))

    @staticmethod
    def run(s, p):
        x = sig(p, s.n, *([2] if p["two"] else []))
        s.G.set_signal(x, p["name"])
        return x

    @staticmethod
    def settle(s, p, r):
        s.signals[p["name"]] = sig(p, s.n, *([2] if p["two"] else []))


@op
class coordinates(Op):
    mutates = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng, kind=rng.choice(
            ["line1D", "line2D", "ring2D", "random2D", "random3D", "spring",
             "array"]))

    @staticmethod
    def run(s, p):
        k = p["kind"]
        if k == "array":
            s.G.set_coordinates(sig(p, s.n, 3))
        elif k in ("random2D", "random3D"):
            s.G.set_coordinates(k, seed=p["seed"])
        elif k == "spring":
            s.G.set_coordinates(k, seed=p["seed"], iterations=3)
        else:
            s.G.set_coordinates(k)
        return s.G.coords

    @staticmethod
    def settle(s, p, r):
        s.coords = np.array(r)

    @staticmethod
    def check(s, p, r, d):
        dim = {"line1D": 0, "random3D": 3, "array": 3}.get(p["kind"], 2)
        shape = (s.n, dim) if dim else (s.n,)
        if np.shape(r) != shape or not np.isfinite(r).all():
            raise Violation("coords-wrong", f"{np.shape(r)}", **d)
        if p["kind"] == "array":
            close("coords", r, sig(p, s.n, 3), 0, **d)


# ------------------------------------------------------------ derived graphs

@op
class subgraph(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng)

    @staticmethod
    def run(s, p):
        r = world.nprng("sub", p["seed"])
        v = r.choice(s.n, size=int(r.integers(2, s.n + 1)), replace=False)
        return v, s.G.subgraph(v)

    @staticmethod
    def check(s, p, r, d):
        v, g = r
        m = world.Model(s.m.W[np.ix_(v, v)], s.m.lap, s.m.f32)
        world.check_structure(g, m, **d)
        world.check_L(g, m, **d)


@op
class components(Op):
    @staticmethod
    def able(s, p):
        return not s.m.directed

    @staticmethod
    def run(s, p):
        return s.G.extract_components()

    @staticmethod
    def check(s, p, r, d):
        seen = []
        for c in r:
            idx = list(c.info["orig_idx"])
            seen += idx
            m = world.Model(s.m.W[np.ix_(idx, idx)], s.m.lap, s.m.f32)
            if not m.connected or len(idx) != c.N:
                raise Violation("component-wrong", f"{idx}", **d)
            out = np.setdiff1d(np.arange(s.n), idx)
            if s.m.W[np.ix_(idx, out)].any():
                raise Violation("component-wrong", f"{idx} not closed", **d)
            world.check_structure(c, m, [8, 12], **d)
        if sorted(seen) != list(range(s.n)):
            raise Violation("component-wrong", f"{seen}", **d)


@op
class networkx(Op):
    @staticmethod
    def run(s, p):
        return s.G.to_networkx()

    @staticmethod
    def check(s, p, r, d):
        W = np.zeros((s.n, s.n))
        for a, b, data in r.edges(data=True):
            W[a, b] = data["weight"]
            if not s.m.directed:
                W[b, a] = data["weight"]
        close("networkx weights", W, s.m.W, 1e-6 * abs(s.m.W).max()
              if s.m.f32 else 0, **d)
        check_exported(s, lambda name: np.array(
            [r.nodes[i][name] for i in range(s.n)]), d)


def check_exported(s, get, d):
    for name, x in s.signals.items():
        if x.ndim == 1:
            close("exported signal", get(name), x, 0, **d)
        else:
            for k in range(x.shape[1]):
                close("exported signal", get(f"{name}_{k}"), x[:, k], 0, **d)


@op
class graphtool(Op):
    @staticmethod
    def run(s, p):
        return s.G.to_graphtool()

    @staticmethod
    def check(s, p, r, d):
        W = np.zeros((s.n, s.n))
        w = r.ep["weight"]
        for e in r.edges():
            a, b = int(e.source()), int(e.target())
            W[a, b] = w[e]
            if not s.m.directed:
                W[b, a] = w[e]
        if r.num_vertices() != s.n:
            raise Violation("export-wrong", f"{r.num_vertices()} vertices",
                            **d)
        close("graph-tool weights", W, s.m.W, 1e-6 * abs(s.m.W).max()
              if s.m.f32 else 0, **d)
        check_exported(s, lambda name: np.array(r.vp[name].a), d)


# -------------------------------------------------------------------- filters

def scale_of(s):
    """A scale of the spectrum, independent of what the package estimated."""
    return max(np.max(s.m.dw), 1e-300) if s.m.lap == "combinatorial" else 1.


class Kernel:
    """A user-supplied kernel, which may be asked to fail."""

    armed = []

    def __init__(self, f, fail=None):
        self.f, self.fail, self.calls = f, fail, 0
        if fail is not None:
            Kernel.armed.append(self)

    @classmethod
    def disarm(cls):
        while cls.armed:
            cls.armed.pop().fail = None

    def __call__(self, x):
        self.calls += 1
        if self.fail is not None and self.calls == self.fail[0]:
            raise KERNEL_ERRORS[self.fail[1]]("user kernel failed")
        return self.f(x)


class KernelError(Exception):
    pass


# A kernel may raise anything.
KERNEL_ERRORS = [KernelError] + [
    type(f"Kernel{e.__name__}", (KernelError, e), {}) for e in (
        FloatingPointError, ZeroDivisionError, OverflowError, ValueError,
        TypeError, IndexError, KeyError, AttributeError, NotImplementedError,
        RuntimeError, AssertionError, MemoryError, ImportError, OSError,
        UserWarning, np.linalg.LinAlgError)]


def kernel_fault(rng):
    """At which call, and with which error."""
    return [rng.randint(1, 3), rng.randrange(len(KERNEL_ERRORS))]


def kernels(kind, c):
    """Smooth kernels that do not depend on lmax."""
    return {
        "low": [lambda x: 1 / (1 + x / c)],
        "gauss": [lambda x: np.exp(-(x / c) ** 2)],
        "poly": [lambda x: 1 - x / c + .25 * (x / c) ** 2],
        "two": [lambda x: np.exp(-x / c), lambda x: x / c * np.exp(-x / c)],
        "three": [lambda x: np.cos(x / c), lambda x: (x / c) ** 2,
                  lambda x: np.ones_like(x)],
    }[kind]


def make_bank(s, kind, fail=None):
    from pygsp import filters
    fs = kernels(kind, scale_of(s))
    return filters.Filter(s.G, [Kernel(f, fail) for f in fs])


def reference(m, fs, x, lmaxval=None, order=None, feat=None):
    """Dense functional calculus; n x signals x filters."""
    e, U = m.eig()
    x = x.reshape(m.n, -1) if feat is None else x
    out = []
    for k, f in enumerate(fs):
        if order is None:
            y = np.asarray(f(np.maximum(e, 0)), float)
        else:
            c = chebyshev.Chebyshev.interpolate(
                lambda t: np.asarray(f(t), float), order, [0, lmaxval])
            y = c(e)
        xk = x if feat is None else x[..., k]
        out.append((U * y) @ (U.T @ xk))
    return np.stack(out, -1)


def slack(m, fs, lm, order):
    """How much rounding the Chebyshev recurrence may amplify."""
    e = m.eig()[0]
    t = max(1., 2 * e[-1] / lm - 1)
    grow = np.cosh(order * np.arccosh(t))
    top = max(np.max(np.abs(f(np.linspace(0, lm, 64)))) for f in fs)
    return (m.near(1e-3, 1e-9)) * m.n * top * grow * 10


@op
class filt(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng, kind=rng.choice(["low", "poly", "two", "three"]),
                      method=rng.choice(["exact", "chebyshev", "chebyshev"]),
                      order=rng.choice([1, 5, 30]), nsig=rng.choice([1, 1, 3]),
                      new=rng.random() < .3, dir=rng.choice("aas"))

    @staticmethod
    def able(s, p):
        return not (s.partial and p["method"] == "exact")

    @staticmethod
    def run(s, p):
        # The bank outlives changes of the Laplacian.
        key = "filt", p["kind"]
        if p["new"] or key not in s.banks:
            s.banks[key] = (make_bank(s, p["kind"], p.get("fail")),
                            scale_of(s))
        g, c = s.banks[key]
        if p["dir"] == "s" and g.Nf > 1:
            x = sig(p, s.n, p["nsig"], g.Nf)
            y = g.synthesize(x, method=p["method"], order=p["order"])
        else:
            # (two dimensions, the last being Nf, would mean a synthesis)
            shape = [p["nsig"]] + [1] * (p["nsig"] == g.Nf)
            x = sig(p, s.n, *shape)
            y = g.analyze(x, method=p["method"], order=p["order"])
        return x, y, (float(s.G.lmax) if p["method"] == "chebyshev" and
                      s.lmaxes is None else None), c

    @staticmethod
    def check(s, p, r, d):
        x, y, lm, c = r
        fs = kernels(p["kind"], c)
        synth = x.ndim == 3 and x.shape[-1] > 1
        top = max(np.abs(x).max(), 1) * (s.m.near(1e-3, 1e-7))
        if p["method"] == "exact":
            refs, t = [reference(s.m, fs, x, feat=synth or None)], top
        elif s.lmaxes is not None:
            # lmax may change meanwhile: the true function, up to the order
            if p["order"] < 30:
                return
            refs = [reference(s.m, fs, x, feat=synth or None)]
            t = max(top, 1e-5)
        else:
            refs = [reference(s.m, fs, x, lm, p["order"],
                              feat=synth or None)]
            t = max(top, slack(s.m, fs, lm, p["order"]))
        for ref in refs:
            if synth:
                ref = ref.sum(-1)
            close("filtered signal", y, ref.squeeze(), t,
                  key="filter-wrong", kernel=p["kind"], method=p["method"],
                  **d)


@op
class heat(Op):
    """Designs that follow the largest eigenvalue."""
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng, method=rng.choice(["exact", "chebyshev"]),
                      scale=rng.choice([1, 5, [1, 3]]),
                      norm=rng.random() < .2)

    @staticmethod
    def able(s, p):
        return not s.partial

    @staticmethod
    def run(s, p):
        from pygsp import filters
        x = sig(p, s.n)
        g = filters.Heat(s.G, p["scale"], normalize=p["norm"])
        y = g.filter(x, method=p["method"])
        return x, y, float(s.G.lmax) if s.lmaxes is None else None

    @staticmethod
    def check(s, p, r, d):
        x, y, lm = r
        sc = p["scale"] if isinstance(p["scale"], list) else [p["scale"]]
        e = np.maximum(s.m.eig()[0], 0)

        def ref(lm):
            fs = []
            for t in sc:
                nrm = np.linalg.norm(np.exp(-t * e / lm)) if p["norm"] else 1
                fs.append(lambda v, t=t, nrm=nrm:
                          np.minimum(np.exp(-t * v / lm), 1) / nrm)
            return reference(s.m, fs, x).squeeze()

        tol = np.abs(x).max() * (s.m.near(1e-3, 1e-5))
        if lm is None:
            a, b = ref(.97 * e[-1]), ref(1.01 * e[-1])
            tol = tol + 2 * np.abs(a - b).max()
            lm = e[-1]
        close("heat", y, ref(lm), tol, key="filter-wrong", kernel="Heat",
              method=p["method"], **d)


@op
class frame(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return dict(kind=rng.choice(["low", "two", "three"]))

    @staticmethod
    def able(s, p):
        return not s.partial

    @staticmethod
    def run(s, p):
        g = make_bank(s, p["kind"], p.get("fail"))
        F = g.compute_frame(method="exact")
        b = g.estimate_frame_bounds(x=np.linspace(0, scale_of(s), 20))
        i = s.n // 2
        return F, b, g.localize(i, method="exact")

    @staticmethod
    def check(s, p, r, d):
        F, b, loc = r
        fs = kernels(p["kind"], scale_of(s))
        ref = reference(s.m, fs, np.eye(s.n))    # n x n x k
        t = s.m.near(1e-3, 1e-7)
        # rows of the frame are the localised atoms, filter by filter
        F = F.reshape(len(fs), s.n, s.n)
        close("frame", F, np.moveaxis(ref, -1, 0).swapaxes(1, 2), t,
              key="frame-wrong", **d)
        close("localized", loc.reshape(s.n, len(fs)),
              np.sqrt(s.n) * ref[:, s.n // 2], t * s.n, key="frame-wrong",
              **d)
        x = np.linspace(0, scale_of(s), 20)
        tot = sum(np.asarray(f(x)) ** 2 for f in fs)
        if abs(b[0] - tot.min()) > 1e-9 or abs(b[1] - tot.max()) > 1e-9:
            raise Violation("frame-wrong", f"bounds {b}", **d)


@op
class gabor(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng, which=rng.choice(["gabor", "mod", "mod_first"]))

    @staticmethod
    def able(s, p):
        # (a modulated kernel is a function of the eigenvalue only when
        # eigenvalues are distinct)
        return not s.partial and (
            p["which"] != "mod_first" or s.m.simple_spectrum())

    @staticmethod
    def run(s, p):
        from pygsp import filters
        x = sig(p, s.n)
        key = ("gabor", p["which"])
        if key not in s.banks:
            kern = make_bank(s, "gauss", p.get("fail"))
            if p["which"] == "gabor":
                bank = filters.Gabor(s.G, kern)
            else:
                bank = filters.Modulation(
                    s.G, kern, modulation_first=p["which"] == "mod_first")
            s.banks[key] = bank, scale_of(s)
        bank, c = s.banks[key]
        y = bank.filter(x)
        return x, y, s.G.U, s.G.e, (
            float(s.G.lmax) if s.lmaxes is None else None), c

    @staticmethod
    def check(s, p, r, d):
        x, y, U, e, lm, c = r
        k = lambda v: np.exp(-(v / c) ** 2)
        t = s.m.near(1e-3, 1e-6)
        n = s.n
        if p["which"] == "gabor":
            ref = np.stack([(U * k(e - e[i])) @ (U.T @ x)
                            for i in range(n)], -1)
        elif p["which"] == "mod_first":
            # modulate the localised kernel by every eigenvector
            loc = np.sqrt(n) * U * (U @ k(e))[:, None]
            H = U.T @ loc
            ref = np.stack([U @ (H[:, i] * (U.T @ x)) for i in range(n)], -1)
        else:
            if s.lmaxes is None and lm is not None:
                K = reference(s.m, [k], np.eye(n), lm, 30)[..., 0]
            else:
                K = (U * k(e)) @ U.T
                t = 1e-4
            ref = np.stack([np.sqrt(n) * U.T @ (x * np.sqrt(n) * K[:, i])
                            for i in range(n)])
        close(p["which"], y, ref, t * n, key="filter-wrong",
              kernel=p["which"], **d)


def spectrogram_reference(s, lm, exact):
    return np.stack([np.sum(reference(
        s.m, [lambda x, t=t: np.exp(-4 * ((x - t) / lm) ** 2)],
        np.eye(s.n), lm, None if exact else 30)[..., 0] ** 2, 0)
        for t in np.linspace(0, lm, 4)], -1)


@op
class spectrogram(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return dict(exact=rng.random() < .4)

    @staticmethod
    def able(s, p):
        return not s.partial

    @staticmethod
    def run(s, p):
        from pygsp import features
        kw = {}
        if p["exact"]:
            s.G.compute_fourier_basis()
            kw["method"] = "exact"
        if p.get("fail"):
            kw["atom"] = Kernel(
                lambda x: np.exp(-4 * (x / s.G.lmax) ** 2), p["fail"])
        sp = features.compute_spectrogram(s.G, M=4, **kw)
        return sp, s.G.spectr, float(s.G.lmax)

    @staticmethod
    def check(s, p, r, d):
        sp, kept, lm = r
        s.spectr = np.array(sp)
        close("G.spectr", kept, sp, 0, key="spectrogram-wrong", **d)
        if s.lmaxes is None:
            close("spectrogram", sp, spectrogram_reference(
                s, lm, p["exact"]), s.m.near(1e-3, 1e-5),
                key="spectrogram-wrong", **d)


def check_spectr(s, d):
    """What the graph remembers of a spectrogram is the last one, or that of
    a spectrogram that failed after it was stored."""
    got = getattr(s.G, "spectr", None)
    if got is None or s.spectr is not None and \
            np.shape(got) == s.spectr.shape and (got == s.spectr).all():
        return
    lm = float(s.G.lmax)
    refs = [spectrogram_reference(s, lm, exact) for exact in (False, True)]
    t = s.m.near(1e-3, 1e-5)
    if np.shape(got) != refs[0].shape or not min(
            np.max(np.abs(got - ref)) for ref in refs) <= t:
        raise Violation("spectrogram-wrong", "G.spectr is neither the last "
                        "spectrogram nor a new one", **d)
    s.spectr = np.array(got)


# ------------------------------------------------------- reduction, learning

@op
class kron(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng)

    @staticmethod
    def able(s, p):
        return not s.m.directed and not s.m.loops and s.m.connected and \
            s.m.lap == "combinatorial" and s.n >= 5 and not s.m.f32

    @staticmethod
    def run(s, p):
        from pygsp import reduction
        r = world.nprng("kron", p["seed"])
        ind = np.sort(r.choice(s.n, size=int(r.integers(2, s.n - 1)),
                               replace=False))
        return ind, reduction.kron_reduction(s.G, ind)

    @staticmethod
    def check(s, p, r, d):
        ind, g = r
        L = s.m.L("combinatorial")
        out = np.setdiff1d(np.arange(s.n), ind)
        S = L[np.ix_(ind, ind)] - L[np.ix_(ind, out)] @ np.linalg.solve(
            L[np.ix_(out, out)], L[np.ix_(out, ind)])
        close("Kron-reduced Laplacian", g.L, S, 100 * s.m.tol(),
              key="kron-wrong", **d)


def polarity(m):
    """Vertices kept by the polarity of the largest eigenvector, if that is
    well-defined, and a reduction which does not degenerate."""
    e, U = m.eig("combinatorial")
    v = U[:, -1] * np.sign(U[0, -1])
    if e[-1] - e[-2] < 1e-3 * e[-1] or np.min(np.abs(v)) < 1e-4:
        return None
    keep = np.nonzero(v >= 0)[0]
    return keep if 3 <= len(keep) <= m.n - 2 else None


@op
class pyramid(Op):
    lmax = True

    @staticmethod
    def gen(rng, spec):
        return seeded(rng)

    @staticmethod
    def able(s, p):
        return kron.able(s, p) and s.n >= 8 and not s.partial and \
            polarity(s.m) is not None

    @staticmethod
    def run(s, p):
        from pygsp import reduction
        x = sig(p, s.n)
        Gs = reduction.graph_multiresolution(s.G, 1,
                                             sparsify=False)
        ca, pe = reduction.pyramid_analysis(Gs, x)
        y, _ = reduction.pyramid_synthesis(Gs, ca[-1], pe)
        return x, y, [g.N for g in Gs], max(np.abs(q).max() for q in pe)

    @staticmethod
    def check(s, p, r, d):
        x, y, sizes, size = r
        if sizes != [s.n, len(polarity(s.m))]:
            raise Violation("pyramid-wrong", f"levels of {sizes} vertices",
                            **d)
        # Predictions are polynomial approximations, whose small error
        # depends on lmax: it only cancels if lmax stays the same. (They are
        # huge if an unlucky starting vector underestimated lmax.)
        close("pyramid reconstruction", np.ravel(y), x,
              1e-6 + 1e-12 * size if s.lmaxes is None else
              0.1 * np.abs(x).max() + 1e-12 * size,
              key="pyramid-wrong", **d)


@op
class sparsify(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng)

    @staticmethod
    def able(s, p):
        return not s.m.directed and not s.m.loops and s.m.connected and \
            s.m.lap == "combinatorial" and not s.m.f32 and \
            .01 < s.m.dw.max() < 100

    @staticmethod
    def run(s, p):
        from pygsp import reduction
        return reduction.graph_sparsify(s.G, .8, seed=p["seed"])

    @staticmethod
    def check(s, p, r, d):
        W = dense(r.W)
        if W.shape != s.m.W.shape or (W[s.m.W == 0] > 1e-12).any() or \
                (W != W.T).any() or (W < 0).any():
            raise Violation("sparsify-wrong", "edges were invented", **d)


@op
class regression(Op):
    @staticmethod
    def gen(rng, spec):
        return seeded(rng, tau=rng.choice([0, .1, 1]), cols=rng.choice([0, 2]))

    @staticmethod
    def able(s, p):
        return s.m.connected and not s.m.directed and not s.m.f32 and \
            not s.m.loops and .01 < s.m.dw.max() < 100

    @staticmethod
    def mask(s, p):
        r = world.nprng("mask", p["seed"])
        M = r.uniform(size=s.n) < .5
        M[int(r.integers(s.n))] = True
        M[int(r.integers(s.n))] = False
        if not M.any():
            M[0] = True
        return M

    @staticmethod
    def run(s, p):
        from pygsp import learning
        x = sig(p, s.n, *([p["cols"]] if p["cols"] else []))
        M = regression.mask(s, p)
        return x, M, learning.regression_tikhonov(s.G, x, M, tau=p["tau"])

    @staticmethod
    def check(s, p, r, d):
        x, M, y = r
        L = s.m.L()
        if p["tau"] > 0:
            ref = np.linalg.solve(np.diag(M.astype(float)) + p["tau"] * L,
                                  (M * x.T).T)
            t = 1e-3 * np.linalg.norm(x) * np.linalg.cond(
                np.diag(M.astype(float)) + p["tau"] * L) ** .5
        else:
            ref = x.copy()
            ref[~M] = np.linalg.solve(L[np.ix_(~M, ~M)],
                                      -L[np.ix_(~M, M)] @ x[M])
            t = 1e-7 * max(np.abs(x).max(), 1)
        close("regression", y, ref, t, key="learning-wrong", **d)


# --------------------------------------------------- refusals and batteries

def _refusals(s, n):
    from pygsp import filters, learning, reduction
    G = s.G
    x = np.arange(n + 1.)
    low = [lambda v: 1 / (1 + v)]
    V, A, I, N = ValueError, AttributeError, IndexError, NotImplementedError
    return {
        "laplacian": (V, lambda: G.compute_laplacian("unknown")),
        "lmax": (V, lambda: G.estimate_lmax("unknown")),
        "signal": (V, lambda: G.set_signal(x, "a")),
        "signal2": (V, lambda: G.set_signal(np.ones((n - 1, 2)), "new")),
        "coords": (V, lambda: G.set_coordinates("unknown")),
        "coords2": (V, lambda: G.set_coordinates(np.ones((n + 1, 2)))),
        "coords4": (V, lambda: G.set_coordinates(np.ones((n, 4)))),
        "community": (A, lambda: G.set_coordinates("community2D")),
        "gft": (V, lambda: G.gft(x)),
        "igft": (V, lambda: G.igft(x)),
        "grad": (V, lambda: G.grad(x)),
        "div": (V, lambda: G.div(np.ones(G.n_edges + 1))),
        "dirichlet": (V, lambda: G.dirichlet_energy(x)),
        "W": (A, lambda: setattr(G, "W", 0)),
        "subgraph": (I, lambda: G.subgraph([0, n])),
        "filter": (V, lambda: filters.Filter(G, low).filter(x)),
        "method": (V, lambda: filters.Filter(G, low).filter(
            x[1:], method="unknown")),
        "features": (V, lambda: filters.Filter(G, low * 2).filter(
            np.ones((n, 2, 3)))),
        "synthesis": (V, lambda: filters.Filter(G, low * 2).synthesize(
            np.ones((n, 3)))),
        "localize": (I, lambda: filters.Filter(G, low).localize(n)),
        "complement": (V, lambda: filters.Filter(G, low).complement(
            .1).evaluate(x)),
        "modulation": (V, lambda: filters.Modulation(
            G, filters.Filter(G, low * 2))),
        "simplex": (V, lambda: learning.classification_tikhonov_simplex(
            G, np.zeros(n), np.ones(n, bool), 0)),
        "mask": (V, lambda: learning.regression_tikhonov(
            G, np.zeros(n), np.ones(n + 1, bool), 0)),
        "sparsify": (V if G.lap_type == "combinatorial" else N,
                     lambda: reduction.graph_sparsify(G, 2)),
        "kron": (None if G.lap_type == "combinatorial" and
                 not s.m.directed else N,
                 lambda: reduction.kron_reduction(G, [0, 1])),
        "format": (V, lambda: G.save("nowhere/graph.unknown")),
        "backend": (V, lambda: G.save("nowhere/graph.gml",
                                      backend="unknown")),
    }


REFUSALS = ["laplacian", "lmax", "signal", "signal2", "coords", "coords2",
            "coords4", "community", "gft", "igft", "grad", "div",
            "dirichlet", "W", "subgraph", "filter", "method", "features",
            "synthesis", "localize", "complement", "modulation", "simplex",
            "mask", "sparsify", "kron", "format", "backend"]


@op
class refused(Op):
    """Arguments that must be refused, and leave no trace."""

    @staticmethod
    def gen(rng, spec):
        return dict(what=[rng.choice(REFUSALS)
                          for _ in range(rng.randint(1, 3))])

    @staticmethod
    def run(s, p):
        out = []
        for what in p["what"]:
            exc, f = _refusals(s, s.n)[what]
            if exc is None:
                out.append((what, None, None))
                continue
            try:
                r = f()
            except exc as e:
                out.append((what, exc, e))
            else:
                out.append((what, exc, r))
        return out

    @staticmethod
    def check(s, p, r, d):
        for what, exc, got in r:
            if exc is not None and not isinstance(got, exc):
                raise Violation("not-refused", f"{what}: {type(got).__name__}",
                                **d)


N_FACTS = 13


@op
class battery(Op):
    """Everything a graph answers, asked in some order."""
    lmax = True

    @staticmethod
    def gen(rng, spec):
        k = list(range(N_FACTS + 4))
        rng.shuffle(k)
        return dict(order=k)

    @staticmethod
    def run(s, p):
        G = s.G
        get = {N_FACTS: lambda: float(G.lmax), N_FACTS + 1: lambda: G.D,
               N_FACTS + 2: lambda: (G.U, G.e), N_FACTS + 3: lambda: G.L}
        return [(k, get[k]() if k in get else
                 structure.run(s, dict(what=[k]))[0]) for k in p["order"]]

    @staticmethod
    def check(s, p, r, d):
        for k, got in r:
            if k < N_FACTS:
                structure.check(s, dict(what=[k]), [got], d)
            elif k == N_FACTS:
                lmax.check(s, p, got, d)
            elif k == N_FACTS + 1:
                diff.check(s, p, got, d)
            elif k == N_FACTS + 2:
                basis.check(s, p, got, d)
            else:
                close("L", got, s.m.L(), s.m.tol(), **d)


ALL = sorted(OPS)


def check_state(s, d):
    """Everything the graph answers, against its model (after any history)."""
    G, m = s.G, s.m
    check_spectr(s, d)
    world.check_L(G, m, **d)
    if s.signals.keys() != G.signals.keys():
        raise Violation("signals-wrong", f"{sorted(G.signals)} instead of "
                        f"{sorted(s.signals)}", **d)
    for name, x in s.signals.items():
        close("signal", G.signals[name], x, 0, **d)
    close("coords", G.coords, s.coords, 0, **d)
    world.check_structure(G, m, **d)
    world.check_lmax(G, m, None, **d)
    U, e = G.U, G.e
    if U.shape[1] != len(e) or not (s.partial or U.shape[1] == m.n):
        raise Violation("basis-shape", f"U {U.shape} e {e.shape}", **d)
    world.check_basis(G, m, U.shape[1], U, e, **d)
    world.check_D(G, m, **d)
    c = G.coherence
    if abs(c - np.abs(G.U).max()) > 1e-12:
        raise Violation("coherence-wrong", f"{c}", **d)
    world.check_basis(G, m, **d)
    s.partial = False
    world.check_lmax(G, m, None, **d)


def describe(r):
    """A loggable, rounded summary of a result."""
    if isinstance(r, tuple):
        return "(" + ",".join(describe(x) for x in r) + ")"
    if hasattr(r, "shape"):
        return f"{type(r).__name__}{r.shape}"
    if isinstance(r, float):
        return f"{r:.6g}"
    return type(r).__name__


NOCONV = ArpackError
