"""Random models, layouts and sparsifications, as JSON specifications."""

import hashlib

import numpy as np
from scipy import sparse

# the information in a seed is too small in these to tell seeds apart
SEEDS = [0, 1, 2, 7, 42, 12345, 2**31 - 1, 2**32 - 1]
KINDS = ["er", "sbm", "regular", "ba", "ring", "community", "sensor",
         "sphere", "cube", "moons", "swiss", "david", "layout", "sparsify"]


def gen(rng, kind=None, seeded=True):
    kind = kind or rng.choice(KINDS)
    p = {}
    if kind == "er":
        p = dict(N=rng.randint(10, 24), p=rng.choice([.2, .5, .8]),
                 directed=rng.random() < .3, self_loops=rng.random() < .3)
        if rng.random() < .3:
            p.update(connected=True, p=.6)
    elif kind == "sbm":
        p = dict(N=rng.randint(10, 24), k=rng.randint(1, 4), p=.7, q=.2,
                 directed=rng.random() < .3, self_loops=rng.random() < .3)
        if rng.random() < .2:
            p.update(connected=True, q=.4, n_try=None)
        if rng.random() < .2:
            k = p["k"]
            p.update(p=[.8] * k, q=[[.3] * k] * k)
    elif kind == "regular":
        p = dict(N=2 * rng.randint(6, 12), k=rng.randint(2, 5),
                 max_iter=rng.choice([10, 20]))
    elif kind == "ba":
        m0 = rng.randint(1, 4)
        p = dict(N=rng.randint(12, 24), m0=m0, m=rng.randint(1, m0))
    elif kind == "ring":
        p = dict(N=rng.randint(5, 30))
    elif kind == "community":
        p = dict(N=rng.randint(16, 36), Nc=rng.randint(2, 4),
                 world_density=rng.choice([.05, .2, .6]))
        how = rng.choice(["eps", "knn", "density", "sizes"])
        if how == "knn":
            p["k_neigh"] = rng.randint(1, 3)
        elif how == "density":
            p["comm_density"] = .5
        elif how == "sizes":
            p["comm_sizes"] = [p["N"] - 3 * (p["Nc"] - 1)] + \
                [3] * (p["Nc"] - 1)
    elif kind == "sensor":
        p = dict(N=rng.choice([16, 25, 36]), k=rng.randint(2, 6),
                 distributed=rng.random() < .5)
    elif kind == "sphere":
        p = dict(nb_pts=rng.randint(12, 30), nb_dim=rng.choice([2, 3, 4]))
    elif kind == "cube":
        p = dict(nb_pts=rng.choice([12, 18, 30]), nb_dim=rng.choice([2, 3]))
    elif kind == "moons":
        p = dict(moontype="synthesized", N=rng.randint(12, 30),
                 sigmad=rng.choice([.07, .3]))
    elif kind == "swiss":
        p = dict(N=rng.randint(10, 30), dim=rng.choice([2, 3]),
                 noise=rng.random() < .5,
                 srtype=rng.choice(["uniform", "classic"]))
    elif kind == "david":
        p = dict(N=rng.randint(10, 40))
    elif kind == "layout":
        p = dict(kind=rng.choice(["random2D", "random3D", "spring",
                                  "spring3", "community2D"]),
                 N=rng.randint(6, 14), gs=rng.getrandbits(16))
    elif kind == "sparsify":
        p = dict(N=rng.randint(9, 14), eps=rng.choice([.5, .7, .95]),
                 gs=rng.getrandbits(16), matrix=rng.random() < .3)
    if rng.random() < .02:
        # (rarely, for what depends on the size)
        n = rng.choice([49, 64, 100])
        if kind in ("layout", "sparsify"):
            n = rng.choice([33, 65])
        elif kind == "david" and n == 64:
            n = 65    # (64 are stored, not random)
        p["nb_pts" if "nb_pts" in p else "N"] = n + (
            n % 2 if kind == "regular" else 0)
        if "comm_sizes" in p:
            p["comm_sizes"] = [n - 3 * (p["Nc"] - 1)] + [3] * (p["Nc"] - 1)
    return dict(kind=kind, p=p,
                seed=rng.choice(SEEDS) if seeded else None)


def variant(rng, spec):
    """A specification that only differs in one respect."""
    if rng.random() < .5:
        s = dict(spec)
        s["seed"] = rng.choice([x for x in SEEDS if x != spec["seed"]])
        return s
    s = gen(rng, spec["kind"])
    s["seed"] = spec["seed"]
    return s


def small_graph(p):
    """The graph of layouts and sparsifications (not random itself)."""
    from . import world
    from pygsp import graphs
    n = p["N"]
    r = world.nprng("gen", p["gs"], n)
    M = np.triu(r.uniform(size=(n, n)) < .6, 1) * r.uniform(.5, 2, (n, n))
    i = np.arange(n - 1)
    M[i, i + 1] = 1
    G = graphs.Graph(M + M.T)
    G.info = {"node_com": np.sort(r.integers(0, 3, n))}
    c = np.unique(G.info["node_com"], return_inverse=True)[1]
    G.info = {"node_com": c}
    return G


def touch(G, what):
    """Use the graph before its layout or sparsification."""
    for w in what:
        if w == "basis":
            G.compute_fourier_basis()
        elif w == "partial":
            G.compute_fourier_basis(n_eigenvectors=2)
        elif w == "lmax":
            G.estimate_lmax()
        elif w == "random2D":
            G.set_coordinates("random2D", seed=5)
        elif w == "line":
            G.set_coordinates("line2D")
        elif w == "normalized":
            G.compute_laplacian("normalized")
            G.compute_laplacian("combinatorial")
        elif w == "signal":
            G.set_signal(np.arange(G.N), "s")
        elif w == "structure":
            G.is_connected(), G.is_directed(), G.d, G.dw
        elif w == "D":
            G.compute_differential_operator()


TOUCH = ["basis", "lmax", "random2D", "line", "normalized", "signal",
         "structure", "D", "partial"]


def make(spec, before=()):
    from pygsp import graphs, reduction
    k, p, seed = spec["kind"], spec["p"], spec["seed"]
    if k == "layout":
        G = small_graph(p)
        touch(G, before)
        if p["kind"] == "spring3":
            G.set_coordinates("spring", dim=3, iterations=5, seed=seed)
        elif p["kind"] == "spring":
            G.set_coordinates("spring", iterations=8, seed=seed)
        else:
            G.set_coordinates(p["kind"], seed=seed)
        return G
    if k == "sparsify":
        G = small_graph(p)
        touch(G, before)
        return reduction.graph_sparsify(G.L if p["matrix"] else G, p["eps"],
                                        seed=seed)
    p = dict(p)
    for a in ("z", "M"):
        if a in p:
            p[a] = np.array(p[a])
    cls = dict(er="ErdosRenyi", sbm="StochasticBlockModel",
               regular="RandomRegular", ba="BarabasiAlbert",
               ring="RandomRing", community="Community", sensor="Sensor",
               sphere="Sphere", cube="Cube", moons="TwoMoons",
               swiss="SwissRoll", david="DavidSensorNet")[k]
    return getattr(graphs, cls)(seed=seed, **p)


def arrays(G):
    """Everything generated, by name."""
    if sparse.issparse(G):
        return {"L": np.array(G.toarray(), float)}
    out = {"W": np.array(G.W.toarray(), float)}
    for name in ("coords", "labels", "z", "M", "angles", "x"):
        v = getattr(G, name, None)
        if isinstance(v, np.ndarray):
            out[name] = v
    for k, v in getattr(G, "info", {}).items():
        out["info." + k] = np.asarray(v)
    for k, v in G.signals.items():
        out["signal." + k] = np.asarray(v)
    return out


def digest(G, kind):
    h = hashlib.sha256()
    for k, v in sorted(arrays(G).items()):
        if kind == "sparsify" and k not in ("W", "L"):
            continue    # (carried over from the graph)
        if kind == "layout" and k != "coords":
            continue
        h.update(f"{k}{v.shape}{v.dtype.kind}".encode())
        if v.dtype.kind == "O":
            h.update(repr(v).encode())
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    return h.hexdigest()[:24]
