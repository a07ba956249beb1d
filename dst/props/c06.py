"""C06: random models keep their promises for every random stream."""

import random

import numpy as np
from scipy import sparse

from .. import generators as gens
from .. import seams, world
from ..core import Violation
from ..kernel import Sim, StepBudgetExceeded

LEVEL = "exploration"
TECHNIQUE = ("seeded search over random streams, including improbable ones, "
             "delivered through the generator constructors")
NOTE = ("Generators handed to the package return, at draws chosen by the "
        "seed, extreme but possible outcomes (bounds of the interval, equal "
        "values, the first or the last items, sorted permutations); streams "
        "become fair after a bounded number of such draws, so that loops "
        "that retry may end. Every generated graph is checked against the "
        "definition of its model.")
RULE = ("A run is one generation with a stream in which a share of the draws "
        "is extreme. Non-trivial: a graph was generated. Distinctness: hash "
        "of the event log.")
STATES = "(model, kind of stream, outcome)"
REAL = "pygsp, NumPy, SciPy"
STUBS = "random generators given to pygsp (wrapped)"
ASSUMPTIONS = ["streams are fair in the long run",
               "points of a cloud are not all identical"]
QUICK = dict(cases=30000, seconds=80, batch=60)
THOROUGH = dict(cases=600000, seconds=780, batch=100)


def gen(rng, i, tier):
    spec = gens.gen(rng)
    p, k = spec["p"], spec["kind"]
    if k in ("er", "sbm") and rng.random() < .4:
        # extreme probabilities
        p["p"] = rng.choice([0, 1, 1., .05])
        p["connected"] = rng.random() < .5 and p["p"] == 1
        if k == "sbm":
            p["q"] = rng.choice([0, 1, .1])
            p.pop("n_try", None)
            if rng.random() < .4:
                kk = p["k"]
                M = [[rng.choice([0, .3, .8, 1]) for _ in range(kk)]
                     for _ in range(kk)]
                p["M"] = [[M[max(a, b)][min(a, b)] for b in range(kk)]
                          for a in range(kk)]
            if rng.random() < .3:
                p["z"] = sorted(rng.randrange(p["k"])
                                for _ in range(p["N"]))
    elif k in ("er", "sbm") and rng.random() < .2:
        p.update(p=.08, connected=True, n_try=rng.choice([1, 2, 5]))
        if k == "sbm":
            p["q"] = .02
    if k == "regular" and rng.random() < .4:
        p["k"] = rng.choice([1, p["N"] - 1, p["N"] - 2, p["N"], 3])
        p["max_iter"] = rng.choice([2, 3, 10])
    if k == "community" and rng.random() < .6:
        p["world_density"] = rng.choice([0, .34, .36, 1, .1])
        if "comm_sizes" in p:
            if rng.random() < .5:
                p["comm_sizes"] = [p["N"] - 1 * (p["Nc"] - 1)] + \
                    [1] * (p["Nc"] - 1)
            elif rng.random() < .5:
                p["comm_sizes"] = [p["N"]] + [0] * (p["Nc"] - 1)
            rng.shuffle(p["comm_sizes"])
        elif "comm_density" in p:
            p["comm_density"] = rng.choice([0, .3, 1])
        if "comm_sizes" not in p and rng.random() < .5:
            p["min_comm"] = rng.choice([0, 1, p["N"] // p["Nc"]])
        if rng.random() < .2:
            p["Nc"] = 1
            p.pop("comm_sizes", None)
            p.pop("min_comm", None)
    if rng.random() < .04 and k in ("er", "sbm", "ba", "regular", "ring",
                                    "swiss", "david", "sphere"):
        n = rng.choice([50, 64, 90])
        p["nb_pts" if k == "sphere" else "N"] = n
        if "z" in p:
            p["z"] = sorted(rng.randrange(p["k"]) for _ in range(n))
        if p.get("n_try", 1) is None:
            p["n_try"] = 5
    if k in ("sphere", "cube"):
        p["radius"] = rng.choice([1, 1, .5, 3])
    if k == "moons":
        p["distance"] = rng.choice([.5, 2])
    style = rng.choice(["fair", "fair", "mild", "harsh", "sticky", "burst"])
    adv = dict(rate=dict(fair=0, mild=.05, harsh=.5, sticky=1,
                         burst=1)[style],
               limit=dict(fair=0, mild=50, harsh=400, sticky=200,
                          burst=rng.choice([1, 2, 5]))[style],
               sticky=rng.randrange(12) if style in ("sticky", "burst")
               else None, seed=rng.getrandbits(24), style=style)
    return dict(spec=spec, adv=adv)


def sym(W, name):
    if (W != W.T).any():
        raise Violation("not-symmetric", f"{name} is not symmetric",
                        kind=name)


def check(cond, key, msg, **d):
    if not cond:
        raise Violation(key, msg, **d)


def connected(W):
    return world.Model(W).connected


def inside(W, z):
    return W * (z[:, None] == z[None])


def check_sbm(G, p, W, fair, kind):
    n = p["N"]
    k = p.get("k", 1)
    z = np.asarray(G.z)
    check(W.shape == (n, n), "wrong-size", f"{W.shape}", kind=kind)
    check(set(np.unique(W)) <= {0, 1}, "not-binary", "weights", kind=kind)
    check(len(z) == n and z.min() >= 0 and z.max() < k and
          (np.diff(z) >= 0).all() and z.dtype.kind in "iu",
          "wrong-communities", f"z={z}", kind=kind)
    if "z" in p:
        check((z == p["z"]).all(), "wrong-communities", "z", kind=kind)
    if not p.get("directed"):
        sym(W, kind)
    if not p.get("self_loops"):
        check(not np.diag(W).any(), "unwanted-loops", "self-loops",
              kind=kind)
    if p.get("connected"):
        check(connected(W), "not-connected", "disconnected", kind=kind)
    if "M" in p:
        M = np.array(p["M"], float)
    else:
        q = p.get("q", .3 / k)
        M = np.array(q * np.ones((k, k)) if np.ndim(q) == 0 else q, float)
        M[np.arange(k), np.arange(k)] = p["p"]
    P = M[z][:, z]
    pairs = np.tril(np.ones((n, n)), 0 if p.get("self_loops") else -1) > 0
    if p.get("directed"):
        pairs = pairs | pairs.T
    check((W[pairs & (P == 1)] == 1).all(), "missing-certain-edge",
          "an edge of probability one is missing", kind=kind)
    check((W[pairs & (P == 0)] == 0).all(), "impossible-edge",
          "an edge of probability zero is present", kind=kind)
    if fair and not p.get("connected"):
        for v in np.unique(P[pairs]):
            m = (pairs & (P == v)).sum()
            got = W[pairs & (P == v)].sum()
            dev = abs(got - m * v)
            check(dev <= 7.5 * np.sqrt(m * v * (1 - v)) + 3,
                  "wrong-density", f"{got} edges among {m} pairs, for a "
                  f"probability of {v}", kind=kind)
    info = G.info
    check((np.asarray(info["node_com"]) == z).all() and
          (np.asarray(info["comm_sizes"]) == np.bincount(z)).all(),
          "wrong-info", "info", kind=kind)


def check_regular(G, p, W, warned):
    n, k = p["N"], p["k"]
    check(W.shape == (n, n), "wrong-size", f"{W.shape}", kind="regular")
    check(set(np.unique(W)) <= {0, 1}, "not-binary", "weights",
          kind="regular")
    sym(W, "regular")
    check(not np.diag(W).any(), "unwanted-loops", "self-loops",
          kind="regular")
    if not warned:
        check((W.sum(0) == k).all(), "not-regular",
              f"degrees {W.sum(0)}, without a warning", kind="regular")


def check_ba(G, p, W):
    n, m, m0 = p["N"], p["m"], p["m0"]
    check(W.shape == (n, n), "wrong-size", f"{W.shape}", kind="ba")
    check(set(np.unique(W)) <= {0, 1}, "not-binary", "weights", kind="ba")
    sym(W, "ba")
    check(not np.diag(W).any(), "unwanted-loops", "self-loops", kind="ba")
    for i in range(n):
        want = 0 if i < m0 else m
        check(W[i, :i].sum() == want, "wrong-degree",
              f"vertex {i} is attached to {W[i, :i].sum()} earlier vertices, "
              f"not {want}", kind="ba")


def check_ring(G, p, W):
    n = p["N"]
    a = np.asarray(G.angles)
    check(W.shape == (n, n) and a.shape == (n,), "wrong-size", "",
          kind="ring")
    sym(W, "ring")
    check((np.diff(a) >= 0).all() and a[0] >= 0 and a[-1] < 2 * np.pi,
          "wrong-angles", f"{a}", kind="ring")
    gaps = np.append(np.diff(a), 2 * np.pi + a[0] - a[-1])
    R = np.zeros((n, n))
    for i in range(n):
        R[i, (i + 1) % n] = R[(i + 1) % n, i] = 2 * np.pi / n / gaps[i]
    world.close("ring weights", W, R, 1e-6 * R.max(), key="wrong-weights",
                kind="ring")
    world.close("ring coordinates", G.coords,
                np.stack([np.cos(a), np.sin(a)], 1), 1e-12,
                key="wrong-coordinates", kind="ring")


def check_community(G, p, W):
    d = dict(kind="community")
    n, nc = p["N"], p["Nc"]
    z = np.asarray(G.info["node_com"])
    check(W.shape == (n, n) and len(z) == n, "wrong-size", "", **d)
    check(set(np.unique(W)) <= {0, 1}, "not-binary",
          f"weights {np.unique(W)}", **d)
    sym(W, "community")
    check(not np.diag(W).any(), "unwanted-loops", "self-loops", **d)
    sizes = np.bincount(z, minlength=nc)
    check(z.min() >= 0 and len(sizes) == nc and (np.diff(z) >= 0).all(),
          "wrong-communities", f"{z}", **d)
    check(list(G.info["comm_sizes"]) == list(sizes), "wrong-info",
          f"comm_sizes={G.info['comm_sizes']}, but {sizes}", **d)
    if "comm_sizes" in p:
        check(list(sizes) == list(p["comm_sizes"]), "wrong-communities",
              f"sizes {sizes}, asked for {p['comm_sizes']}", **d)
    else:
        mc = p.get("min_comm")
        mc = int(round(n / (3 * nc))) if mc is None else mc
        check(sizes.min() >= mc, "wrong-communities",
              f"a community of {sizes.min()} vertices, minimum {mc}", **d)
    same = z[:, None] == z[None]
    inter = int((W * ~same).sum()) // 2
    m = (n * n - (sizes ** 2).sum()) / 2
    check(inter == int(p["world_density"] * m), "wrong-number-of-edges",
          f"{inter} edges between communities, expected "
          f"{int(p['world_density'] * m)}", **d)
    X = np.asarray(G.coords)
    check(X.shape == (n, 2) and np.isfinite(X).all(), "wrong-coordinates",
          "", **d)
    c = np.asarray(G.info["com_coords"])
    rad = np.sqrt(sizes)[z]
    check((np.linalg.norm(X - c[z], axis=1) <= rad + 1e-9).all(),
          "wrong-coordinates", "a vertex is out of its community's disk", **d)
    for i in range(nc):
        v = np.nonzero(z == i)[0]
        B = W[np.ix_(v, v)]
        s = len(v)
        if p.get("comm_density") is not None:
            want = int(p["comm_density"] * (s * (s - 1) / 2))
            check(B.sum() / 2 == want, "wrong-number-of-edges",
                  f"{B.sum() / 2} edges in community {i}, expected {want}",
                  **d)
        D = np.linalg.norm(X[v][:, None] - X[v][None], axis=2)
        if p.get("comm_density") is not None:
            continue
        if p.get("k_neigh") is not None:
            k = min(p["k_neigh"], s - 1)
            for a in range(s):
                deg = int(B[a].sum())
                check(deg >= k, "wrong-neighbors", f"vertex {v[a]} has {deg} "
                      f"neighbours in its community, expected {k} at least",
                      **d)
        else:
            eps = np.sqrt(2 * np.sqrt(n)) / 2
            off = ~np.eye(s, dtype=bool)
            near, far = D < eps * (1 - 1e-9), D > eps * (1 + 1e-9)
            check((B[near & off] == 1).all() and (B[far] == 0).all(),
                  "wrong-neighbors", "edges do not follow distances", **d)


def nn_check(G, X, k, kind):
    """Weights of a k-nearest neighbours graph (no ties, average)."""
    W = G.W.toarray()
    sym(W, kind)
    n = len(X)
    check(W.shape == (n, n), "wrong-size", "", kind=kind)
    D = np.linalg.norm(X[:, None] - X[None], axis=2)
    check(np.isfinite(W).all() and W.min() >= 0, "wrong-weights",
          "weights are not finite and positive", kind=kind)
    far = np.where(np.eye(n, dtype=bool), np.inf, D)
    srt = np.sort(far, axis=1)
    if srt[:, 0].min() < 1e-9 or (n > k + 1 and
                                  np.min(srt[:, k] - srt[:, k - 1]) < 1e-9):
        return False
    A = far <= srt[:, k - 1:k] + 1e-12
    sigma = np.mean(D[A])
    R = np.exp(-D ** 2 / sigma ** 2) * A
    R2 = np.exp(-D ** 2 / sigma) * A
    ref = [(r + r.T) / 2 for r in (R, R2)]
    if min(np.abs(W - r).max() for r in ref) > 1e-8:
        raise Violation("wrong-weights", "not the nearest neighbours graph "
                        "of its points", kind=kind)
    return True


def check_points(G, spec, W, ctx):
    k, p = spec["kind"], spec["p"]
    d = dict(kind=k)
    X = np.asarray(G.coords)
    if k == "sensor":
        n = p["N"]
        check(X.shape == (n, 2), "wrong-size", f"{X.shape}", **d)
        check(X.min() >= 0 and X.max() <= 1 + 1e-12, "wrong-coordinates",
              "out of the unit square", **d)
        if p["distributed"]:
            m = int(np.sqrt(n))
            cells = np.mgrid[0:m, 0:m].reshape(2, -1).T / m
            check((X - cells >= -1e-9).all() and
                  (X - cells <= 1 / m + 1e-9).all(), "wrong-coordinates",
                  "not one vertex per cell", **d)
        kk = p["k"]
    elif k == "sphere":
        n, kk = p["nb_pts"], 10
        check(X.shape == (n, p["nb_dim"]), "wrong-size", f"{X.shape}", **d)
        check(np.allclose(np.linalg.norm(X, axis=1), p.get("radius", 1)),
              "wrong-coordinates", "not on the sphere of radius "
              f"{p.get('radius', 1)}", **d)
    elif k == "cube":
        kk = 10
        r = p.get("radius", 1)
        check(X.shape[1] == p["nb_dim"] and X.min() >= 0 and
              X.max() <= r + 1e-12, "wrong-coordinates", "not in the cube of "
              f"edge {r}", **d)
        if p["nb_dim"] == 3:
            face = (np.isclose(X, 0) | np.isclose(X, r)).any(1)
            check(face.all(), "wrong-coordinates", "not on a face", **d)
            n = p["nb_pts"] // 6
            want = [((X[:, a] == b * r).sum() >= n)
                    for a in range(3) for b in (0, 1)]
            check(all(want), "wrong-coordinates", "a face is empty", **d)
    elif k == "moons":
        kk = 5
        n = p["N"]
        check(X.shape == (n, 2) and
              list(G.labels) == [0] * (n // 2) + [1] * (n - n // 2),
              "wrong-size", "", **d)
        e = (p.get("distance", .5) - 1) / 2
        for lab, c in ((0, (.5, -e)), (1, (-.5, e))):
            Y = X[G.labels == lab] - c
            r = np.linalg.norm(Y, axis=1)
            check((np.abs(r - 1) <= 30 * p["sigmad"]).all(),
                  "wrong-coordinates", "far from its moon", **d)
        sg = .05
        W = G.W.toarray()
        sym(W, k)
        check(np.isfinite(W).all(), "wrong-weights", "", **d)
        D = np.linalg.norm(X[:, None] - X[None], axis=2)
        on = W > 0
        return
    if nn_check(G, X, kk, k):
        ctx.probe("neighbour graphs compared")


def check_swiss(G, p, W):
    d = dict(kind="swiss")
    n = p["N"]
    sym(W, "swiss")
    check(W.shape == (n, n) and np.asarray(G.coords).shape == (n, p["dim"]),
          "wrong-size", "", **d)
    check(not np.diag(W).any(), "unwanted-loops", "self-loops", **d)
    X = np.asarray(G.coords)
    D = np.linalg.norm(X[:, None] - X[None], axis=2)
    R = np.exp(-D ** 2 / (2 * 2 / n))
    R[np.eye(n, dtype=bool)] = 0
    R[R < 1e-6] = 0
    near = np.abs(R - 1e-6) < 1e-12
    world.close("weights", np.where(near, 0, W), np.where(near, 0, R), 1e-7,
                key="wrong-weights", **d)


def check_david(G, p, W):
    d = dict(kind="david")
    n = p["N"]
    X = np.asarray(G.coords)
    sym(W, "david")
    check(X.shape == (n, 2) and X.min() >= 0 and X.max() <= 1,
          "wrong-coordinates", "", **d)
    check(not np.diag(W).any(), "unwanted-loops", "self-loops", **d)
    D = np.linalg.norm(X[:, None] - X[None], axis=2)
    c = -.125 * n / 436.075 + .2183
    s2 = -c ** 2 / (2 * np.log(.6))
    R = np.exp(-D ** 2 / (2 * s2))
    R[np.eye(n, dtype=bool)] = 0
    near = np.abs(R - .6) < 1e-6
    R[R < .6] = 0
    world.close("weights", np.where(near, 0, W), np.where(near, 0, R), 1e-6,
                key="wrong-weights", **d)


def check_layout(G, p, fair):
    X = np.asarray(G.coords)
    if p["kind"].startswith("spring") and not fair:
        # (springs cannot separate vertices that coincide)
        check(X.shape == (p["N"], 3 if p["kind"] == "spring3" else 2),
              "wrong-size", f"{X.shape}", kind="layout")
        return
    dim = 3 if p["kind"] in ("random3D", "spring3") else 2
    d = dict(kind="layout")
    check(X.shape == (p["N"], dim) and np.isfinite(X).all(),
          "wrong-coordinates", f"{p['kind']}: {X.shape}", **d)
    if p["kind"].startswith("random"):
        check(X.min() >= 0 and X.max() <= 1, "wrong-coordinates", "", **d)
    elif p["kind"] == "community2D":
        z = G.info["node_com"]
        r = np.sqrt(np.bincount(z))[z]
        check((np.linalg.norm(X - G.info["com_coords"][z], axis=1) <=
               r + 1e-9).all(), "wrong-coordinates",
              "a vertex is out of its community's disk", **d)
    else:
        check(np.abs(X.mean(0)).max() < 1e-6 and
              abs(X.max() - 1) < 1e-6, "wrong-coordinates",
              "not centered and scaled", **d)


def check_sparsify(r, G0, p, warned):
    d = dict(kind="sparsify")
    W0 = G0.W.toarray()
    n = len(W0)
    if sparse.issparse(r):
        L = r.toarray()
        W = np.diag(np.diag(L)) - L
        check(np.abs(L.sum(0)).max() < 1e-9 * np.abs(L).max(),
              "not-a-laplacian", "rows do not sum to zero", **d)
    else:
        W = r.W.toarray()
        check(not r.is_directed(), "not-symmetric", "directed", **d)
    check(W.shape == W0.shape, "wrong-size", "", **d)
    check(np.abs(W - W.T).max() < 1e-9 * W.max(), "not-symmetric", "", **d)
    check(W.min() >= -1e-12 * W.max(), "wrong-weights", "negative weights",
          **d)
    check((W[W0 == 0] <= 1e-12 * W.max()).all(), "unexpected-edge",
          "an edge that is not in the graph", **d)
    L0 = np.diag(W0.sum(0)) - W0
    P = np.linalg.pinv(L0)
    R = np.diag(P)[:, None] + np.diag(P)[None] - 2 * P
    # importance sampling: whatever is drawn, sum of w R is conserved
    world.close("sum of weights times resistances",
                np.sum(np.tril(W * R)), np.sum(np.tril(W0 * R)), 1e-6 * n,
                key="wrong-weights", **d)
    if not warned:
        check(connected(np.where(W > 1e-12 * W.max(), W, 0)),
              "not-connected", "disconnected, without a warning", **d)


def refused(spec, e, fair):
    """May this specification be refused with this exception?"""
    k, p = spec["kind"], spec["p"]
    if k in ("er", "sbm"):
        return isinstance(e, ValueError) and p.get("connected") and \
            p.get("n_try", 10) is not None
    if k == "regular":
        return isinstance(e, ValueError) and \
            (p["N"] * p["k"] % 2 == 1 or p["k"] >= p["N"])
    if k in ("ring", "sensor", "sphere", "cube", "moons", "swiss"):
        # coinciding points: infinite weights
        return isinstance(e, (ValueError, AssertionError)) and not fair
    return False


def run(case, ctx):
    spec, adv = case["spec"], case["adv"]
    k, p = spec["kind"], spec["p"]
    a = dict(rate=adv["rate"], left=adv["limit"], hits=0, draws=0,
             sticky=adv["sticky"], r=random.Random(adv["seed"]))

    def wrap(rng):
        return seams.AdversarialGenerator(rng, a)

    sim = Sim()
    outcome = "generated"
    try:
        with seams.captured_logs() as logs, \
                seams.wrapped_generators(wrap, scipy_too=k == "sparsify"):
            r = sim.run_inline(lambda th: gens.make(spec))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e), kind=k)
    except Exception as e:
        if not refused(spec, e, not a["hits"]):
            import traceback
            raise Violation(f"unexpected-{type(e).__name__}",
                            f"{spec}: {type(e).__name__}: {e}", kind=k,
                            traceback=traceback.format_exc()[-1500:])
        r, outcome = None, "refused"
    finally:
        ctx.steps += sim.total
    ctx.log("digest", sim.digest, a["hits"], a["draws"], outcome)
    if a["hits"]:
        ctx.fault(f"extreme draws ({adv['style']})")
    ctx.probe("extreme draws", a["hits"])
    ctx.probe("draws", a["draws"])
    fair = not a["hits"]
    warned = bool(logs.warnings())
    ctx.state((k, adv["style"], adv["sticky"], outcome, warned))
    if r is None:
        ctx.trivial = True
        return
    if fair and warned and k == "sparsify":
        ctx.probe("disconnected sparsifications")
    if not sparse.issparse(r):
        W = r.W.toarray().astype(float)
        check(np.isfinite(W).all(), "wrong-weights", "not finite", kind=k)
    if k in ("er", "sbm"):
        check_sbm(r, p, W, fair, k)
    elif k == "regular":
        check_regular(r, p, W, warned)
        if fair and warned and p["k"] <= p["N"] / 4 and p["max_iter"] >= 10:
            ctx.probe("regular graphs given up")
    elif k == "ba":
        check_ba(r, p, W)
    elif k == "ring":
        check_ring(r, p, W)
    elif k == "community":
        check_community(r, p, W)
    elif k == "swiss":
        check_swiss(r, p, W)
    elif k == "david":
        check_david(r, p, W)
    elif k == "layout":
        check_layout(r, p, fair)
    elif k == "sparsify":
        check_sparsify(r, gens.small_graph(p), p, warned)
    else:
        check_points(r, spec, W, ctx)
    ctx.log(gens.digest(r, k))
