"""Independent formulas of the package's filter designs.

``formulas(kind, p, lm)``: the kernels as functions on the spectrum, written
from the documentation, for a largest eigenvalue ``lm``. ``CAPTURES`` tells
which designs fix the largest eigenvalue when they are built.
"""

import numpy as np

CAPTURES = {"halfcosine", "itersine", "mexicanhat", "meyer", "simpletight",
            "abspline"}
# (continuous, but with a square root near its zero, or a jump)
ROUGH = {"rectangular", "papadakis", "simoncelli", "held", "regular",
         "simpletight", "halfcosine", "itersine", "meyer"}


def gen(rng):
    kind = rng.choice(["heat", "rectangular", "expwin", "halfcosine",
                       "itersine", "mexicanhat", "meyer", "papadakis",
                       "regular", "simoncelli", "simpletight", "held",
                       "abspline", "wave"])
    p = dict(kind=kind)
    if kind == "heat":
        p["scale"] = rng.choice([1, 10, [2, 7], [1, 3, 5]])
    elif kind in ("rectangular", "expwin"):
        lo, hi = round(rng.uniform(.05, .45), 3), round(rng.uniform(.5, .9), 3)
        p["band"] = rng.choice([[None, hi], [lo, None], [lo, hi],
                                [None, None]])
        if kind == "expwin":
            p["slope"] = rng.choice([1, 2])
    elif kind in ("halfcosine", "itersine", "mexicanhat", "meyer",
                  "simpletight", "abspline"):
        p["Nf"] = rng.randint(3, 6)
        if kind == "itersine":
            p["overlap"] = rng.choice([2, 2, 3])
        if kind == "mexicanhat":
            p["lpfactor"] = rng.choice([20, 8])
            p["normalize"] = rng.random() < .5
    elif kind in ("papadakis", "simoncelli", "held"):
        p["a"] = round(rng.uniform(.55, .8), 3)
    elif kind == "regular":
        p["degree"] = rng.randint(0, 4)
    elif kind == "wave":
        p["time"] = rng.choice([3, [1, 4]])
        p["speed"] = round(rng.uniform(.2, 1.5), 2)
    return p


def build(G, p):
    from pygsp import filters as f
    k = p["kind"]
    if k == "heat":
        return f.Heat(G, p["scale"])
    if k == "rectangular":
        return f.Rectangular(G, *p["band"])
    if k == "expwin":
        return f.Expwin(G, *p["band"], slope=p["slope"])
    if k == "halfcosine":
        return f.HalfCosine(G, p["Nf"])
    if k == "itersine":
        return f.Itersine(G, p["Nf"], p["overlap"])
    if k == "mexicanhat":
        return f.MexicanHat(G, p["Nf"], p["lpfactor"],
                            normalize=p["normalize"])
    if k == "meyer":
        return f.Meyer(G, p["Nf"])
    if k == "papadakis":
        return f.Papadakis(G, p["a"])
    if k == "regular":
        return f.Regular(G, p["degree"])
    if k == "simoncelli":
        return f.Simoncelli(G, p["a"])
    if k == "simpletight":
        return f.SimpleTight(G, p["Nf"])
    if k == "held":
        return f.Held(G, p["a"])
    if k == "abspline":
        return f.Abspline(G, p["Nf"])
    if k == "wave":
        return f.Wave(G, p["time"], p["speed"])
    raise ValueError(k)


def _pieces(x, l1, l2, mid):
    return np.where(x < l1, 1., np.where(x < l2, mid(np.clip(x, l1, l2)), 0.))


def _with_complement(f):
    return [f, lambda x: np.sqrt(np.maximum(1 - f(x) ** 2, 0))]


def formulas(p, lm):
    k = p["kind"]
    if k == "heat":
        ss = p["scale"] if isinstance(p["scale"], list) else [p["scale"]]
        return [lambda x, s=s: np.minimum(np.exp(-s * x / lm), 1) for s in ss]
    if k == "rectangular":
        lo, hi = p["band"]
        return [lambda x: ((hi is None) | (x / lm <= (hi or 0))) *
                ((lo is None) | (x / lm >= (lo or 0))) * np.ones(np.shape(x))]
    if k == "expwin":
        lo, hi = p["band"]

        def ex(x):
            x = np.asarray(x, float)
            return np.where(x > 0, np.exp(-p["slope"] /
                                          np.where(x > 0, x, 1)), 0)

        def h(x):
            return ex(x) / (ex(x) + ex(1 - x))
        return [lambda x: (1 if hi is None else h(.5 + hi - x / lm)) *
                (1 if lo is None else h(.5 - lo + x / lm)) *
                np.ones(np.shape(x))]
    if k == "halfcosine":
        w = 3 * lm / (p["Nf"] - 2)

        def hc(x):
            return np.where((x >= 0) & (x <= w),
                            .5 * (1 + np.cos(2 * np.pi * (x / w - .5))), 0)
        return [lambda x, i=i: hc(x - w / 3 * (i - 2))
                for i in range(p["Nf"])]
    if k == "itersine":
        ov = p["overlap"]
        sc = lm * ov / (p["Nf"] - ov + 1)

        def it(x):
            return np.where(np.abs(x) <= .5, np.sin(
                .5 * np.pi * np.cos(np.pi * x) ** 2), 0)
        return [lambda x, i=i: np.sqrt(2 / ov) *
                it(x / sc - (i - ov / 2) / ov)
                for i in range(1, p["Nf"] + 1)]
    if k in ("mexicanhat", "abspline"):
        lf = p.get("lpfactor", 20)
        lmin = lm / lf
        t = np.exp(np.linspace(np.log(2 / lmin), np.log(1 / lm),
                               p["Nf"] - 1))
        if k == "mexicanhat":
            return [lambda x: 1.2 * np.exp(-1) * np.exp(
                -(x / (.4 * lmin)) ** 4)] + [
                lambda x, s=s: (np.sqrt(s) if p["normalize"] else 1) *
                s * x * np.exp(-s * x) for s in t]

        def sp(x):
            x = np.asarray(x, float)
            mid = -5 + 11 * x - 6 * x ** 2 + x ** 3
            return np.where(x <= 1, x ** 2, np.where(
                x < 2, mid, 4 / np.maximum(x, 1e-9) ** 2))
        # maximum of the cubic on [1, 2]
        xs = 2 - 1 / np.sqrt(3)
        return [lambda x: sp(xs) * np.exp(-(x / (.6 * lmin)) ** 4)] + [
            lambda x, s=s: sp(s * x) for s in t]
    if k == "meyer":
        sc = 4 / (3 * lm) * 2. ** np.arange(p["Nf"] - 2, -1, -1)

        def v(x):
            return x ** 4 * (35 - 84 * x + 70 * x ** 2 - 20 * x ** 3)

        def scaling(x):
            return np.where(x < 2 / 3, 1, np.where(
                x < 4 / 3, np.cos(np.pi / 2 * v(1.5 * x - 1)), 0))

        def wave(x):
            return np.where(x < 2 / 3, 0, np.where(
                x < 4 / 3, np.sin(np.pi / 2 * v(1.5 * x - 1)), np.where(
                    x < 8 / 3, np.cos(np.pi / 2 * v(.75 * x - 1)), 0)))
        return [lambda x: scaling(sc[0] * x)] + [
            lambda x, s=s: wave(s * x) for s in sc]
    if k == "simpletight":
        sc = 1 / (2 * lm) * 2. ** np.arange(p["Nf"] - 2, -1, -1)

        def h(x):
            return np.sin(np.pi * x / 2) ** 2

        def low(x):
            return np.where(x < .25, 1, np.where(x < .5, np.sqrt(
                np.maximum(1 - h(4 * x - 1) ** 2, 0)), 0))

        def band(x):
            return np.where(x < .25, 0, np.where(
                x < .5, h(4 * x - 1), np.where(x < 1, np.sqrt(
                    np.maximum(1 - h(2 * x - 1) ** 2, 0)), 0)))
        return [lambda x: low(sc[0] * x)] + [
            lambda x, s=s: band(s * x) for s in sc]
    if k == "papadakis":
        a = p["a"]
        return _with_complement(lambda x: _pieces(
            2 * x / lm, a, 5 * a / 3,
            lambda y: np.sqrt((1 - np.sin(1.5 * np.pi * y / a)) / 2)))
    if k == "simoncelli":
        a = p["a"]
        return _with_complement(lambda x: _pieces(
            2 * x / lm, a, 2 * a,
            lambda y: np.cos(np.pi / 2 * np.log2(y / a))))
    if k == "held":
        a = p["a"]

        def mu(y):
            return -1 + 24 * y - 144 * y ** 2 + 256 * y ** 3
        return _with_complement(lambda x: _pieces(
            2 * x / lm, a, 2 * a,
            lambda y: np.sin(2 * np.pi * mu(y / 8 / a))))
    if k == "regular":
        def reg(x):
            y = 2 * np.asarray(x, float) / lm
            if p["degree"] == 0:
                return np.sin(np.pi / 4 * y)
            z = np.sin(np.pi / 2 * (y - 1))
            for _ in range(2, p["degree"]):
                z = np.sin(np.pi / 2 * z)
            return np.sin(np.pi / 4 * (1 + z))
        return _with_complement(reg)
    if k == "wave":
        ts = p["time"] if isinstance(p["time"], list) else [p["time"]]
        return [lambda x, t=t: np.cos(t * np.arccos(
            1 - p["speed"] ** 2 * x / lm / 2)) for t in ts]
    raise ValueError(k)
