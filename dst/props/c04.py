"""C04: filters act as functions of the current Laplacian."""

import numpy as np
from numpy.polynomial import chebyshev

from .. import designs, ops, world
from ..core import Violation
from ..kernel import HarnessError, Sim, SimAbort, StepBudgetExceeded
from ..world import close

LEVEL = "exploration"
TECHNIQUE = ("seeded histories of graph and filter operations against dense "
             "functional calculus")
NOTE = ("Every filter output is compared with the stated function of the "
        "dense Laplacian, computed independently from the documented "
        "formulas, whatever the history. Histories are sampled, not "
        "exhausted.")
RULE = ("A run is a seeded history over one or two graphs: Laplacian changes, "
        "bases, largest-eigenvalue estimates, and the construction, "
        "composition, evaluation, and application (exact, Chebyshev of any "
        "order, frames, inverses, complements, localisation, modulation, "
        "spectrograms) of up to four long-lived filter banks among 16 "
        "designs. Non-trivial: at least one filter output was compared. "
        "Distinctness: hash of the event log.")
STATES = ("(design, operation, route, Laplacian type now and at "
          "construction, how lmax was obtained) tuples")
REAL = "pygsp, NumPy, SciPy"
STUBS = "seed source of unseeded generators (ARPACK starting vectors)"
ASSUMPTIONS = [
    "designs which document a fixed set of scales keep the scales of the "
    "largest eigenvalue known when they were built",
    "kernels with jumps are not compared when an eigenvalue or a Chebyshev "
    "node falls on the jump",
    "exact filtering may be refused while only a partial basis is known",
]
QUICK = dict(cases=8000, seconds=95, batch=40)
THOROUGH = dict(cases=300000, seconds=780, batch=60)

GRAPH_OPS = ["laplacian"] * 4 + ["full_basis"] * 2 + ["estimate"] * 3 + \
    ["diff", "partial_basis", "lmax", "gft"]
BANK_OPS = ["apply"] * 6 + ["evaluate"] * 2 + \
    ["bank_frame", "localize", "inverse", "complement", "bounds", "add",
     "item", "other", "repeat", "tig"]
OTHER_OPS = ["filt", "gabor", "heat", "frame", "pyramid", "regression",
             "spectrogram", "rect"]


def gen(rng, i, tier):
    kinds = [k for k in world.KINDS if k not in ("f32",)]
    graphs = []
    for _ in range(rng.choice([1, 1, 2])):
        s = world.spec_graph(rng, kinds, nmin=4, nmax=12)
        if s["kind"] == "loops":
            s["lap"] = "combinatorial"
        graphs.append(s)
    seq = []
    for k in range(rng.randint(4, 14)):
        g = rng.randrange(len(graphs))
        u = rng.random()
        if k < 2 or u < .15:
            q = dict(op="make", p=designs.gen(rng))
        elif u < .45:
            name = rng.choice(GRAPH_OPS)
            q = dict(op=name, p=ops.OPS[name].gen(rng, graphs[g]))
        elif u < .85:
            q = dict(op=rng.choice(BANK_OPS), p=dict(
                seed=rng.getrandbits(16), bank=rng.randrange(6),
                bank2=rng.randrange(6),
                method=rng.choice(["exact", "chebyshev"]),
                order=rng.choice([2, 10, 30, rng.randint(1, 40)]),
                nsig=rng.choice([1, 2]), dir=rng.choice("as"),
                form=rng.choice(["float", "float", "int", "f32", "fortran",
                                 "list", "matmul"])))
        else:
            name = rng.choice(OTHER_OPS)
            p = ops.OPS[name].gen(rng, graphs[g]) if name in ops.OPS else \
                dict(seed=rng.getrandbits(16), order=rng.choice([5, 6, 19, 20]))
            q = dict(op=name, p=p)
        q["g"] = g
        seq.append(q)
    return dict(graphs=graphs, ops=seq)


class Derived(dict):
    """The inverse or the complement of a bank, as long-lived as it."""

    def __init__(self, kind, of):
        super().__init__(kind=kind)
        self.of = of

    def formulas(self, lm):
        fs = self.of.formulas(lm)

        def values(x):
            return np.stack([np.asarray(f(x), float) for f in fs])

        if self["kind"] == "complement":
            def f(x):
                t = (values(x) ** 2).sum(0)
                return np.sqrt(np.maximum(t.max() - t, 0))
            return [f]

        def inv(x, k):
            y = values(x)
            t = (y ** 2).sum(0)
            return np.where(t > 0, y[k] / np.where(t > 0, t, 1), 0)
        return [lambda x, k=k: inv(x, k) for k in range(len(fs))]


class Bank:
    """A filter bank, with the formulas it must follow."""

    def __init__(self, g, parts, slot):
        self.g = g
        self.parts = parts     # [(params, lm0 or None, indices or None)]
        self.slot = slot       # kernels read lmax of this graph
        self.lap0 = slot.m.lap
        self.kind = "+".join(p["kind"] for p, _, _ in parts)

    def formulas(self, lm):
        out = []
        for p, lm0, sel in self.parts:
            if isinstance(p, Derived):
                fs = p.formulas(lm)
            else:
                fs = designs.formulas(p, lm0 or lm)
            out += fs if sel is None else [fs[k] for k in sel]
        return out

    @property
    def rough(self):
        return any(p["kind"] in designs.ROUGH or p["kind"] == "complement"
                   for p, _, _ in self.parts)

    @property
    def derived(self):
        return any(isinstance(p, Derived) for p, _, _ in self.parts)

    def singular(self, x, lm):
        """Too ill-conditioned at x for its values to be compared."""
        return any((sum(f(x) ** 2 for f in p.of.formulas(lm)) < 1e-3).any()
                   for p, _, _ in self.parts if isinstance(p, Derived)
                   and p["kind"] == "inverse")

    def edges(self, lm):
        out = []
        for p, lm0, _ in self.parts:
            if p["kind"] == "rectangular":
                out += [b * lm for b in p["band"] if b is not None]
        return out

    def jumps(self, x, lm):
        return any(np.min(np.abs(np.asarray(x) - b)) < 1e-6 * lm
                   for b in self.edges(lm))


def make(s, p):
    g = designs.build(s.G, p)
    lm0 = float(s.G.lmax) if p["kind"] in designs.CAPTURES else None
    return Bank(g, [(p, lm0, None)], s)


def nodes(lm, order):
    k = np.arange(order + 1)
    return lm / 2 * (1 + np.cos(np.pi * (k + .5) / (order + 1)))


def tolerance(b, fs, m, x):
    top = max(1., np.abs(x).max())
    steep = max(1., *[np.abs(f(np.maximum(m.eig()[0], 0))).max()
                      for f in fs])
    return (2e-4 if b.rough else 1e-5) * top * steep * np.sqrt(m.n)


def compare(b, s, name, y, x, lm, method, order, synth, d):
    """y is the filtering of x (n x signals [x filters])."""
    lmk = float(b.slot.G.lmax)
    fs = b.formulas(lmk)
    e = np.maximum(s.m.eig()[0], 0)
    feat = True if synth else None
    if method == "exact":
        if b.jumps(e, lmk) or b.singular(e, lmk):
            return False
        ref = ops.reference(s.m, fs, x, feat=feat)
        t = tolerance(b, fs, s.m, x)
    else:
        if b.jumps(nodes(lm, order), lmk) or \
                b.singular(nodes(lm, order), lmk):
            return False
        ref = ops.reference(s.m, fs, x, lm, order, feat=feat)
        t = max(tolerance(b, fs, s.m, x),
                ops.slack(s.m, fs, lm, order) * (100 if b.rough else 1))
    if synth:
        ref = ref.sum(-1)
    close(name, y, ref.squeeze(), t, key="filter-wrong", design=b.kind,
          method=method, **d)
    return True


def bank_op(kind, p, b, banks, s, slots, ctx, d, c):
    g, n = b.g, s.n
    method, order = p["method"], p["order"]
    if method == "exact" and s.partial:
        method = "chebyshev"
    if s.partial and kind == "inverse":
        return
    if b.slot is not s and s.G.lmax > b.slot.G.lmax * (1 + 1e-12):
        # beyond the spectrum the kernels were made for
        return
    x = world.signal(p["seed"], n, p["nsig"])
    lm = None

    def lmax():
        return float(s.G.lmax)

    if kind in ("apply", "repeat"):
        synth = p["dir"] == "s" and g.Nf > 1
        if synth:
            x = world.signal(p["seed"], n, p["nsig"], g.Nf)
        elif p["nsig"] == g.Nf:
            x = x[:, :, None]
        form = p["form"]
        if form == "int":
            x = np.round(10 * x).astype(int)
        elif form == "f32":
            x = x.astype(np.float32)
        given = x
        if form == "fortran":
            given = np.asfortranarray(x)
        elif form == "list":
            given = x.tolist()
        if form == "matmul":
            method, order = "chebyshev", 30
            y = c.ok(f"{b.kind} @", lambda: g @ x)
        elif p["seed"] % 3:
            y = c.ok(f"{b.kind} filter", g.filter, given, method=method,
                     order=order)
        else:
            y = c.ok(f"{b.kind} filter",
                     g.synthesize if synth else g.analyze,
                     np.asarray(given), method=method, order=order)
        x = x.astype(float)
        if compare(b, s, "filtered signal", y, x, lmax(), method, order,
                   synth, d):
            ctx.probe("filter outputs compared")
        if kind == "repeat":
            y2 = c.ok("filter", g.filter, given, method=method, order=order)
            close("repeated filtering", y2, y, 1e-10 * (1 + np.abs(
                y).max()), key="filter-not-repeatable", design=b.kind, **d)
    elif kind == "evaluate":
        lmk = float(b.slot.G.lmax)
        v = world.nprng("ev", p["seed"]).uniform(1e-3, .999, 7) * lmk
        if p["nsig"] == 2:
            v = [v[:6].reshape(2, 3), v[:4].reshape(2, 2), v[0]][
                p["seed"] % 3]
        y = c.ok("evaluate", g.evaluate, v)
        if not b.jumps(v, lmk) and not b.singular(v, lmk):
            close("evaluate", y, np.stack([f(v) for f in b.formulas(lmk)]),
                  1e-5 * (1 + np.abs(y).max()), key="evaluate-wrong",
                  design=b.kind, **d)
    elif kind == "bank_frame":
        if method == "chebyshev":
            F = c.ok("frame", g.compute_frame, method=method, order=order)
            lm = lmax()
        else:
            F = c.ok("frame", g.compute_frame, method="exact")
        y = F.reshape(g.Nf, n, n)
        # rows are atoms: <atom, x> is the filtered signal
        x = world.signal(p["seed"], n)
        z = np.einsum("kij,j->ik", y, x)
        compare(b, s, "frame", z.squeeze(), x, lm, method, order, False, d)
        ctx.probe(f"frames ({method})")
    elif kind == "tig":
        from pygsp import features
        kw = dict(method=method)
        if method == "chebyshev":
            kw["order"] = order
            lm = lmax()
        norm = p["nsig"] == 2
        z = c.ok("tig", features.compute_norm_tig if norm else
                 features.compute_tig, g, **kw)
        z = [z] if g.Nf == 1 else z
        if len(z) != g.Nf:
            raise Violation("tig-wrong", f"{len(z)} for {g.Nf} filters",
                            design=b.kind, **d)
        F = c.ok("frame", g.compute_frame, **kw).reshape(g.Nf, n, n)
        for k in range(g.Nf):
            ref = np.linalg.norm(F[k], axis=1) if norm else F[k]
            close("tig", z[k], ref, 1e-10 * (1 + np.abs(ref).max()),
                  key="tig-wrong", design=b.kind, **d)
        y = np.einsum("kij,j->ik", F, world.signal(p["seed"], n))
        compare(b, s, "frame", y.squeeze(), world.signal(p["seed"], n), lm,
                method, order, False, d)
    elif kind == "localize":
        i = p["seed"] % n
        y = c.ok("localize", g.localize, i, method=method, order=order)
        compare(b, s, "localized", y / np.sqrt(n), np.eye(n)[i], lmax(),
                method, order, False, d)
    elif kind == "inverse":
        # (the exact basis fixes lmax, on which kernels may depend)
        c.ok("basis", s.G.compute_fourier_basis)
        inv = c.ok("inverse", g.inverse)
        if len(banks) < 6 and not b.derived and not b.rough:
            nb = Bank(inv, [(Derived("inverse", b), None, None)], b.slot)
            nb.on = b.on
            banks.append(nb)
        lmk = float(b.slot.G.lmax)
        e = np.maximum(s.m.eig()[0], 0)
        y = np.stack([f(e) for f in b.formulas(lmk)])
        tot = (y ** 2).sum(0)
        if tot.min() < 1e-3 or b.jumps(e, lmk) or b.singular(e, lmk):
            return
        x = world.signal(p["seed"], n)
        z = c.ok("analysis", g.filter, x, method="exact")
        z = z.reshape(n, 1, g.Nf)
        w = c.ok("synthesis", inv.filter, z, method="exact")
        close("inverse", w, x, 1e-5 * max(tot.max(), 1) / tot.min(),
              key="inverse-wrong", design=b.kind, **d)
    elif kind == "complement":
        comp = c.ok("complement", g.complement)
        if len(banks) < 6 and not b.derived and not b.rough:
            nb = Bank(comp, [(Derived("complement", b), None, None)], b.slot)
            nb.on = b.on
            banks.append(nb)
        lmk = float(b.slot.G.lmax)
        v = np.linspace(1e-3, .999, 9) * lmk
        if b.jumps(v, lmk) or b.singular(v, lmk):
            return
        y = c.ok("evaluate", comp.evaluate, v)
        tot = sum(f(v) ** 2 for f in b.formulas(lmk))
        close("complement", y[0] ** 2, tot.max() - tot,
              1e-5 * max(1, tot.max()), key="complement-wrong",
              design=b.kind, **d)
    elif kind == "bounds":
        if p["seed"] % 2:
            v = np.linspace(.1, .9, 7) * lmax()
            A, B = c.ok("estimate_frame_bounds", g.estimate_frame_bounds,
                        v.tolist() if p["nsig"] == 2 else v)
        else:
            A, B = c.ok("estimate_frame_bounds", g.estimate_frame_bounds)
            v = np.linspace(0, lmax(), 1000)
        lmk = float(b.slot.G.lmax)
        if b.jumps(v, lmk) or b.singular(v, lmk):
            return
        tot = sum(f(v) ** 2 for f in b.formulas(lmk))
        t = 1e-4 * max(1, tot.max())
        if abs(A - tot.min()) > t or abs(B - tot.max()) > t:
            raise Violation("bounds-wrong", f"({A}, {B}) instead of "
                            f"({tot.min()}, {tot.max()})", design=b.kind, **d)
    elif kind == "add":
        b2 = banks[p["bank2"] % len(banks)]
        if b2.slot is b.slot and b2.g.G is g.G and len(banks) < 6 and \
                g.Nf + b2.g.Nf <= 9:
            nb = Bank(c.ok("+", lambda: g + b2.g), b.parts + b2.parts, b.slot)
            nb.on = b.on
            banks.append(nb)
    elif kind == "item":
        if len(b.parts) == 1 and b.parts[0][2] is None and len(banks) < 6:
            k = p["seed"] % g.Nf
            nb = Bank(c.ok("[]", lambda: g[k]),
                      [(b.parts[0][0], b.parts[0][1], [k])], b.slot)
            nb.on = b.on
            banks.append(nb)
    elif kind == "other":
        # the same kernels on another graph
        s2 = slots[p["seed"] % len(slots)]
        if len(banks) < 6:
            nb = Bank(c.ok("()", lambda: g(s2.G)), b.parts, b.slot)
            nb.on = s2
            ctx.probe("kernels applied to another graph")
            banks.append(nb)


def scenario(case, ctx):
    c = world.Calls(ctx)
    slots = [c.ok("Graph", ops.Slot, s) for s in case["graphs"]]
    banks = []
    for k, q in enumerate(case["ops"]):
        s = slots[q["g"] % len(slots)]
        kind, p = q["op"], q["p"]
        d = dict(step=k, op=kind)
        label = ""
        if kind == "make":
            if len(banks) < 4:
                b = c.ok(f"building {p['kind']}", make, s, p)
                b.on = s
                banks.append(b)
                label = p["kind"]
        elif kind in ops.OPS:
            o = ops.OPS[kind]
            if not o.able(s, p):
                continue
            r = c.ok(kind, o.run, s, p, allow=(ops.NOCONV,) if o.noconv
                     else ())
            if isinstance(r, Exception):
                s.partial = True
                continue
            o.settle(s, p, r)
            o.check(s, p, r, d)
        elif kind == "spectrogram":
            if s.partial:
                continue
            check_spectrogram(s, p, c, d)
            ctx.probe("spectrograms")
        elif kind == "rect":
            check_rect(s, p, c, d)
        elif banks:
            b = banks[p["bank"] % len(banks)]
            bank_op(kind, p, b, banks, b.on, slots, ctx, d, c)
            label = b.kind
            s = b.on
            ctx.state((b.kind, kind, p["method"], s.m.lap, b.lap0))
        ctx.log(k, kind, label, s.m.lap, s.partial,
                f"{float(s.G.lmax):.8g}" if not kind.startswith("lap")
                else "")
    ctx.trivial = not ctx.counts["filter outputs compared"]


def check_spectrogram(s, p, c, d):
    from pygsp import features
    M = 5
    kw = [dict(), dict(method="exact"), dict(order=7)][p["order"] % 3]
    if kw.get("method"):
        # (the exact basis fixes lmax, on which the atoms depend)
        c.ok("basis", s.G.compute_fourier_basis)
    sp = c.ok("compute_spectrogram", features.compute_spectrogram, s.G, M=M,
              **kw)
    lm = float(s.G.lmax)
    order = None if kw.get("method") else kw.get("order", 30)
    ref = np.stack([np.sum(ops.reference(
        s.m, [lambda x, t=t: np.exp(-M * ((x - t) / lm) ** 2)],
        np.eye(s.n), lm, order)[..., 0] ** 2, 0)
        for t in np.linspace(0, lm, M)], -1)
    close("spectrogram", sp, ref, 1e-5, key="spectrogram-wrong", **d)


def check_rect(s, p, c, d):
    from pygsp.filters import approximations
    lm = float(s.G.lmax)
    lo, hi = .21 * lm, .67 * lm
    x = world.signal(p["seed"], s.n)
    y = c.ok("cheby_rect", approximations.cheby_rect, s.G, [lo, hi], x,
             order=p["order"])
    b1, b2 = np.arccos(2 * np.array([lo, hi]) / lm - 1)
    k = np.arange(1, p["order"] + 1)
    co = np.concatenate([[(b1 - b2) / np.pi], 2 / (np.pi * k) *
                         (np.sin(k * b1) - np.sin(k * b2))])
    e, U = s.m.eig()
    ref = (U * chebyshev.chebval(2 * e / lm - 1, co)) @ (U.T @ x)
    close("cheby_rect", y, ref, ops.slack(
        s.m, [lambda v: np.ones_like(v)], lm, p["order"]) + 1e-8,
        key="filter-wrong", design="cheby_rect", **d)


def run(case, ctx):
    sim = Sim()
    try:
        sim.run_inline(lambda th: scenario(case, ctx))
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += sim.total
        ctx.log("digest", sim.digest)
