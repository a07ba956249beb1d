"""C12: plotting keeps track of every figure and changes nothing else."""

import os
import random

import numpy as np

from .. import kernel, seams, snap, world
from ..core import Violation
from ..kernel import Sim, SimAbort, StepBudgetExceeded
from ..world import close

LEVEL = "fault_enumeration"
TECHNIQUE = ("seeded histories of plots, faults in the drawing libraries and "
             "closings, against a model of who owns which figure")
NOTE = ("The real matplotlib (agg) and pyqtgraph (Qt, offscreen) draw. The "
        "n-th call that pygsp makes to a library while it plots, or closes, "
        "raises. A model knows which figures and windows are open and whose "
        "they are; what is drawn is compared with the graph.")
RULE = ("A run is a seeded history of 3 to 9 operations on 2 graphs, filter "
        "banks, figures and windows: plots in one, two and three dimensions "
        "with random options, on new axes, or on axes of the user, of an "
        "earlier plot, or of a figure unknown to pyplot; refused plots; "
        "faults at random library calls; the user opening and closing "
        "figures; and close_all. Non-trivial: at least one figure or window "
        "was opened by the package. Distinctness: hash of the event log.")
STATES = ("(operation, target, dimensions, outcome, open figures of the "
          "package and of the user, open windows) tuples")
REAL = "pygsp, matplotlib with the agg backend, pyqtgraph, PyQt6 offscreen"
STUBS = ("the failing library calls; no OpenGL context, so that windows in "
         "three dimensions are created and shown, but never painted")
ASSUMPTIONS = [
    "a failing library call has no effect, rather than half of one",
]
QUICK = dict(cases=2400, seconds=80, batch=10)
THOROUGH = dict(cases=60000, seconds=780, batch=20)

EXCS = ["MemoryError", "RuntimeError", "ValueError", "OSError",
        "KeyboardInterrupt"]
TARGETS = ["new"] * 6 + ["user", "user", "package", "unmanaged", "closed"]


def gen(rng, i, tier):
    specs = [world.spec_graph(rng, nmin=6, nmax=11) for _ in range(2)]
    seq = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(["plot"] * 8 + ["filter"] * 3 + ["window"] * 3 + [
            "spectrogram", "refused", "refused", "close_all", "close_all",
            "user_figure", "user_figure", "user_close", "user_window",
            "current", "settings", "pyplot_close"])
        q = dict(op=op, seed=rng.getrandbits(24), g=rng.randrange(2),
                 target=rng.choice(TARGETS))
        if op in ("plot", "filter", "window", "spectrogram", "close_all") \
                and rng.random() < .35:
            top = dict(plot=45, filter=40, window=20, spectrogram=60,
                       close_all=4)[op]
            q["fault"] = dict(n=rng.randint(1, top), exc=rng.choice(EXCS))
        if op == "filter" and rng.random() < .15:
            q["kernel"] = rng.randint(1, 3)
        seq.append(q)
    return dict(graphs=specs, ops=seq)


def make_exc(name):
    cls = dict(MemoryError=MemoryError, RuntimeError=RuntimeError,
               ValueError=ValueError, OSError=OSError,
               KeyboardInterrupt=KeyboardInterrupt)[name]
    return cls("simulated failure")


class KernelError(Exception):
    pass


# ------------------------------------------------------------------ the world

class World:
    def __init__(self, case, ctx):
        import matplotlib as mpl
        from matplotlib import pyplot as plt
        from matplotlib._pylab_helpers import Gcf
        from pygsp import plotting
        self.mpl, self.plt, self.Gcf, self.plotting = mpl, plt, Gcf, plotting
        self.case, self.ctx = case, ctx
        self.graphs, self.models = [], []
        for spec in case["graphs"]:
            G, m = world.build(spec, coords=True)
            r = world.nprng("c12", spec["seed"])
            G.set_signal(r.normal(size=G.N), "s")
            self.graphs.append(G)
            self.models.append(m)
        self.axes = []        # (axes, 3d?) made by the user
        self.mine = []        # figures of the user that are open
        self.theirs = []      # figures of the package that are open
        self.drawn = []       # axes drawn on by the package
        self.my_windows = []
        self.windows = []     # of the package
        self.qt = None
        self.backend = "matplotlib"

    # what is open, seen from outside
    def figures(self):
        return [m.canvas.figure for m in self.Gcf.figs.values()]

    def shown(self):
        # (No application is created here: it is up to the package.)
        if "PyQt6" not in kernel.sys.modules:
            return []
        from PyQt6 import QtWidgets
        if QtWidgets.QApplication.instance() is None:
            return []
        return [w for w in QtWidgets.QApplication.topLevelWidgets()
                if w.isVisible()]

    def current(self):
        # (gcf() would create one)
        m = self.Gcf.get_active()
        return None if m is None else m.canvas.figure

    def settings(self):
        return (self.plt.isinteractive(), self.mpl.get_backend(),
                snap.snap({k: v for k, v in self.mpl.rcParams.items()
                           if k not in ("backend",)}),
                self.plotting.BACKEND, snap.snap(np.random.get_state()),
                repr(random.getstate())[:300], os.getcwd())

    def graph(self, i):
        return snap.snap(self.graphs[i])

    def check(self, d):
        """Nothing is open but what the model knows, and all of that is."""
        got = set(map(id, self.figures()))
        for f in self.mine:
            if id(f) not in got:
                raise Violation("user-figure-closed", f"{f}", **d)
        for f in self.theirs:
            if id(f) not in got:
                raise Violation("figure-lost", f"{f}", **d)
        extra = got - set(map(id, self.mine)) - set(map(id, self.theirs))
        if extra:
            raise Violation("stray-figure", f"{len(extra)} figures that "
                            "nobody asked for", **d)
        shown = self.shown()
        for w in self.my_windows:
            if not any(w is x for x in shown):
                raise Violation("user-window-closed", f"{w}", **d)
        for w in self.windows:
            if not any(w is x for x in shown):
                raise Violation("window-lost", f"{w}", **d)
        for w in shown:
            if not any(w is x for x in self.windows + self.my_windows):
                raise Violation("stray-window", f"{w}", **d)


def options(r, G, m, dim, spec):
    """Random options of a plot, and what they should draw."""
    n, ne = G.N, G.n_edges
    kw, x = {}, {}
    c = r.choice(["none", "signal", "signal", "color", "list"])
    if c == "signal" or c == "list":
        v = r.np.normal(size=n)
        if dim == 1 and r.random() < .3:
            v = r.np.normal(size=(n, 2))
        kw["vertex_color"] = v.tolist() if c == "list" else v
        x["color"] = v
    elif c == "color" and dim > 1:
        kw["vertex_color"] = r.choice(["r", (0, .5, 1), "C3"])
    elif dim == 1:
        # (there is nothing to draw without a signal)
        kw["vertex_color"] = x["color"] = r.np.normal(size=n)
    if r.random() < .4:
        kw["vertex_size"] = r.choice([30, r.np.uniform(1, 2, size=n),
                                      np.ones(n)])
    if r.random() < .5:
        kw["edges"] = r.choice([True, False])
    x["edges"] = kw.get("edges", True)
    if r.random() < .3:
        kw["edge_color"] = r.choice(["g", r.np.uniform(size=ne),
                                     (0, .8, .8, .5)])
    if r.random() < .3:
        kw["edge_width"] = r.choice([2, r.np.uniform(size=ne)])
    if r.random() < .4:
        k = r.sample(range(n), r.randint(1, 3))
        kw["highlight"] = r.choice([k, np.array(k), k[0]])
        x["highlight"] = [k[0]] if np.ndim(kw["highlight"]) == 0 else k
    if r.random() < .3 and dim > 1:
        kw["indices"] = True
    if r.random() < .4:
        kw["colorbar"] = r.random() < .5
    if r.random() < .3 and "color" in x:
        kw["limits"] = [-1., 2.]
    if r.random() < .4:
        kw["title"] = r.choice(["", "a title", "$x$"])
    return kw, x


def scaled(drawn, values, what, d):
    """Drawn as an increasing affine function of the values."""
    drawn, v = np.asarray(drawn, float), np.asarray(values, float)
    if drawn.shape != v.shape:
        raise Violation("drawing-wrong", f"{len(drawn)} {what}", **d)
    if len(v) < 2 or np.ptp(v) == 0:
        if np.ptp(drawn) > 1e-9:
            raise Violation("drawing-wrong", f"{what} differ", **d)
        return
    b = np.ptp(drawn) / np.ptp(v)
    if b <= 0 or np.abs(drawn - drawn.min() - b * (v - v.min())).max() > \
            1e-6 * np.ptp(drawn):
        raise Violation("drawing-wrong", f"{what}: {drawn} for {v}"[:300],
                        **d)


def match(lines, curves, d):
    """Every curve is drawn, and nothing else, in any order."""
    lines = [np.transpose(line.get_data()) for line in lines]
    for c in map(np.asarray, curves):
        for k, line in enumerate(lines):
            if line.shape == c.shape and (np.abs(line - c) <= 1e-9 + 1e-5 *
                                          np.abs(c).max()).all():
                del lines[k]
                break
        else:
            raise Violation("drawing-wrong", f"a line of {len(c)} points is "
                            "missing", **d)
    if lines:
        raise Violation("drawing-wrong", f"{len(lines)} more lines", **d)


JET = ([1, 8, 24, 40, 56, 64], [
    [0, 0, 143], [0, 0, 255], [0, 255, 255], [255, 255, 0], [255, 0, 0],
    [128, 0, 0]])
PARULA = ([0, .25, .5, .75, 1], [
    [20, 133, 212], [53, 42, 135], [48, 174, 170], [210, 184, 87],
    [249, 251, 14]])


def colors(cmap, v):
    return np.stack([np.interp(v, cmap[0], c)
                     for c in np.transpose(cmap[1])], -1)


def named(items, name):
    return [x for x in items if type(x).__name__ == name]


def same_points(got, want, what, d):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or (np.abs(got - want) > 1e-5 * (
            1 + np.abs(want))).any():
        raise Violation("drawing-wrong", f"{what}: {got} for {want}"[:300],
                        **d)


def same_colors(got, want, d):
    got = np.asarray(got, float)
    if got.shape != want.shape or not (np.abs(got - want) <= 4).all():
        raise Violation("drawing-wrong", f"colours: {got} for {want}"[:300],
                        **d)


def rgb(data):
    return np.array([b.color().getRgb()[:3] for b in data["brush"]])


def segments(m, pairs, d):
    want, pairs = [sorted(e if m.directed else (min(e), max(e)) for e in p)
                   for p in (m.edges, pairs)]
    if pairs != want:
        raise Violation("drawing-wrong", f"edges {pairs} for {want}"[:300],
                        **d)


def one(items, what, d):
    if len(items) != 1:
        raise Violation("drawing-wrong", f"{len(items)} sets of {what}", **d)
    return items[0]


def window_2d(win, m, coords, x, d):
    items = [i for v in win.ci.items for i in getattr(v, "addedItems", [])]
    graphs = named(items, "GraphItem")
    drawn = [g for g in graphs if g.pen is not None]
    if x["edges"] or drawn:
        g = one(drawn if x["edges"] else [], "edges", d)
        same_points(g.pos, coords, "ends of edges", d)
        segments(m, [tuple(map(int, e)) for e in g.adjacency], d)
    if x.get("color") is None:
        points = [g.scatter for g in graphs]
    else:
        points = named(items, "ScatterPlotItem")
    data = one(points, "vertices", d).data
    same_points(np.stack([data["x"], data["y"]], 1), coords, "vertices", d)
    if x.get("color") is not None:
        same_colors(rgb(data), colors(JET, x["color"]), d)


def window_3d(win, m, coords, x, d):
    lines = named(win.items, "GLLinePlotItem")
    if x["edges"] or lines:
        g = one(lines if x["edges"] else [], "edges", d)
        ends = [int(np.abs(coords - e).sum(1).argmin()) for e in g.pos]
        same_points(g.pos, coords[ends], "ends of edges", d)
        segments(m, list(zip(ends[::2], ends[1::2])), d)
    points = one(named(win.items, "GLScatterPlotItem"), "vertices", d)
    same_points(points.pos, coords, "vertices", d)
    if x.get("color") is not None:
        same_colors(255 * np.asarray(points.color)[:, :3],
                    colors(JET, x["color"]), d)


def coords_of(r, n, dim):
    return r.np.normal(size=n) if dim == 1 else r.np.normal(size=(n, dim))


class Random(random.Random):
    pass


def rng(q):
    r = Random(q["seed"])
    r.np = world.nprng("c12op", q["seed"])
    return r


# -------------------------------------------------------------- the operations

class Run:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        faults = []
        for k, q in enumerate(case["ops"]):
            if "fault" in q:
                faults.append(dict(tid=0, op=k, at="call", **q["fault"]))
        self.errors = []
        self.sim = Sim(faults=faults, make_exc=make_exc)

    def call(self, k, fn, *args, **kw):
        """(result, exception) of a call into the package."""
        try:
            if k is not None:
                self.sim.begin_op(self.th, k)
            return fn(*args, **kw), None
        except (SimAbort, kernel.HarnessError, Violation):
            raise
        except (Exception, KeyboardInterrupt) as e:
            # (kept, as an interactive session does with its last error)
            self.errors.append(e)
            return None, e
        finally:
            if k is not None:
                self.sim.end_op(self.th)

    def main(self, th):
        self.th = th
        w = self.w = World(self.case, self.ctx)
        try:
            for k, q in enumerate(self.case["ops"]):
                d = dict(step=k, op=q["op"])
                getattr(self, q["op"])(k, q, rng(q), d)
                self.ctx.log(k, q["op"], d.get("target"), d.get("outcome"),
                             len(w.theirs), len(w.mine), len(w.windows))
                self.ctx.state((q["op"], d.get("target"), d.get("dim"),
                                d.get("outcome"), len(w.theirs),
                                len(w.mine), len(w.windows)))
                w.check(d)
            d = dict(step="end")
            self.close(None, d)
            self.close(None, d)
        finally:
            self.clean()

    def clean(self):
        w = self.w
        self.errors.clear()
        w.plt.close("all")
        for x in w.shown():
            x.close()
        w.plotting.BACKEND = "matplotlib"
        # (What is not tracked, or not closed, is of no concern to the
        # next run.)
        for name, x in list(vars(w.plotting).items()):
            if isinstance(x, list) and name.startswith("_") and x and \
                    not name.startswith("__"):
                del x[:]

    def fired(self, d, n):
        new = self.sim.fired[n:]
        for f in new:
            self.ctx.fault(f"{f['exc']} at a library call")
            d["fault"] = f"{f['exc']} at {f['where']}"
        return bool(new)

    def attempt(self, k, q, d, fn, args, kw, graph, allowed=()):
        """A plot: (result, exception), having checked its side effects."""
        w, n = self.w, len(self.sim.fired)
        before = (w.settings(), w.graph(graph), snap.snap(args), snap.snap(
            {a: v for a, v in kw.items() if a != "ax"}))
        G = w.graphs[graph]
        plot0 = snap.snap(G.plotting)
        current = w.current()
        res, err = self.call(k, fn, *args, **kw)
        fired = self.fired(d, n)
        d["outcome"] = type(err).__name__
        after = (w.settings(), w.graph(graph), snap.snap(args), snap.snap(
            {a: v for a, v in kw.items() if a != "ax"}))
        for what, x, y in zip(("settings", "graph", "arguments", "options"),
                              before, after):
            if x != y:
                raise Violation(f"{what}-changed", f"by {q['op']}", **d)
        if snap.snap(G.plotting) != plot0:
            raise Violation("defaults-changed", str(G.plotting), **d)
        if err is not None and not fired and not isinstance(err, allowed):
            raise Violation(f"unexpected-{type(err).__name__}",
                            f"{q['op']} without fault: {err}", **d)
        if kw.get("ax") is not None and w.current() is not current:
            raise Violation("current-figure-changed", "by a plot on given "
                            "axes", **d)
        if err is not None and not isinstance(err, allowed):
            self.ctx.probe("failed plots")
        return res, err

    def target(self, q, dim):
        """(axes or None, kind of target)."""
        w, t = self.w, q["target"]
        three = dim == 3
        ax = None
        if t == "user":
            for a, z in w.axes:
                if z == three and a.figure in w.mine:
                    ax = a
        elif t == "package":
            for a, z in w.drawn:
                if z == three and a.figure in w.theirs:
                    ax = a
        elif t == "closed":
            for a, z in w.axes + w.drawn:
                if z == three and a.figure not in w.mine + w.theirs:
                    ax = a
        elif t == "unmanaged":
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            f = w.mpl.figure.Figure()
            FigureCanvasAgg(f)
            ax = f.add_subplot(111, projection="3d" if three else None)
        return ax, t if ax is not None else "new"

    def outcome(self, res, err, ax, three, d, drawn):
        """Update, and check, who owns the figures after a plot."""
        w = self.w
        known = set(map(id, w.mine + w.theirs))
        new = [f for f in w.figures() if id(f) not in known]
        if ax is not None and new:
            raise Violation("stray-figure", "a plot on given axes opened "
                            f"{len(new)} figures", **d)
        if len(new) > 1:
            raise Violation("stray-figure", f"a plot opened {len(new)} "
                            "figures", **d)
        w.theirs += new
        self.ctx.probe("figures opened", len(new))
        if err is not None:
            return None
        fig, axes = res
        if ax is None and (not new or fig is not new[0]):
            raise Violation("no-figure", "the figure is not open", **d)
        if ax is not None and axes is not ax or axes not in fig.axes:
            raise Violation("other-axes", "drawn on other axes than those "
                            "given", **d)
        if ax is None:
            w.drawn.append((axes, three))
        return axes

    def plot(self, k, q, r, d):
        w, g = self.w, q["g"]
        G, m = w.graphs[g], w.models[g]
        dim = d["dim"] = r.choice([1, 2, 2, 2, 3])
        G.set_coordinates(coords_of(r, G.N, dim))
        kw, x = options(r, G, m, dim, self.case["graphs"][g])
        ax, d["target"] = self.target(q, dim)
        if w.backend != "matplotlib":
            kw["backend"] = "matplotlib"
        if ax is not None:
            kw["ax"] = ax
        children = [] if ax is None else list(ax.get_children())
        kept = len(children)
        old = [c for c in children if c in (ax.lines[:] + ax.collections[:] +
                                            ax.texts[:])] if ax else []
        n0 = (0, 0, 0) if ax is None else (
            len(ax.lines), len(ax.collections), len(ax.texts))
        args = ()
        if "vertex_color" in kw and r.random() < .5:
            args = (kw.pop("vertex_color"),)
        res, err = self.attempt(k, q, d, G.plot, args, kw, g)
        axes = self.outcome(res, err, ax, dim == 3, d, kept)
        if ax is not None and any(c not in ax.get_children() for c in old):
            raise Violation("user-artist-removed", "from given axes", **d)
        if err is not None:
            self.again(q, d, G.plot, args, kw, g, dim == 3)
            return
        self.ctx.probe("plots")
        self.drawing(G, m, dim, axes, n0, kw, x, d)

    def again(self, q, d, fn, args, kw, g, three):
        """The same plot, without the fault, succeeds."""
        d = dict(d, retried=True)
        res, err = self.attempt(None, q, d, fn, args, kw, g)
        self.outcome(res, err, kw.get("ax"), three, d, 0)
        self.ctx.probe("retried")

    def drawing(self, G, m, dim, axes, n0, kw, x, d):
        """What is drawn is the graph."""
        w = self.w
        lines, colls = axes.lines[n0[0]:], axes.collections[n0[1]:]
        texts0 = n0[2]
        title = kw.get("title")
        if title is None:
            title = G.__repr__(limit=4)
        if axes.get_title() != title:
            raise Violation("title-wrong", repr(axes.get_title()), **d)
        hl = x.get("highlight", [])
        if dim == 1:
            cols = x["color"].reshape(m.n, -1)
            match(lines, [np.stack([G.coords, c], 1) for c in cols.T] +
                  [[[G.coords[v], 0], [G.coords[v], 1]] for v in hl], d)
            return
        nets = [c for c in colls if isinstance(
            c, w.mpl.collections.LineCollection)]
        dots = [c for c in colls if not any(c is y for y in nets)]
        rings = [c for c in dots if not len(c.get_facecolor())]
        dots = [c for c in dots if not any(c is y for y in rings)]
        if (len(nets), len(dots), len(rings)) != (bool(x["edges"]), 1, 1):
            raise Violation("drawing-wrong", f"{len(nets)} sets of edges, "
                            f"{len(dots)} of vertices, {len(rings)} "
                            "highlighted", **d)
        if x["edges"]:
            segs = nets[0]._segments3d if dim == 3 else \
                nets[0].get_segments()
            got = np.array([np.ravel(s) for s in segs])
            src, dst = np.transpose(sorted(m.edges))
            exp = np.hstack([G.coords[src], G.coords[dst]])
            rev = np.hstack([G.coords[dst], G.coords[src]])
            if got.shape != exp.shape:
                raise Violation("drawing-wrong", f"{len(got)} edges drawn, "
                                f"of {len(exp)}", **d)
            dist = np.minimum(np.abs(got[:, None] - exp[None]).max(2),
                              np.abs(got[:, None] - rev[None]).max(2))
            if dist.min(0).max() > 1e-9 or dist.min(1).max() > 1e-9:
                raise Violation("drawing-wrong", "edges between other "
                                "vertices", **d)
            # (values are given in the order of get_edge_list)
            rank = {e: k for k, e in enumerate(zip(*map(
                np.ndarray.tolist, G.get_edge_list()[:2])))}
            near = np.abs(got[:, None] - exp[None]).max(2)
            near = np.where(near.min(1) < 1e-9, near.argmin(1),
                            dist.argmin(1))
            mine = [rank.get(e, rank.get(e[::-1])) for e in zip(
                src[near].tolist(), dst[near].tolist())]
            if np.ndim(kw.get("edge_width", 1)):
                scaled(nets[0].get_linewidths(), kw["edge_width"][mine],
                       "widths", d)
            color = kw.get("edge_color")
            if isinstance(color, np.ndarray) and len(color) > 4:
                # (three or four values are a colour)
                scaled(nets[0].get_colors()[:, 3], color[mine], "edge values",
                       d)
        sc, ring = dots[0], rings[0]

        def offsets(c):
            if dim == 2:
                return np.asarray(c.get_offsets())
            return np.stack([np.asarray(v) for v in c._offsets3d], 1)
        close("vertices", offsets(sc), G.coords, 1e-9, key="drawing-wrong",
              **d)
        close("highlighted", offsets(ring), G.coords[hl].reshape(-1, dim),
              1e-9, key="drawing-wrong", **d)
        if np.ndim(kw.get("vertex_size", 1)):
            scaled(np.sqrt(sc.get_sizes()), kw["vertex_size"], "sizes", d)
        elif "vertex_size" in kw:
            close("sizes", np.asarray(sc.get_sizes(), float),
                  [float(kw["vertex_size"])], 1e-9, key="drawing-wrong", **d)
        texts = axes.texts[texts0:]
        want = map(str, range(m.n if kw.get("indices") else 0))
        if sorted(t.get_text() for t in texts) != sorted(want):
            raise Violation("drawing-wrong", f"{len(texts)} indices", **d)
        if dim == 2:
            for t in texts:
                close("index", np.array(t.get_position()),
                      G.coords[int(t.get_text())], 1e-9, key="drawing-wrong",
                      **d)
        if "color" in x:
            close("values", sc.get_array(), x["color"], 1e-9,
                  key="drawing-wrong", **d)
            if "limits" in kw and tuple(sc.get_clim()) != tuple(kw["limits"]):
                raise Violation("drawing-wrong", f"{sc.get_clim()}", **d)
            bar = sc.colorbar is not None
            if bar != kw.get("colorbar", True):
                raise Violation("colorbar-wrong", str(bar), **d)
            if bar and sc.colorbar.ax.figure is not axes.figure:
                raise Violation("colorbar-wrong", "on another figure", **d)
        elif sc.colorbar is not None:
            raise Violation("colorbar-wrong", "without a signal", **d)

    def filter(self, k, q, r, d):
        from pygsp import filters
        w, g = self.w, q["g"]
        G, m = w.graphs[g], w.models[g]
        if m.lmax() < 1e-4 or m.directed and m.lap == "normalized":
            return
        nf = r.randint(1, 3)
        calls = [0]

        def kernel_(j):
            def f(x):
                if q.get("kernel") and j == 0:
                    calls[0] += 1
                    if calls[0] == q["kernel"]:
                        raise KernelError("simulated failure")
                return 1 / (1 + (j + 1) * x / m.lmax())
            return f
        bank = filters.Filter(G, [kernel_(j) for j in range(nf)])
        kw = {}
        if r.random() < .5:
            kw["n"] = r.choice([1, 2, 50])
        if r.random() < .4:
            kw["eigenvalues"] = r.random() < .5
        if r.random() < .4:
            kw["sum"] = r.random() < .5
        if r.random() < .4:
            kw["labels"] = r.random() < .5
        if r.random() < .3:
            kw["title"] = "a bank"
        if r.random() < .3:
            kw["linewidth"] = 3
        ax, d["target"] = self.target(q, 2)
        if ax is not None:
            kw["ax"] = ax
        n0 = 0 if ax is None else len(ax.lines)
        G.compute_fourier_basis()
        res, err = self.attempt(k, q, d, bank.plot, (), kw, g,
                                allowed=(KernelError,))
        axes = self.outcome(res, err, ax, False, d, 0)
        if err is not None:
            if isinstance(err, KernelError):
                self.ctx.fault("kernel of the user raised")
            q.pop("kernel", None)
            self.again(q, d, bank.plot, (), kw, g, False)
            return
        self.ctx.probe("plots")
        lines = axes.lines[n0:]
        with_e = kw.get("eigenvalues", True)
        total = kw.get("sum", nf > 1)
        x = np.linspace(0, G.lmax, kw.get("n", 500))
        if with_e:
            x = np.sort(np.concatenate([x, G.e]))
        y = np.stack([1 / (1 + (j + 1) * x / m.lmax()) for j in range(nf)], 1)
        curves = [(x, y[:, j]) for j in range(nf)]
        if total:
            curves.append((x, (y**2).sum(1)))
        if with_e:
            e = np.array(G.e)
            v = np.stack([1 / (1 + (j + 1) * e / m.lmax())
                          for j in range(nf)], 1)
            curves += [(e, v[:, j]) for j in range(nf)]
            if total:
                curves.append((e, (v**2).sum(1)))
        match(lines, [np.transpose(c) for c in curves], d)
        title = kw.get("title", repr(bank))
        if axes.get_title() != title:
            raise Violation("title-wrong", repr(axes.get_title()), **d)

    # -- windows
    def opened(self, err, d):
        w = self.w
        new = [x for x in w.shown() if not any(
            x is y for y in w.windows + w.my_windows)]
        if len(new) > 1 or err is None and not new:
            raise Violation("windows-wrong", f"{len(new)} windows opened",
                            **d)
        w.windows += new
        self.ctx.probe("windows opened", len(new))
        return new

    def window(self, k, q, r, d):
        w, g = self.w, q["g"]
        G = w.graphs[g]
        dim = d["dim"] = r.choice([2, 2, 3])
        G.set_coordinates(coords_of(r, G.N, dim))
        kw = {}
        if w.backend == "matplotlib" or r.random() < .3:
            kw["backend"] = "pyqtgraph"
        x = dict(edges=True)
        if r.random() < .6:
            v = kw["vertex_color"] = r.np.uniform(-1, 2, size=G.N)
            if r.random() < .1:
                v[:] = 1
            limits = 1.05 * v.min(), 1.05 * v.max()
            if r.random() < .3:
                limits = kw["limits"] = [-.7, r.choice([0., 1.5])]
            x["color"] = 1 + 63 * (v - limits[0]) / (
                (limits[1] - limits[0]) or 1)
        if r.random() < .3:
            x["edges"] = kw["edges"] = r.random() < .5
        if r.random() < .3:
            kw["vertex_size"] = r.choice([40, r.np.uniform(1, 2, size=G.N)])
        if r.random() < .3:
            kw["title"] = "a window"
        w.qt = True
        figures = len(w.figures())
        res, err = self.attempt(k, q, d, G.plot, (), kw, g)
        new = self.opened(err, d)
        if len(w.figures()) != figures:
            raise Violation("stray-figure", "by pyqtgraph", **d)
        if err is None:
            title = kw.get("title", G.__repr__(limit=4))
            if new[0].windowTitle() != title:
                raise Violation("title-wrong", new[0].windowTitle(), **d)
            self.ctx.probe("windows")
        else:
            res, err = self.attempt(None, q, d, G.plot, (), kw, g)
            new = self.opened(err, d)
            self.ctx.probe("retried")
        if err is None:
            (window_2d if dim == 2 else window_3d)(
                new[0], w.models[g], np.asarray(G.coords), x, d)

    def spectrogram(self, k, q, r, d):
        from pygsp import features
        w, g = self.w, q["g"]
        G, m = w.graphs[g], w.models[g]
        if m.directed or m.lmax() < 1e-4 or not m.connected:
            return
        if r.random() < .6:
            # what is drawn is of the current Laplacian
            if r.random() < .5:
                G.compute_laplacian(r.choice(["normalized", "combinatorial"]))
            G.compute_fourier_basis()
            features.compute_spectrogram(G, M=4)
            G.compute_laplacian(m.lap)
        G.compute_fourier_basis()
        kw = {}
        if r.random() < .5:
            kw["node_idx"] = r.choice([None, r.np.permutation(G.N)])
        res, err = self.attempt(k, q, d, G.plot_spectrogram, (), kw, g)
        new = self.opened(err, d)
        if err is not None:
            res, err = self.attempt(None, q, d, G.plot_spectrogram, (), kw, g)
            new = self.opened(err, d)
            self.ctx.probe("retried")
        items = [i for p in new[0].ci.items for i in getattr(p, "items", [])]
        data = one(named(items, "ScatterPlotItem"), "values", d).data
        M = len(data) // G.N
        e, U = m.eig()
        lm = e[-1]
        ref = np.stack([(U ** 2) @ np.exp(-M * ((e - t) / lm) ** 2) ** 2
                        for t in np.linspace(0, lm, M)], -1)
        if kw.get("node_idx") is not None:
            ref = ref[kw["node_idx"]]
        i, j = data["x"].astype(int), data["y"].astype(int)
        if sorted(zip(i, j)) != [(a, b) for a in range(G.N)
                                 for b in range(M)]:
            raise Violation("drawing-wrong", "points of the spectrogram", **d)
        if np.ptp(ref) > 1e-3:
            same_colors(rgb(data), colors(
                PARULA, (ref[i, j] - ref.min()) / np.ptp(ref)), d)
            self.ctx.probe("spectrograms")

    # -- refusals: an exception, and nothing that cannot be closed
    def refused(self, k, q, r, d):
        w, g = self.w, q["g"]
        G = w.graphs[g]
        G.set_coordinates(coords_of(r, G.N, 2))
        n = G.N
        kw = r.choice([
            dict(vertex_color=-np.ones(n + 1)),
            dict(vertex_color=np.ones((n, 2))),
            dict(vertex_size=np.ones(n - 1)),
            dict(edge_color=-np.ones(G.n_edges + 1)),
            dict(edge_width=np.ones((n + G.n_edges, 2))),
            dict(edge_color="no such color"),
            dict(highlight=[n + 3]),
            dict(backend="unknown"),
            dict(backend="unknown", vertex_color=np.ones(n)),
            dict(coords=1), dict(coords=2), dict(coords=3),
            dict(limits=[0]),
        ])
        kw = dict(kw)
        d["refused"] = repr(sorted(kw))
        c = kw.pop("coords", None)
        keep = G.coords
        if c == 1:
            G.coords = None
        elif c == 2:
            G.coords = np.ones((n, 4))
        elif c == 3:
            G.coords = np.ones((n + 1, 2))
        if "limits" in kw:
            kw["vertex_color"] = np.arange(n) * 1.
        if w.backend != "matplotlib":
            kw.setdefault("backend", "matplotlib")
        ax, d["target"] = self.target(q, 2)
        if ax is not None:
            kw["ax"] = ax
        res, err = self.attempt(None, q, d, G.plot, (), kw, g,
                                allowed=(Exception,))
        G.coords = keep
        if err is None:
            raise Violation("accepted", f"{kw}", **d)
        self.ctx.probe("refused plots")
        self.outcome(res, err, ax, False, d, 0)

    # -- the user
    def user_figure(self, k, q, r, d):
        w = self.w
        three = r.random() < .3
        f = w.plt.figure()
        a = f.add_subplot(111, projection="3d" if three else None)
        if not three:
            a.plot([0, 1], [0, 1])
            a.text(0, 0, "mine")
        w.mine.append(f)
        w.axes.append((a, three))

    def user_close(self, k, q, r, d):
        """The user closes a figure, or a window."""
        w = self.w
        pool = [("mine", f) for f in w.mine] + \
            [("theirs", f) for f in w.theirs] + \
            [("windows", x) for x in w.windows] + \
            [("my_windows", x) for x in w.my_windows]
        if not pool:
            return
        name, x = r.choice(pool)
        d["target"] = name
        getattr(w, name)[:] = [y for y in getattr(w, name) if y is not x]
        if name in ("mine", "theirs"):
            w.plt.close(x if r.random() < .5 else x.number)
        else:
            x.close()

    def pyplot_close(self, k, q, r, d):
        """plotting.close() closes the current figure, or the given one."""
        w = self.w
        f = w.current()
        if f is None:
            return
        if r.random() < .4:
            f = r.choice(w.figures())
            w.plotting.close(f)
        else:
            w.plotting.close()
        for name in ("mine", "theirs"):
            getattr(w, name)[:] = [y for y in getattr(w, name) if y is not f]

    def user_window(self, k, q, r, d):
        w = self.w
        if not w.shown():
            return
        from PyQt6 import QtWidgets
        x = QtWidgets.QWidget()
        x.show()
        w.my_windows.append(x)

    def current(self, k, q, r, d):
        """The user makes another figure the current one."""
        w = self.w
        fs = w.figures()
        if fs:
            w.plt.figure(r.choice(fs).number)

    def settings(self, k, q, r, d):
        w = self.w
        w.backend = w.plotting.BACKEND = r.choice(["matplotlib", "pyqtgraph"])
        G = w.graphs[q["g"]]
        G.plotting["vertex_size"] = r.choice([10, 100])
        G.plotting["edge_width"] = r.choice([1, 5])

    # -- closing
    def close_all(self, k, q, r, d):
        self.close(k, d)
        if d["outcome"] != "NoneType":
            # nothing may be forgotten: the next call closes the rest
            self.close(None, dict(d, retried=True))

    def close(self, k, d):
        w, n = self.w, len(self.sim.fired)
        before = w.settings()
        res, err = self.call(k, w.plotting.close_all)
        fired = self.fired(d, n)
        d["outcome"] = type(err).__name__
        if w.settings() != before:
            raise Violation("settings-changed", "by close_all", **d)
        if err is not None and not fired:
            raise Violation(f"unexpected-{type(err).__name__}",
                            f"close_all without fault: {err}", **d)
        open_ = set(map(id, w.figures()))
        shown = w.shown()
        if err is None:
            left = [f for f in w.theirs if id(f) in open_]
            if left:
                raise Violation("figure-not-closed", f"{len(left)} of "
                                f"{len(w.theirs)}", **d)
            left = [x for x in w.windows if any(x is y for y in shown)]
            if left:
                raise Violation("window-not-closed", f"{len(left)} of "
                                f"{len(w.windows)}", **d)
            self.ctx.probe("figures closed", len(w.theirs))
            w.theirs, w.windows = [], []
        else:
            w.theirs = [f for f in w.theirs if id(f) in open_]
            w.windows = [x for x in w.windows if any(x is y for y in shown)]
        w.check(d)


def run(case, ctx):
    r = Run(case, ctx)
    try:
        r.sim.run_inline(r.main)
    except StepBudgetExceeded as e:
        raise Violation("no-termination", str(e))
    finally:
        ctx.steps += r.sim.total
    ctx.trivial = not (ctx.counts["figures opened"] or
                       ctx.counts["windows opened"])
