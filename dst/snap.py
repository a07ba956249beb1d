"""Deep value snapshots of anything handed to the package."""

import numpy as np
from scipy import sparse


def snap(x, depth=0):
    """A comparable description of the value of x (not of its identity)."""
    if depth > 8:
        return "deep"
    if x is None or isinstance(x, (str, bytes, bool, int)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return ("float", repr(x))
    if sparse.issparse(x):
        y = x.copy()
        stored = np.sort(np.ravel(np.asarray(y.data))) \
            if y.format != "lil" and y.format != "dok" else None
        return ("sparse", type(x).__name__, str(x.dtype), x.shape,
                y.toarray().tobytes(), None if stored is None or
                stored.dtype == object else stored.tobytes(),
                int(y.count_nonzero()))
    if isinstance(x, np.ndarray):
        return ("array", type(x).__name__, str(x.dtype), x.shape,
                np.ascontiguousarray(x).tobytes() if x.dtype != object
                else [snap(y, depth + 1) for y in x.ravel()],
                x.flags.writeable)
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(snap(k, depth + 1), snap(v, depth + 1))
                         for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    name = type(x).__module__.split(".")[0]
    if name == "networkx":
        return ("nx", type(x).__name__, snap(dict(x.graph)),
                [(repr(n), snap(d)) for n, d in x.nodes(data=True)],
                [(repr(a), repr(b), snap(d))
                 for a, b, d in x.edges(data=True)])
    if name == "graph_tool" and hasattr(x, "vp"):
        return ("gt", x.is_directed(), x.num_vertices(),
                [(int(e.source()), int(e.target())) for e in x.edges()],
                [(k, snap(np.array(v.a))) for k, v in x.vp.items()],
                [(k, snap(np.array(v.a))) for k, v in x.ep.items()])
    if hasattr(x, "W") and hasattr(x, "lap_type"):
        return graph(x) if depth == 0 else ("graph", id(x))
    if callable(x):
        return ("callable", id(x))
    return ("other", id(x))


def graph(G):
    """What a graph is, from its public data."""
    return ("graph", type(G).__name__, snap(G.W), snap(G.L), G.lap_type,
            G.N, G.n_vertices, G.n_edges, G.Ne,
            sorted((k, snap(v)) for k, v in G.signals.items()),
            snap(getattr(G, "coords", None)), sorted(
                (k, snap(v)) for k, v in G.plotting.items()))


def where(a, b, path=""):
    """First difference of two snapshots, for messages."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} became {str(b)[:80]}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}/{a[0] if i and isinstance(a[0], str) else ''}{i}")
        return ""
    if isinstance(a, bytes) and len(a) == len(b) and len(a) % 8 == 0:
        x, y = np.frombuffer(a), np.frombuffer(b)
        k = [i for i in range(len(x)) if x[i:i + 1].tobytes() !=
             y[i:i + 1].tobytes()]
        if k:
            return (f"{path}: {len(k)} numbers changed, first [{k[0]}] "
                    f"{x[k[0]]} became {y[k[0]]}")
    return f"{path}: {str(a)[:80]} became {str(b)[:80]}"
