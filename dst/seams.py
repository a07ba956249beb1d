"""Seams owned by the simulator: randomness, storage, imports."""

import builtins
import contextlib
import errno
import importlib.abc
import io
import os
import random
import sys
import threading

import numpy as np

from . import kernel

# ------------------------------------------------------------------ randomness

_real_default_rng = np.random.default_rng
_RealRandomState = np.random.RandomState

# Source of seeds for generators which are not seeded by their caller.
_entropy = random.Random(0)
# Wraps the generators handed to pygsp (see AdversarialGenerator).
_wrap = None
_wrap_scipy = False   # also those created by scipy.stats
unseeded_requests = 0


def _caller_is_pygsp(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").split(".")[0] == "pygsp"


# Generator of the starting vectors of ARPACK (see arpack_starts).
_starts = None


def default_rng(seed=None):
    global unseeded_requests
    if _starts is not None:
        if seed is _starts:
            return seed
        if seed is None and _caller_is_arpack():
            return _starts
    if seed is None:
        unseeded_requests += 1
        seed = _entropy.getrandbits(64)
    rng = _real_default_rng(seed)
    if _wrap is not None and _caller_is_pygsp():
        return _wrap(rng)
    return rng


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealRandomState)


class RandomState(_RealRandomState, metaclass=_Meta):
    def __new__(cls, seed=None):
        global unseeded_requests
        if seed is None:
            unseeded_requests += 1
            seed = _entropy.getrandbits(32)
        rs = _RealRandomState(seed)
        if _wrap is not None and (_caller_is_pygsp() or _wrap_scipy):
            return _wrap(rs)
        return rs


def patch_random():
    np.random.default_rng = default_rng
    np.random.RandomState = RandomState


def seed_entropy(seed):
    """Everything unseeded, and the global streams, derive from seed."""
    global unseeded_requests
    _entropy.seed(seed)
    unseeded_requests = 0
    r = random.Random(seed)
    np.random.seed(r.getrandbits(32))
    random.seed(r.getrandbits(32))


def _caller_is_arpack(depth=2):
    f = sys._getframe(depth)
    return "arpack" in f.f_globals.get("__name__", "")


@contextlib.contextmanager
def arpack_starts(generator):
    global _starts
    _starts = generator
    try:
        yield
    finally:
        _starts = None


@contextlib.contextmanager
def wrapped_generators(wrap, scipy_too=False):
    global _wrap, _wrap_scipy
    _wrap, _wrap_scipy = wrap, scipy_too
    try:
        yield
    finally:
        _wrap, _wrap_scipy = None, False


class AdversarialGenerator:
    """A legal but unlikely random stream.

    Each draw is, with probability ``rate``, replaced by an extreme yet
    possible outcome of the same distribution, for at most ``limit`` draws
    (a fair stream afterwards, so that retry loops may end).
    """

    def __init__(self, rng, adv):
        self._rng = rng
        self._adv = adv

    # -- helpers
    def _hit(self):
        a = self._adv
        a["draws"] += 1
        if a["left"] > 0 and a["r"].random() < a["rate"]:
            a["left"] -= 1
            a["hits"] += 1
            return True
        return False

    def _mode(self, n):
        a = self._adv
        if a["sticky"] is not None:
            return a["sticky"] % n
        return a["r"].randrange(n)

    def uniform(self, low=0.0, high=1.0, size=None):
        x = self._rng.uniform(low, high, size)
        if self._hit():
            lo = np.broadcast_to(np.asarray(low, float), np.shape(x))
            hi = np.broadcast_to(np.asarray(high, float), np.shape(x))
            mode = self._mode(4)
            if mode == 0:
                x = np.array(lo)
            elif mode == 1:
                x = np.nextafter(hi, lo)
            elif mode == 2:
                # a run of equal values
                x = np.array(np.broadcast_to(lo + (hi - lo) * .5, np.shape(x)))
            else:
                u = np.asarray(x)
                x = np.where(np.arange(u.size).reshape(u.shape) % 2 == 0,
                             lo, np.nextafter(hi, lo))
            if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
                x = float(x)
        return x

    def random(self, size=None, dtype=np.float64, out=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = random

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape or None)

    def integers(self, low, high=None, size=None, dtype=np.int64,
                 endpoint=False):
        x = self._rng.integers(low, high, size=size, dtype=dtype,
                               endpoint=endpoint)
        if self._hit():
            lo, hi = (0, low) if high is None else (low, high)
            hi = hi if endpoint else np.asarray(hi) - 1
            mode = self._mode(3)
            v = lo if mode == 0 else hi if mode == 1 else x
            if mode == 2 and size is not None:
                v = np.ravel(x)[0] if np.size(x) else x
            if np.ndim(x):
                x = np.array(np.broadcast_to(v, np.shape(x))).astype(dtype)
            else:
                x = type(x)(np.asarray(v).item()) if not isinstance(x, int) \
                    else int(v)
        return x

    def randint(self, low, high=None, size=None, dtype=int):
        x = self._rng.randint(low, high, size, dtype)
        if self._hit():
            lo, hi = (0, low) if high is None else (low, high)
            v = lo if self._mode(2) == 0 else hi - 1
            x = np.full(np.shape(x), v, dtype) if np.ndim(x) else v
        return x

    def choice(self, a, size=None, replace=True, p=None, *args, **kw):
        x = self._rng.choice(a, size, replace, p, *args, **kw)
        if self._hit():
            pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            if p is not None:
                pool = pool[np.asarray(p) > 0]
            n = 1 if size is None else int(np.prod(size))
            last = self._mode(2) == 1
            if replace:
                v = np.full(n, pool[-1 if last else 0])
            else:
                v = pool[-n:] if last else pool[:n]
            x = v[0] if size is None else np.array(v).reshape(size)
        return x

    def permutation(self, x, *args, **kw):
        y = self._rng.permutation(x, *args, **kw)
        if self._hit():
            y = np.arange(x) if np.ndim(x) == 0 else np.array(x)
            if self._mode(2) == 1:
                y = y[::-1].copy()
        return y

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = self._rng.normal(loc, scale, size)
        if self._hit():
            # large but possible deviations
            x = loc + (np.asarray(x) - loc) * 4
        return x

    standard_normal = None

    def __getattr__(self, name):
        return getattr(self._rng, name)


AdversarialGenerator.standard_normal = \
    lambda self, size=None, *a, **k: self.normal(0.0, 1.0, size)


# --------------------------------------------------------------------- imports

class _Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, packages, exc):
        self.packages = packages
        self.exc = exc
        self.hits = 0

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.packages or name in self.packages:
            self.hits += 1
            raise self.exc(f"simulated failure importing {name}")
        return None


@contextlib.contextmanager
def broken_imports(packages, exc=ImportError):
    """Importing the packages fails, for the duration of the block."""
    packages = set(packages)

    if not packages:
        yield _Blocker(packages, exc)
        return
    roots = tuple({p.split(".")[0] for p in packages})

    def concerned(name):
        if not name.startswith(roots):
            return False
        parts = name.split(".")
        return any(".".join(parts[:i]) in packages
                   for i in range(1, len(parts) + 1))

    saved = {n: m for n, m in sys.modules.items() if concerned(n)}
    parents = {}
    for n in saved:
        del sys.modules[n]
        # `from package import module` looks at attributes first.
        if "." in n and not concerned(n.rpartition(".")[0]):
            parent = sys.modules.get(n.rpartition(".")[0])
            attr = n.rpartition(".")[2]
            if parent is not None and hasattr(parent, attr):
                parents[(parent, attr)] = getattr(parent, attr)
                delattr(parent, attr)
    blocker = _Blocker(packages, exc)
    sys.meta_path.insert(0, blocker)
    try:
        yield blocker
    finally:
        sys.meta_path.remove(blocker)
        for n in [n for n in sys.modules if concerned(n)]:
            del sys.modules[n]
        sys.modules.update(saved)
        for (parent, attr), value in parents.items():
            setattr(parent, attr, value)


@contextlib.contextmanager
def restarted(root):
    """The package, and the loggers, as in a program that was just started.

    Yields a function that imports the package; its functions are watched by
    the simulator.
    """
    import importlib
    import importlib.machinery as machinery
    import logging
    saved = {n: m for n, m in sys.modules.items()
             if n.split(".")[0] == "pygsp"}
    manager = logging.root.manager
    loggers = {n: lg for n, lg in manager.loggerDict.items()
               if n.split(".")[0] == "pygsp"}
    root_state = (list(logging.root.handlers), logging.root.level,
                  manager.disable)
    get_code = machinery.SourceFileLoader.get_code

    def remembered(loader, name):
        # (compiled and watched once per process)
        if name.split(".")[0] != "pygsp":
            return get_code(loader, name)
        if name not in _codes:
            _codes[name] = code = get_code(loader, name)
            if ".tests" not in name:
                for c in kernel.nested(code):
                    if c is not code:
                        kernel.watch(c, root)
        return _codes[name]

    def forget():
        for n in [n for n in sys.modules if n.split(".")[0] == "pygsp"]:
            del sys.modules[n]
        for n in [n for n in manager.loggerDict
                  if n.split(".")[0] == "pygsp"]:
            del manager.loggerDict[n]

    def start():
        machinery.SourceFileLoader.get_code = remembered
        try:
            pygsp = importlib.import_module("pygsp")
            for name in LAZY:
                importlib.import_module(name)
        finally:
            machinery.SourceFileLoader.get_code = get_code
        return pygsp

    forget()
    try:
        yield start
    finally:
        forget()
        sys.modules.update(saved)
        manager.loggerDict.update(loggers)
        logging.root.handlers[:], _, manager.disable = root_state
        logging.root.setLevel(root_state[1])


_codes = {}
LAZY = ["pygsp.plotting", "pygsp.optimization", "pygsp.features",
        "pygsp.learning", "pygsp.reduction", "pygsp.filters.approximations"]


# --------------------------------------------------------------------- logging

class captured_logs:
    """Records the package logs, instead of writing them."""

    def __enter__(self):
        import logging
        self.records = []
        self._disable = logging.root.manager.disable
        self._call = logging.Logger.callHandlers
        logging.disable(logging.NOTSET)
        logging.Logger.callHandlers = \
            lambda logger, record: self.records.append(record)
        return self

    def __exit__(self, *exc):
        import logging
        logging.Logger.callHandlers = self._call
        logging.disable(self._disable)

    def warnings(self):
        return [r.getMessage() for r in self.records if r.levelno >= 30]
