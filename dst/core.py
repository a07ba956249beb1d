"""Cases, violations, batches, minimisation, evidence."""

import collections
import copy
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import boot


class Violation(Exception):
    """The property is broken. ``key`` names the class of violation."""

    def __init__(self, key, message, **detail):
        super().__init__(f"{key}: {message}")
        self.key = key
        self.message = message
        self.detail = detail


class Ctx:
    """What one run did; merged into the evidence."""

    def __init__(self):
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.steps = 0
        self.digest = hashlib.sha256()
        self.trivial = False
        self.trace = []
        self.verbose = False

    def probe(self, name, n=1):
        self.counts[name] += n

    def fault(self, kind):
        self.faults[kind] += 1

    def log(self, *items):
        """Append to the event log (deterministic content only)."""
        line = " ".join(str(i) for i in items)
        self.digest.update(line.encode())
        self.digest.update(b"\n")
        if self.verbose:
            self.trace.append(line)

    def state(self, key):
        self.states.add(zlib_crc(key))


def zlib_crc(key):
    import zlib
    return zlib.crc32(repr(key).encode())


def case_rng(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


def run_case(mod, case, verbose=False):
    """Run one case. Returns (violation or None, ctx)."""
    ctx = Ctx()
    ctx.verbose = verbose
    from . import seams
    seams.seed_entropy(case.get("entropy", 0))
    try:
        mod.run(case, ctx)
    except Violation as v:
        return v, ctx
    except (MemoryError, OSError, ImportError, HarnessError):
        raise
    except Exception as e:
        # No operation of a run may fail but where its check expects it to.
        return unexpected(e), ctx
    return None, ctx


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


def unexpected(e):
    """The violation which an exception that nothing expected stands for."""
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if f"{os.sep}pygsp{os.sep}" in f.filename]
    text = "".join(traceback.format_exception(e)).strip()
    if inside:
        key = f"unexpected-{type(e).__name__}-in-{inside[-1].name}"
    else:
        # What the code under test returned cannot be interpreted.
        key = f"unusable-result-{type(e).__name__}"
    return Violation(key, f"{e}", traceback=text[-3000:])


def _result(v, ctx, i, case):
    r = dict(i=i, counts=dict(ctx.counts), faults=dict(ctx.faults),
             states=sorted(ctx.states), steps=ctx.steps,
             digest=ctx.digest.hexdigest()[:16], trivial=ctx.trivial)
    if v is not None:
        r["violation"] = dict(key=v.key, message=v.message,
                              detail=jsonable(v.detail))
        r["case"] = case
    return r


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Child:
    """A forked process running a list of (index, case) in order."""

    def __init__(self, mod, items, stop_on_violation=True, verbose=False):
        self.items = items
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                out = os.fdopen(w, "w")
                for i, case in items:
                    if callable(case):
                        case = case()
                    try:
                        v, ctx = run_case(mod, case, verbose)
                        res = _result(v, ctx, i, case)
                        if verbose:
                            res["trace"] = ctx.trace
                    except BaseException:
                        res = dict(i=i, error=traceback.format_exc(),
                                   case=case)
                    out.write(json.dumps(res) + "\n")
                    out.flush()
                    if "error" in res or (stop_on_violation and
                                          "violation" in res):
                        break
                out.close()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.results = []
        self.last = time.monotonic()
        self.eof = False
        self.killed = False

    def pump(self):
        data = os.read(self.fd, 1 << 20)
        if not data:
            self.eof = True
            os.close(self.fd)
            _, status = os.waitpid(self.pid, 0)
            self.status = status
            return []
        self.last = time.monotonic()
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        new = [json.loads(line) for line in lines]
        self.results += new
        return new

    def died(self):
        """The result of the case that ended the process, if one did."""
        if not os.WIFSIGNALED(self.status):
            return None
        n = os.WTERMSIG(self.status)
        if n in (signal.SIGKILL, signal.SIGTERM) or \
                len(self.results) >= len(self.items):
            return None
        name = signal.Signals(n).name
        return self.lost(f"process-died-{name}", f"{name} ended the process")

    def lost(self, key, message):
        i, case = self.items[len(self.results)]
        if callable(case):
            case = case()
        res = _result(Violation(key, message), Ctx(), i, case)
        self.results.append(res)
        return res

    def kill(self):
        self.killed = True
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


STALL = 180  # seconds without any result before a child is killed


def pool(mod, batches, workers, on_result, deadline=None, verbose=False,
         stop=lambda: False, stop_on_violation=True):
    """Run batches in forked children, at most ``workers`` at a time."""
    batches = iter(batches)
    live = []
    errors = []
    exhausted = False
    while True:
        while len(live) < workers and not exhausted and not stop():
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                break
            try:
                items = next(batches)
            except StopIteration:
                exhausted = True
                break
            live.append(Child(mod, items, stop_on_violation, verbose))
        if not live:
            break
        ready, _, _ = select.select([c.fd for c in live], [], [], 1.0)
        for c in list(live):
            if c.fd in ready:
                for res in c.pump():
                    on_result(res, c)
                if c.eof:
                    live.remove(c)
                    if c.status != 0 and not c.killed:
                        res = c.died()
                        if res is not None:
                            on_result(res, c)
                            continue
                        errors.append(f"child ended with status {c.status} "
                                      f"after {len(c.results)} cases of "
                                      f"{[i for i, _ in c.items][:1]}...")
            elif time.monotonic() - c.last > STALL:
                c.kill()
                on_result(c.lost("no-progress", f"no result after {STALL} s"),
                          c)
        if stop():
            for c in live:
                c.kill()
    return errors


def evaluate(mod, prefix_case_list, timeout=STALL):
    """Run a list of cases in one fresh child; result of the last, or None."""
    c = Child(mod, list(enumerate(prefix_case_list)), stop_on_violation=False)
    t0 = time.monotonic()
    while not c.eof:
        ready, _, _ = select.select([c.fd], [], [], 1.0)
        if ready:
            c.pump()
        elif time.monotonic() - t0 > timeout and not c.killed:
            c.kill()
            c.lost("no-progress", f"no result after {timeout} s")
    if c.status != 0 and not c.killed:
        c.died()
    if len(c.results) == len(prefix_case_list):
        return c.results[-1]
    return None


def evaluate_many(mod, lists, workers):
    """Results of several lists of cases, each in its own child."""
    out = [None] * len(lists)

    def batches():
        for k, cases in enumerate(lists):
            yield [((k, j), case) for j, case in enumerate(cases)]

    def on_result(res, c):
        k, j = res["i"]
        if j == len(lists[k]) - 1:
            out[k] = res

    pool(mod, batches(), workers, on_result, stop_on_violation=False)
    return out


# --------------------------------------------------------------- minimisation

def default_shrinks(case):
    """Smaller variants of a case: fewer list items, smaller numbers."""
    lists = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                walk(x[k], path + [k])
        elif isinstance(x, list):
            lists.append(path)
            for k, y in enumerate(x):
                walk(y, path + [k])

    walk(case, [])

    def get(c, path):
        for p in path:
            c = c[p]
        return c

    for path in sorted(lists, key=len):
        n = len(get(case, path))
        if not path or path[-1] not in SHRINK_LISTS:
            continue
        size = n // 2
        while size >= 1:
            for start in range(0, n, size):
                c = copy.deepcopy(case)
                del get(c, path)[start:start + size]
                yield c
            size //= 2


SHRINK_LISTS = {"ops", "preempt", "faults", "threads", "signals", "calls",
                "before"}


def shrink(mod, prefix, case, key, workers, seconds):
    deadline = time.monotonic() + seconds
    if key == "no-progress":
        return prefix, case
    shrinks = getattr(mod, "shrinks", default_shrinks)

    def fails(res):
        return res is not None and res.get("violation", {}).get("key") == key

    tried = set()
    # Earlier cases of the same process, when they matter.
    while prefix and time.monotonic() < deadline:
        cands, size = [], max(1, len(prefix) // 2)
        while size >= 1:
            for s in range(0, len(prefix), size):
                cands.append(prefix[:s] + prefix[s + size:])
            size //= 2
        for k in range(0, len(cands), workers):
            part = cands[k:k + workers]
            res = evaluate_many(mod, [p + [case] for p in part], workers)
            good = [p for p, r in zip(part, res) if fails(r)]
            if good:
                prefix = good[0]
                break
            if time.monotonic() > deadline:
                break
        else:
            break
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        part = []

        def flush(part):
            res = evaluate_many(mod, [prefix + [c] for c in part], workers)
            for c, r in zip(part, res):
                if fails(r):
                    return c
            return None

        for cand in shrinks(case):
            text = json.dumps(cand, sort_keys=True)
            if text in tried:
                continue
            tried.add(text)
            part.append(cand)
            if len(part) == workers:
                good = flush(part)
                part = []
                if good is not None:
                    case, progress = good, True
                    break
                if time.monotonic() > deadline:
                    break
        if part and not progress:
            good = flush(part)
            if good is not None:
                case, progress = good, True
    return prefix, case
