"""
What the checks share: cases, reports, exploration with all seams in place.
"""
import contextlib
import hashlib
import io
import os
import time
import traceback

from mc import seams
from mc.explore import Chooser, Divergence, Stats, explore, spread

MAX_VIOLATIONS = 12


class Stop(BaseException):
    pass


class HarnessError(Exception):
    pass


class TooMany(Exception):
    """A case that is too large: it is given up, and counted as such."""


DEADLINE = float(os.environ.get("MC_DEADLINE") or "inf")


def late():
    return time.time() > DEADLINE


class Report:
    """The result of one job."""

    def __init__(self, job, only=None):
        self.job = job
        self.only = only
        self.stats = Stats()
        self.n_cases = 0
        self.steps = 0
        self.real_traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.excused = 0
        self.fold = 0
        self.real = job["world"][0] == "real"
        self.t0 = time.time()

    # -- cases -------------------------------------------------------------------------------
    def cases(self, items):
        """items: (id, value) pairs.  Applies the shard of the job and the filter of a replay."""
        k, n = self.job.get("shard", (0, 1))
        for i, (cid, item) in enumerate(items):
            if i % n != k:
                continue
            if self.only is not None and cid != self.only:
                continue
            if len(self.violations) >= MAX_VIOLATIONS:
                return
            if late():
                self.stats.capped += 1
                self.note("out of time before %s" % cid)
                return
            self.n_cases += 1
            seams.reset()
            seams.reset_names()
            with self.guard(cid):
                yield cid, item

    @contextlib.contextmanager
    def guard(self, cid):
        yield

    def run(self, items, fn):
        """fn(cid, item) for each case; an unexpected exception is a violation."""
        for cid, item in self.cases(items):
            try:
                fn(cid, item)
            except (Stop,):
                pass
            except HarnessError:
                raise
            except TooMany as e:
                self.stats.capped += 1
                self.note("given up after %s: %s" % (e, cid))
            except Exception as e:
                self.violation(cid, "unexpected %s: %s" % (type(e).__name__, e),
                               trace=traceback.format_exc()[-1800:])

    # -- results -----------------------------------------------------------------------------
    def violation(self, cid, what, **data):
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append({
                "case": cid, "what": what, "key": "%s: %s" % (cid, what.split("\n")[0][:200]),
                "data": {k: repr(v)[:3000] if not isinstance(v, (str, int, list)) else v
                         for k, v in data.items()},
            })

    def require(self, cond, cid, what, **data):
        if not cond:
            self.violation(cid, what, **data)
        return cond

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: v if isinstance(v, (int, str, list, bool)) else repr(v)
                                 for k, v in kw.items()})

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- exploration -------------------------------------------------------------------------
    def explore(self, cid, body, check=None, deviations=None, max_execs=None, limit=4000,
                default=spread, stats=None, free_branches=True, seed=0):
        """
        Run `body()` under every path of choices (see explore.explore).

        An exception of the body is the outcome ('exc', exception) of that path, a normal return
        ('ok', value); `check(outcome, chooser)` judges it.
        """
        job_seed = int.from_bytes(hashlib.sha256(cid.encode()).digest()[:4], "big") + seed

        def prepare():
            seams.reset()
            seams.reset_names()

        def run(ch):
            with seams.use(ch), quiet():
                try:
                    return ("ok", body())
                except Exception as e:
                    return ("exc", e)

        def chk(res, ch):
            if self.real:
                self.real_traces += 1
            if check is not None:
                check(res, ch)

        st = Stats()
        explore(run, chk, deviations=deviations, default=default, seed=job_seed,
                max_execs=max_execs, limit=limit, stats=st, free_branches=free_branches,
                prepare=prepare)
        if st.capped:
            self.note("capped after %d executions: %s" % (st.executions, cid))
        self.stats.add(st)
        if stats is not None:
            stats.add(st)
        return st

    def dump(self):
        s = self.stats
        return {
            "job": self.job, "cases": self.n_cases, "executions": s.executions, "nodes": s.nodes,
            "choices": s.choices, "capped": s.capped, "path_limited": s.path_limited,
            "steps": self.steps, "real_traces": self.real_traces, "outcomes": self.outcomes,
            "samples": self.samples, "violations": self.violations, "notes": self.notes,
            "excused": self.excused, "wall": time.time() - self.t0,
        }


class _Null(io.StringIO):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    """The library prints; keep the output of a check to its verdict."""
    import sys

    old = sys.stdout
    sys.stdout = _Null()
    try:
        yield
    finally:
        sys.stdout = old


def shards(n, **job):
    """The same job, cut in n."""
    params = dict(job.get("params", {}))
    if params.pop("flagged", False):
        # verifiers whose statements are marked as to be simulated, which must not matter
        job = dict(job, params=params, flagged=True)
    return [dict(job, shard=(k, n)) for k in range(n)]


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from flatten(x[k])
    else:
        yield x


def has_infinite(W, precom):
    """Does a precommitment hold the neutral element (the exceptional draw of an inequality proof)?"""
    for x in flatten(precom):
        if hasattr(x, "is_infinite"):
            try:
                if x.is_infinite():
                    return True
            except Exception:
                pass
    return False
