"""
Stateless exhaustive exploration of a program that draws its nondeterminism from `choose`.

`explore(run, ...)` calls `run(chooser)` once per path of the choice tree (depth-first, by replaying
a prefix).  Three kinds of choice points exist:

* small ones (at most SMALL alternatives): enumerated, completely, or within a bound on the number
  of deviations from a fixed default answer (iterative context bounding, for the larger trees);
* numbers of many more bits than any order, where the exact distribution of something modulo the orders
  is asked for (fold): enumerated modulo `fold`, a common multiple of the orders;
* other large ones (the real group order, a 128-bit challenge): answered by a fixed pseudo-random
  function of the position, i.e. part of the fixed environment, never enumerated.

A replayed prefix must meet the same choice points again; anything else is a Divergence, which is a
hard error of the harness.
"""
import hashlib
import os

SMALL = 64
SALT = os.environ.get("MC_SALT", "").encode()


class Divergence(BaseException):
    pass


class PathLimit(BaseException):
    """A single execution asked for more choices than the horizon allows."""


class Chooser:
    __slots__ = ("prefix", "points", "pos", "large", "seed", "limit", "weights", "free", "default",
                 "fold")

    def __init__(self, prefix=(), seed=0, limit=4000, default=None, fold=0):
        self.fold = fold
        self.prefix = prefix
        self.points = []  # (n, taken, default, kind)
        self.pos = 0
        self.large = 0
        self.seed = seed
        self.limit = limit
        self.default = default

    def choose(self, n, kind="num"):
        """A number in range(n)."""
        n = int(n)
        if n <= 0:
            raise ValueError("empty choice")
        if n == 1:
            return 0
        if n > SMALL and self.fold and n >= self.fold << 40:
            return n // 3 // self.fold * self.fold + self.choose(self.fold, kind)
        if n > SMALL:
            self.large += 1
            d = hashlib.sha512(b"%d|%d|%d" % (self.seed, self.large, n) + SALT).digest()
            d += hashlib.sha512(d).digest()
            return int.from_bytes(d, "big") % n
        i = self.pos
        self.pos += 1
        if i >= self.limit:
            raise PathLimit()
        dflt = self._default(i, n, kind)
        if i < len(self.prefix):
            pn, taken = self.prefix[i]
            if pn != n:
                raise Divergence("choice %d had %d alternatives, now %d" % (i, pn, n))
        else:
            taken = dflt
        self.points.append((n, taken, dflt, kind))
        return taken

    def _default(self, i, n, kind):
        if kind == "branch":
            return 0
        if self.default is None:
            return 0
        return self.default(i, n)

    @property
    def path(self):
        return [(n, t) for n, t, _, _ in self.points]

    def weight_den(self):
        w = 1
        for n, _, _, _ in self.points:
            w *= n
        return w


def spread(i, n):
    """A default answer that is not constant (a constant one makes nonces collide with zero)."""
    return (5 * i + i // 3 + 2) % n


class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0  # distinct nodes of the choice trees
        self.choices = 0
        self.capped = 0
        self.path_limited = 0

    def add(self, o):
        self.executions += o.executions
        self.nodes += o.nodes
        self.choices += o.choices
        self.capped += o.capped
        self.path_limited += o.path_limited


def explore(run, check=None, deviations=None, default=None, seed=0, max_execs=None, limit=4000,
            stats=None, free_branches=True, prepare=None, free_small=0, fold=0):
    """
    Run `run(chooser)` on every path.

    deviations=None: the whole tree.  Otherwise: every path with at most that many answers different
    from the default; with free_branches, the choice of an or-branch ("branch" points) costs
    nothing, so those are always enumerated completely.

    `check(result, chooser)` is called on every complete execution.
    Returns Stats.
    """
    st = stats if stats is not None else Stats()
    stack = [((), 0)]
    n_here = 0
    while stack:
        prefix, used = stack.pop()
        if max_execs is not None and n_here >= max_execs:
            st.capped += 1
            break
        ch = Chooser(prefix, seed=seed, limit=limit, default=default, fold=fold)
        if prepare is not None:
            prepare()
        try:
            res = run(ch)
        except PathLimit:
            st.path_limited += 1
            res = None
            limited = True
        else:
            limited = False
        n_here += 1
        st.executions += 1
        st.choices += len(ch.points)
        st.nodes += len(ch.points) - len(prefix) + 1
        if not limited and len(ch.points) < len(prefix):
            raise Divergence("execution ended before its prefix did")
        if check is not None and not limited:
            check(res, ch)
        # branch off alternatives after the prefix
        pts = ch.points
        base = [(n, t) for n, t, _, _ in pts]
        for i in range(len(pts) - 1, len(prefix) - 1, -1):
            n, t, d, kind = pts[i]
            cost = 0 if ((kind == "branch" and free_branches) or
                                                    n <= free_small) else 1
            if deviations is not None and used + cost > deviations:
                continue
            for alt in range(n - 1, -1, -1):
                if alt != t:
                    stack.append((tuple(base[:i]) + ((n, alt),), used + cost))
    return st


class Scripted:
    """Answers draws from a list, whatever their size; 0 when it is used up."""

    def __init__(self, values):
        self.values = list(values)
        self.asked = []
        self.points = []

    def choose(self, n, kind="num"):
        n = int(n)
        i = len(self.asked)
        self.asked.append(n)
        return self.values[i] % n if i < len(self.values) else 0
