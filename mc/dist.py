"""Exact distributions of what an observer sees, by enumerating every random choice."""
from fractions import Fraction

from mc import seams, spec as S
from mc.explore import explore
from mc.harness import HarnessError, TooMany, late, quiet


def key(x):
    """A hashable, comparable picture of a nested message."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, (list, tuple)):
        return tuple(key(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, key(x[k])) for k in sorted(x))
    if type(x).__name__ == "Bn":
        return int(x)
    if hasattr(x, "export"):
        return x.export()
    raise HarnessError("no picture of %r" % (x,))


def distribution(rep, body, limit=400000):
    """{outcome: probability} of body() over all random choices; an exception is an outcome."""
    dist = {}

    def prepare():
        seams.reset()
        seams.reset_names()

    def run(ch):
        with seams.use(ch), quiet():
            try:
                return body()
            except Exception as e:
                return ("exception", type(e).__name__, str(e)[:80])

    def check(res, ch):
        if ch.large:
            raise HarnessError("a draw that is too large to enumerate")
        if late():
            raise TooMany("the time is over")
        dist[res] = dist.get(res, 0) + Fraction(1, ch.weight_den())

    st = explore(run, check, prepare=prepare, max_execs=limit, fold=rep.fold)
    if st.capped:
        raise TooMany("more than %d executions" % limit)
    rep.stats.add(st)
    if sum(dist.values()) != 1:
        raise HarnessError("probabilities sum to %s" % sum(dist.values()))
    return dist


def difference(a, b, n=2):
    """A short description of how two distributions differ, or None."""
    out = []
    for k in set(a) | set(b):
        if a.get(k, 0) != b.get(k, 0):
            out.append((repr(k)[:200], str(a.get(k, 0)), str(b.get(k, 0))))
    if not out:
        return None
    out.sort()
    return "%d of %d outcomes differ, e.g. %s" % (len(out), len(set(a) | set(b)), out[:n])


def interactive(W, build, challenge):
    """One interactive run of a prover with the given challenge: what an observer sees."""
    st = build()
    prover = st.get_prover()
    pre = prover.precommit()
    digest, com = prover.commit()
    resp = prover.compute_response(W.bn(challenge))
    return key(pre), key(com), key(resp), digest


def simulated(W, build, challenge):
    st = build()
    tr = st.simulate(challenge=None if challenge is None else W.bn(challenge))
    return key(tr.precommitment), key(tr.commitment), key(tr.responses), tr.stmt_hash, \
        key(tr.challenge)
