"""
Special soundness and challenge generation.  For every statement of the enumerated programs with
every choice of public values, truth is decided by brute force over all secrets; then every challenge
and every response (right and wrong lengths, in and out of range) is given to the real verifier with
the only commitment it could match, and the accepted challenges are grouped by first message: a false
statement may have at most one.  True statements must have first messages with all challenges
answerable (so that the enumeration is not vacuous).
"""
import itertools

from mc import gen, seams, spec as S
from mc.explore import Chooser, Scripted, explore
from mc.gen import dl, fill, sid
from mc.harness import HarnessError, flatten, quiet, shards

ASSUMPTIONS = [
    "2^bits <= q, as 2^128 is below the order of the real groups",
    "rewinding argument: two answered challenges for one first message are what a cheating prover "
    "with success probability above 2^-bits needs",
]


def vec(W, spec_lhs, grp):
    return W.lin(spec_lhs, grp)


def truth(W, spec):
    """Brute force: is there an assignment of the variables that satisfies the statement?"""
    q, d = W.q, W.d
    vs = S.variables(spec)

    def point(terms):
        out = [0] * d
        for c, b in terms:
            for i, t in enumerate(W.base(b, 0).v):
                out[i] = (out[i] + c * t) % q
        return out

    def sat(n, a):
        if S.is_leaf(n):
            return point([(a[v], b) for v, b in n[1]]) == point(n[2])
        f = all if n[0] in ("and", "&") else any
        return f(sat(c, a) for c in n[1:])

    for vals in itertools.product(range(q), repeat=len(vs)):
        if sat(spec, dict(zip(vs, vals))):
            return True
    return False


def key(com):
    return tuple(x.export() if hasattr(x, "export") else repr(x) for x in flatten(com))


class Adversary:
    """Enumerates responses for a statement tree."""

    def __init__(self, W, nums, subs, malformed):
        self.W, self.nums, self.subs, self.malformed = W, nums, subs, malformed

    def leaf(self, s):
        n = len(s[1])
        for t in itertools.product(self.nums, repeat=n):
            yield list(t)
        if self.malformed:
            for m in {max(n - 1, 0), n + 1} - {n}:
                for t in itertools.product(self.nums[:2], repeat=m):
                    yield list(t)

    def responses(self, s, top=True):
        if S.is_leaf(s):
            yield from self.leaf(s)
            return
        kids = s[1:]
        k = len(kids)
        subs = [list(self.responses(c, False)) for c in kids]
        if s[0] in ("and", "&"):
            for t in itertools.product(*subs):
                yield list(t)
            if self.malformed:
                for t in itertools.product(*[x[:2] for x in subs]):
                    yield list(t[:-1])
                    yield list(t) + [t[-1]]
                yield []
        else:
            for cs in itertools.product(self.subs, repeat=k):
                for t in itertools.product(*subs):
                    yield (list(cs), list(t))
            if self.malformed:
                few = [x[:2] for x in subs]
                for kc, kr in itertools.product(range(k + 2), repeat=2):
                    if (kc, kr) == (k, k):
                        continue
                    for cs in itertools.product(self.malformed, repeat=kc):
                        for t in itertools.product(*(few + few)[:kr]):
                            yield (list(cs), list(t))


def to_bn(W, x):
    if isinstance(x, int):
        return W.bn(x)
    if isinstance(x, tuple):
        return tuple(to_bn(W, y) for y in x)
    return [to_bn(W, y) for y in x]


def judge(W, rep, cid, spec, adv, challenges, is_true, stop_at=2):
    V = S.Build(W, {v: 1 for v in S.variables(spec)}, ())
    st = V.stmt(spec)
    digest = st.prehash_statement().digest()
    answers = {}
    accepted = tried = rejected = malformed = 0
    for r in adv.responses(spec):
        rb = to_bn(W, r)
        for c in challenges:
            tried += 1
            try:
                com = st.recompute_commitment(W.bn(c), rb)
            except Exception:
                malformed += 1
                com = None
            try:
                verifier = st.get_verifier()
                with seams.use(Scripted([c])):
                    c2 = verifier.send_challenge((digest, com))
                ok = verifier.verify(rb) is True
            except Exception:
                ok = False
            if not ok:
                rejected += 1
                continue
            accepted += 1
            answers.setdefault(key(com), {})[int(c2)] = r
    rep.steps += tried
    rep.outcome("accepted", accepted)
    rep.outcome("rejected", rejected - malformed)
    rep.outcome("malformed rejected", malformed)
    if W.tiny:
        rep.outcome("statement true" if is_true else "statement false")
    else:
        rep.real_traces += tried
    most = max([len(a) for a in answers.values()] or [0])
    if not is_true:
        for k, a in answers.items():
            if len(a) > 1:
                rep.violation(cid, "a false statement can be proven: one first message answers the "
                              "challenges %s" % sorted(a), responses={c: a[c] for c in sorted(a)})
                break
    elif is_true and most < len(challenges) and adv.full:
        rep.violation(cid, "a true statement has no first message with all challenges answerable")
    rep.sample(case=cid, tried=tried, accepted=accepted, true=is_true)


def algebra(W, rep, what, malformed=True, out_of_range=True, lhs="all", mostly_false=0):
    q = W.q
    space = 1 << W.bits
    challenges = list(range(space))
    subs = list(range(space))
    if out_of_range:
        subs += [-1, -space, space, space + 1, q, q + 1, 2 * q, -q]
        subs = sorted(set(subs))
    adv = Adversary(W, list(range(q)), subs, [0, 1] if malformed else None)
    adv.full = True
    if malformed == 2:
        adv.malformed = list(range(space)) + [-1, q]
    bases = ["g", "h", "k"][:max(W.d, 2)] if W.d > 1 else ["g", "h"]

    def points():
        for t in itertools.product(range(q), repeat=W.d):
            yield tuple((c, b) for c, b in zip(t, bases))

    def few():
        yield ((0, "g"),)
        yield ((1, "g"),)
        yield ((1, "h"),)
        if lhs == "some":
            yield ((1, "g"), (1, "h"))

    def items():
        for s in PROGRAMS[what]():
            n = len(list(S.leaves(s)))
            for ls in itertools.product(list(points() if lhs == "all" else few()), repeat=n):
                it = iter(ls)

                def put(x):
                    if S.is_leaf(x):
                        return x[:2] + (next(it),) + x[3:]
                    return (x[0],) + tuple(put(c) for c in x[1:])

                yield None, put(s)

    def fn(cid, item):
        judge(W, rep, cid, item[0], adv, challenges, item[1])

    def chosen():
        trues = 0
        for _, s in items():
            t = truth(W, s)
            if t and mostly_false:
                # true statements serve as a sanity check only: keep some
                trues += 1
                if trues % mostly_false:
                    continue
            yield sid(s), (s, t)

    rep.run(chosen(), fn)


x1, y1, xh, yh = dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("y", "h"))
xy = dl(("x", "g"), ("y", "h"))
xx = dl(("x", "g"), ("x", "h"))
xz = dl(("x", "g"), ("z", "h"))

PROGRAMS = {
    "one": lambda: [x1, xy, xx, dl(("x", "g"), ("y", "g")), dl(("x", "g"), ("y", "h"), ("x", "h"))],
    "and2": lambda: [("and", x1, xh), ("and", x1, yh), ("and", x1, x1), ("and", xy, xh),
                     ("and", xy, xz), ("and", xx, x1), ("and", xy, dl(("y", "g"), ("x", "h")))],
    "or2": lambda: [("or", x1, yh), ("or", x1, xh), ("or", x1, x1)],
    "or2w": lambda: [("or", xx, yh), ("or", xy, yh)],
    "or3": lambda: [("or", x1, yh, dl(("z", "g"))), ("or", x1, ("or", yh, dl(("z", "g")))),
                    ("or", ("or", x1, yh), dl(("z", "g")))],
    "and3": lambda: [("and", x1, xh, dl(("x", "g"))), ("and", ("and", x1, xh), yh),
                     ("and", x1, ("and", yh, xh)), ("and", x1, yh, dl(("x", "h"), ("y", "g")))],
    "mix": lambda: [("and", ("or", x1, xh), yh), ("and", yh, ("or", x1, xh)),
                    ("or", ("and", x1, xh), yh), ("or", yh, ("and", x1, xh)),
                    ("or", ("and", x1, yh), dl(("z", "g")))],
    "mix4": lambda: [("and", ("or", x1, xh), ("or", yh, y1)), ("or", ("and", x1, xh), ("and", yh, y1)),
                     ("and", ("or", ("and", x1, xh), x1), y1)],
}


def real(W, rep):
    """The same enumeration on the real groups, with an alphabet of adversary numbers."""
    q = W.order()
    space = 1 << 128
    adv = Adversary(W, [0, 1], sorted({0, 1, 2, -1, space - 1, space, q, q - 1, -space}), [0, 1, q])
    adv.full = False
    challenges = [0, 1, space - 1]
    progs = [x1, xy, xx] + PROGRAMS["and2"]()[:3] + PROGRAMS["or2"]() + [PROGRAMS["mix"]()[0]]

    def items():
        for s in progs:
            n = [0]

            def put(x):
                # all leaves false
                if S.is_leaf(x):
                    n[0] += 1
                    return x[:2] + (((n[0], "k"), (1, "m")),) + x[3:]
                return (x[0],) + tuple(put(c) for c in x[1:])

            yield sid(put(s)), put(s)

    def fn(cid, s):
        judge(W, rep, cid, s, adv, challenges, False)

    rep.run(items(), fn)


def challenge(W, rep):
    """The challenge: uniform over the whole space, drawn after the first message."""
    bits = W.bits if W.tiny else 128
    leaf = {k: gen.ext_leaf(k, "a") for k in gen.EXT_KINDS}
    progs = [x1, xy, ("and", x1, xh), ("or", x1, yh), ("and", ("or", x1, xh), yh),
             ("or", ("and", x1, xh), yh)] + list(leaf.values()) + \
        [("and", l, dl(("z", "k"))) for l in leaf.values()] + \
        [("or", l, dl(("z", "k"))) for l in leaf.values()]
    T = {"x": 1, "y": 2, "z": 3, "ax": 2, "ar": 3, "sig": 1}

    def fn(cid, s):
        P = S.Build(W, T, T.keys())
        V = S.Build(W, T, ())
        ps, vs = P.stmt(s), V.stmt(s)
        with quiet(), seams.use(Scripted([2] * 200)):
            prover = ps.get_prover()
            pre = prover.precommit()
            com = prover.commit()

        def fresh():
            verifier = V.stmt(s).get_verifier()
            verifier.process_precommitment(pre)
            return verifier

        if W.tiny:
            dist = {}

            def run(ch):
                verifier = fresh()
                with seams.use(ch):
                    a = int(verifier.send_challenge(com))
                    b = int(verifier.send_challenge(com))
                return a, b

            def check(res, ch):
                dist[res] = dist.get(res, 0) + 1.0 / ch.weight_den()

            st = explore(run, check)
            rep.stats.add(st)
            n = 1 << bits
            want = {(a, b): 1.0 / (n * n) for a in range(n) for b in range(n)}
            ok = set(dist) == set(want) and all(abs(dist[k] - want[k]) < 1e-12 for k in want)
            rep.require(ok, cid, "challenges are not uniform and independent", dist=dist)
        else:
            seen = set()
            for v in list(range(3)) + [(1 << bits) - 1, 1 << (bits - 1), 1 << 64, (1 << 64) + 1]:
                rec = Scripted([v])
                verifier = fresh()
                with seams.use(rec):
                    c = int(verifier.send_challenge(com))
                rep.real_traces += 1
                ent = 1
                for n in rec.asked:
                    ent *= n
                rep.require(ent >= 1 << bits, cid, "the challenge is drawn from a space of %d only"
                            % ent)
                rep.require(0 <= c < 1 << bits, cid, "challenge out of range", c=c)
                rep.require(c not in seen, cid, "different draws give the same challenge")
                seen.add(c)
        rep.outcome("challenge ok")

    rep.run(((sid(s), s) for s in progs), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t3 = ["tiny", dict(q=3, d=2, bits=1)]
    t2 = ["tiny", dict(q=2, d=2, bits=1)]
    t5 = ["tiny", dict(q=5, d=2, bits=2)]
    real_ = ["real", {}]
    add(real_, "real", 4)
    add(real_, "challenge", 4)
    add(["tiny", dict(q=5, d=1, bits=2)], "challenge", 2)
    add(t3, "algebra", what="one")
    add(t5, "algebra", 2, what="one")
    add(t3, "algebra", 4, what="and2")
    add(t3, "algebra", 2, what="and2", lhs="few", flagged=True)
    add(t2, "algebra", 2, what="or2", malformed=2, flagged=True)
    add(t2, "algebra", 4, what="mix", lhs="few", malformed=False, mostly_false=3, flagged=True)
    add(t3, "algebra", 4, what="or2", lhs="all", mostly_false=4)
    add(t2, "algebra", 2, what="or2", malformed=2)
    add(t5, "algebra", 4, what="or2", lhs="some", malformed=False, mostly_false=4)
    add(t2, "algebra", 4, what="or2w", lhs="some", mostly_false=4)
    add(t3, "algebra", 4, what="or3", lhs="some", malformed=False, out_of_range=False,
        mostly_false=15)
    add(t2, "algebra", 4, what="or3", lhs="some", malformed=False, mostly_false=15)
    add(t2, "algebra", 4, what="or3", lhs="few", out_of_range=False, mostly_false=15)
    add(t3, "algebra", 4, what="and3", lhs="few")
    add(t2, "algebra", 4, what="mix", lhs="some", malformed=False, mostly_false=3)
    add(t3, "algebra", 4, what="mix", lhs="some", malformed=False, out_of_range=False,
        mostly_false=3)
    if tier == "thorough":
        add(t3, "algebra", 16, what="or2", lhs="all", malformed=2)
        add(t3, "algebra", 16, what="or3", lhs="few")
        add(t2, "algebra", 16, what="mix4", lhs="few", malformed=False, out_of_range=False)
        add(t3, "algebra", 16, what="mix", lhs="some")
        add(t5, "algebra", 16, what="or2w", lhs="some", malformed=False)
        add(t5, "algebra", 8, what="and2", lhs="some")
    return out
