"""
Randomness.  (1) histories: over tiny groups, for every path of random choices of a first run (or a first
half of a run, a simulation, another statement with the same secrets), all random choices of a second
run are enumerated: what an observer sees of the second run must have exactly the distribution that it
has alone, so nothing is shared between runs.  Runs of one prover object, one statement object, the same
Secret objects, and mixtures with simulations.  (2) within a run: for every challenge the responses and
subchallenges are exactly uniform over as many independent coordinates as the statement has independent
secrets and free subchallenges.  (3) verifiers' challenges, numbers drawn by the helpers, blinding
factors, signatures and keys: exactly uniform over the whole range, and independent in pairs.  (4) on the
real libraries: all nonces of many runs recovered, pairwise different and spread over the whole range,
also in processes of their own whose pseudo-random generators are seeded alike.
"""
import itertools
import json
import os
import subprocess
import sys
from fractions import Fraction

from mc import gen, seams, spec as S
from mc.checks.p01 import mark
from mc.dist import difference, distribution, key
from mc.explore import Chooser, Scripted, explore, spread
from mc.gen import dl, sid
from mc.harness import HarnessError, flatten, quiet, shards

ASSUMPTIONS = ["randomness is drawn through Bn.random or the random sources of Python (all of them are "
               "replaced by the explorer); the numbers drawn by the replaced sources are taken to be "
               "uniform"]

T = {"x": 1, "y": 2, "z": 1, "u": 2, "ax": 1, "ar": 1, "bx": 0, "br": 1, "sig": 1}


def specs(which):
    x, y, xh, yh, z = (dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("y", "h")),
                       dl(("z", "h")))
    if which == "leaf":
        return [x, dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h"))]
    if which == "two":
        return [("and", x, yh), ("and", x, xh), ("and", x, x), ("or", x, yh), ("or", x, x)]
    if which == "three":
        return [("and", x, yh, xh), ("and", ("and", x, xh), yh), ("or", x, yh, z),
                ("or", ("and", x, xh), yh), ("and", ("or", x, yh), z), ("and", z, ("or", x, xh)),
                ("or", ("or", x, yh), z)]
    if which == "four":
        return [("and", ("or", x, xh), ("or", yh, z)), ("or", ("and", x, yh), ("and", yh, z)),
                ("and", ("or", x, x), ("or", yh, yh)), ("or", x, yh, z, y)]
    if which == "groups":
        y2, u1, u2 = dl(("y", "g"), grp=2), dl(("u", "g"), grp="G1"), dl(("u", "g"), grp="G2")
        return [("and", x, y2), ("and", y2, x), ("and", u1, x), ("and", x, u1, u2), ("or", x, y2),
                ("or", y2, x), ("and", ("and", x, y2), xh), ("and", y2, ("and", x, y2))]
    if which in gen.EXT_KINDS or which == "p1":
        E = gen.ext_leaf(which, "a")
        if E[0] == "ne":
            E = E[:4] + (0,) + E[5:]
        if which == "bb":
            return [("bb", ("ax",))]
        if which == "rg":
            return [("rg", "ax", "ar", 1, 2, 0)]
        if which == "p2":
            return [E]
        more = [("and", E, E), ("or", E, z), ("or", z, E)]
        if which in ("ne", "neb", "eg"):
            more += [("and", E, dl(("ax", "h")))]
        return [E] + more
    raise ValueError(which)


def coordinates(s):
    """(linked secrets, other response coordinates, free subchallenges) of a statement."""
    t = s[0]
    if t == "sim":
        return coordinates(s[1])
    if t == "dl":
        return {(v, S.ORDER_CLASS[s[3]]) for v, _ in s[1]}, 0, 0
    if t == "ne":
        return ({(s[1], 0)} if s[5] else set()), 2, 0
    if t == "p2":
        return set(), 2 * s[3], s[3]
    if t == "rg":
        n = max(1, (s[4] - s[3] - 1).bit_length())
        return {(s[1], 0), (s[2], 0)}, 4 * n, 2 * n
    if t == "bb":
        return {(v, 3) for v in s[1]}, 6, 0
    if t == "eg":
        return {(s[1], 0), (s[2], 0)}, 0, 0
    cs = [coordinates(c) for c in s[1:]]
    if t == "and":
        return set().union(*(c[0] for c in cs)), sum(c[1] for c in cs), sum(c[2] for c in cs)
    # every branch has its own
    links = [(i,) + l for i, c in enumerate(cs) for l in c[0]]
    return set(links), sum(c[1] for c in cs), sum(c[2] for c in cs) + len(cs) - 1


def sufficient(s):
    """The witnesses to use: everything, and for disjunctions every single branch."""
    vs = S.variables(s)
    out = [tuple(vs)]
    for n in S.nodes(s):
        if n[0] == "or":
            for b in n[1:]:
                k = tuple(v for v in vs if v in S.variables(b) or
                          v in [u for m in S.nodes(s) if m[0] == "and"
                                for c in m[1:] if n not in S.nodes(c) for u in S.variables(c)])
                if S.provable(s, k) and k not in out:
                    out.append(k)
    return out


class Party:
    """A prover's objects; statements with equal specs share Secret objects, not statement objects."""

    def __init__(self, W, known, share=False):
        self.W, self.known = W, known
        self.B = S.Build(W, T, known, share_leaves=share)
        self._st = {}
        self._pr = {}

    def stmt(self, s, fresh=False):
        if fresh or s not in self._st:
            self._st[s] = self.B.stmt(mark(s, set(self.known)))
        return self._st[s]

    def prover(self, s, how):
        if how == "prover" and s in self._pr:
            return self._pr[s]
        self._pr[s] = self.stmt(s, fresh=how == "secrets").get_prover()
        return self._pr[s]

    def run(self, s, c, how):
        W = self.W
        if how.startswith("nizk"):
            z = self.prover(s, how[5:]).get_nizk_proof("m%d" % c)
            return key(z.precommitment), key(z.challenge), key(z.responses), z.stmt_hash
        if how == "prove":
            z = self.stmt(s).prove(message="m%d" % c)
            return key(z.precommitment), key(z.challenge), key(z.responses), z.stmt_hash
        if how == "simulate":
            tr = self.stmt(s).simulate(challenge=W.bn(c))
            return key(tr.precommitment), key(tr.commitment), key(tr.responses), tr.stmt_hash
        p = self.prover(s, how.replace("abandoned-", "").replace("half-", "").replace("again-", ""))
        # without precommitments the round can be left out
        pre = None if how.startswith("again") else p.precommit()
        if how.startswith("half"):
            return (key(pre),)
        digest, com = p.commit()
        if how.startswith("abandoned"):
            return key(pre), key(com), digest
        return key(pre), key(com), key(p.compute_response(W.bn(c))), digest


# what comes first, and what comes then
MODES = [("prover", "prover"), ("statement", "statement"), ("secrets", "secrets"),
         ("nizk-prover", "nizk-prover"), ("prove", "prove"), ("nizk-prover", "prover"),
         ("simulate", "simulate"), ("simulate", "statement"), ("statement", "simulate"),
         ("prove", "simulate"), ("abandoned-prover", "prover"), ("half-prover", "prover"),
         ("abandoned-prover", "nizk-prover"), ("prover", "again-prover"),
         ("abandoned-prover", "again-prover"), ("nizk-prover", "again-prover"),
         ("again-prover", "again-prover"), ("again-prover", "prover"),
         ("again-prover", "nizk-prover")]


def plain(s):
    return all(l[0] == "dl" for l in S.leaves(s))


def paths(rep, body, deviations, limit):
    """Answers to all random choices of body(), in every way with so many deviations."""
    out = []

    def run(ch):
        with seams.use(ch), quiet():
            try:
                body()
            except Exception as e:
                return e
        return None

    def check(res, ch):
        if ch.large:
            raise HarnessError("a draw that is too large to enumerate")
        out.append([t for _, t, _, _ in ch.points])

    def prepare():
        seams.reset()
        seams.reset_names()

    explore(run, check, deviations=deviations, default=spread, prepare=prepare, fold=rep.fold,
            max_execs=limit if deviations is None else None)
    if len(out) > limit:
        # a fixed selection, evenly spread
        out = [out[i * len(out) // limit] for i in range(limit)]
    return out


def histories(W, rep, which, limit=8, modes=None, pairs="same"):
    top = (1 << W.bits) - 1

    def items():
        ss = specs(which)
        for s in ss:
            seconds = [s] if pairs == "same" else [u for u in ss if u != s]
            for u in seconds:
                for known in sufficient(("and", s, u))[:1] if u != s else sufficient(s):
                    for m in MODES:
                        if modes and m[0] not in modes:
                            continue
                        if "again-prover" in m and not plain(s):
                            continue
                        if u != s and m[0] not in ("statement", "simulate", "prove"):
                            continue
                        for share in (False, True) if u != s else (False,):
                            yield "%s %s then %s %s (%s known%s)" % (
                                m[0], sid(s), m[1], sid(u), "".join(known),
                                ", same objects" if share else ""), (s, u, known, m, share)

    refs = {}

    def fn(cid, item):
        s, u, known, (m1, m2), share = item
        mk = lambda: Party(W, known, share)
        rk = (u, known, m2.replace("nizk-prover", "prove"), share)
        # alone: on a statement object and a prover of its own
        alone = {"prover": "statement", "again-prover": "statement", "nizk-prover": "prove"}.get(m2, m2)
        if rk not in refs:
            refs[rk] = distribution(rep, lambda: mk().run(u, top, alone))
            bad = [k for k in refs[rk] if k[0] == "exception"]
            if bad:
                return rep.violation(cid, "a first run fails: %r" % (bad[0],))
        ref = refs[rk]
        ps = paths(rep, lambda: mk().run(s, 1, m1), 1, limit)
        for p in ps:
            def body():
                party = mk()
                with seams.use(Scripted(p)):
                    party.run(s, 1, m1)
                return party.run(u, top, m2)

            d = difference(distribution(rep, body), ref)
            rep.steps += len(ref)
            if d:
                return rep.violation(cid, "the second run depends on the first one: %s" % d, path=p)
            rep.outcome("independent")

    rep.run(items(), fn)


def coords(W, rep, which):
    """Within one run."""
    q, space = W.q, 1 << W.bits

    def items():
        for s in specs(which):
            for known in sufficient(s):
                for c in sorted({0, 1, space - 1}):
                    for share in (False, True):
                        yield "coordinates %s challenge %d %s known%s" % (
                            sid(s), c, "".join(known), " shared" if share else ""), (s, known, c, share)

    def fn(cid, item):
        s, known, c, share = item
        for how in ("statement", "simulate"):
            d = distribution(rep, lambda: Party(W, known, share).run(s, c, how)[2])
            links, other, chals = coordinates(s)
            orders = q ** other * space ** chals
            for l in links:
                orders *= W.order({0: 0, 2: 2, 3: "G1"}[l[-1]])
            sizes = set(d.values())
            rep.steps += len(d)
            if not rep.require(len(d) == orders and sizes == {Fraction(1, orders)}, cid,
                               "responses (%s): %d values with probabilities %s instead of %d equally "
                               "likely ones" % (how, len(d), sorted(map(str, sizes))[:4], orders)):
                return
            rep.outcome("uniform")

    rep.run(items(), fn)


def count_auxiliary(W, s, zero=True):
    """How many values the auxiliary commitments of a statement have, all of them equally likely."""
    t = s[0]
    if t == "ne":
        return W.q if zero else W.q - 1
    if t == "p2":
        return W.q ** s[3]
    if t == "rg":
        return W.q ** (2 * max(1, (s[4] - s[3] - 1).bit_length()))
    if t == "bb":
        return W.order("G1") ** 2
    if S.is_leaf(s):
        return 1
    out = 1
    for c in s[1:]:
        out *= count_auxiliary(W, c, zero)
    return out


def auxiliary(W, rep, kinds):
    """Auxiliary commitments: each randomized on its own."""
    def items():
        z = dl(("z", "h"))
        for k in kinds:
            if k == "bb":
                E = ("bb", ("ax",))
                ss = [E, ("and", E, z)]
            elif k == "rg":
                ss = [("rg", "ax", "ar", 1, 2, 0)] + [("rg", "ax", "ar", 0, 3, 0)] * (W.q == 2)
            elif k == "p2":
                ss = [("p2", "ax", "ar", n, 0) for n in range(1, {2: 4, 3: 3}.get(W.q, 2))]
            else:
                E, F = (e[:4] + (v,) + e[5:] for v, e in (
                    (0, gen.ext_leaf(k, "a")), (2, gen.ext_leaf(k, "b"))))
                ss = [E, ("and", E, E), ("and", E, F), ("or", E, z), ("or", E, F), ("or", E, E),
                      ("and", E, ("or", E, z))]
                if W.q == 5:
                    ss = ss[:3]
                if k == "neb":
                    ss.append(("and", E, dl(("ax", "h"))))
            for s in ss:
                for known in sufficient(s):
                    for share in (False, True):
                        yield "auxiliary %s %s known%s" % (
                            sid(s), "".join(known), " shared" if share else ""), (s, known, share)

    def fn(cid, item):
        s, known, share = item
        if share and len(set(S.leaves(s))) < len(list(S.leaves(s))):
            # one statement object in several places
            return

        d = distribution(rep, lambda: key(Party(W, known, share).prover(s, "statement").precommit()))
        n = count_auxiliary(W, s)
        if len(d) < n:
            # a blinding factor of zero can be excluded
            n = count_auxiliary(W, s, False)
        sizes = set(d.values())
        rep.steps += len(d)
        if rep.require(len(d) == n and sizes == {Fraction(1, n)}, cid,
                       "auxiliary commitments: %d values with probabilities %s instead of %d equally "
                       "likely ones" % (len(d), sorted(map(str, sizes))[:4], n)):
            rep.outcome("uniform")

    rep.run(items(), fn)


def uniform(rep, cid, dist, values, what, except_=()):
    vals = list(values)
    want = {v: Fraction(1, len(vals)) for v in vals}
    for e in except_:
        want.pop(e, None)
    got = {k: v for k, v in dist.items() if not (isinstance(k, tuple) and k and k[0] == "exception")}
    rest = 1 - sum(got.values())
    d = difference(got, want)
    rep.steps += len(dist)
    if rest > Fraction(len([e for e in except_ if e in vals]), len(vals)):
        return rep.violation(cid, "%s: exceptions %s" % (what, [k for k in dist if k not in got][:2]))
    if rep.require(d is None, cid, "%s: not uniform: %s" % (what, d)):
        rep.outcome("uniform")


def draws(W, rep):
    """Challenges, numbers, blinding factors, keys."""
    q, space = W.q, 1 << W.bits
    z = W.z

    def items():
        yield "numbers", numbers
        yield "keys", keys
        yield "signatures", signatures
        yield "blinding", blinding
        yield "range-only", only
        for s in specs("leaf") + specs("two") + specs("three") + specs("ne")[:2] + specs("p1")[:1] + \
                specs("eg"):
            yield "challenges of %s" % sid(s), (lambda cid, s=s: challenges(cid, s))

    def numbers(cid):
        from zksk.utils import get_random_num

        for bits in range(1, 6):
            uniform(rep, cid, distribution(rep, lambda: int(get_random_num(bits))), range(1 << bits),
                    "%d bits" % bits)
            uniform(rep, cid, distribution(rep, lambda: (int(get_random_num(bits=bits)),
                                                         int(get_random_num(bits)))),
                    itertools.product(range(1 << bits), repeat=2), "pairs of %d bits" % bits)

    def keys(cid):
        G2 = W.bp.G2
        n = int(G2.order())
        table = {(k * G2.generator()).export(): k for k in range(n)}

        def one():
            kp = W.bbs.BBSPlusKeypair.generate(W.bp, 2)
            return table[kp.pk.w.export()]

        uniform(rep, cid, distribution(rep, one), range(n), "secret key")
        uniform(rep, cid, distribution(rep, lambda: (one(), one())),
                itertools.product(range(n), repeat=2), "two secret keys")

    def fixture():
        return S.bbs_keypair(W, 3)

    def signatures(cid):
        kp = fixture()
        n = int(W.bp.G1.order())
        lhs = W.bn(1) * kp.pk.generators[2]
        G2 = W.bp.G2
        gamma = [k for k in range(n) if k * G2.generator() == kp.pk.w][0]
        bad = [(e, s) for e in [-gamma % n] for s in range(n)]

        def one():
            sig = kp.sk.sign(lhs)
            return int(sig.e), int(sig.s)

        all_ = list(itertools.product(range(n), repeat=2))
        uniform(rep, cid, distribution(rep, one), all_, "e, s of a signature", bad)
        pairs = list(itertools.product(all_, repeat=2))
        if n > 3:
            return
        uniform(rep, cid, distribution(rep, lambda: (one(), one())), pairs, "two signatures",
                [p for p in pairs if p[0] in bad or p[1] in bad])

    def blinding(cid):
        kp = fixture()
        n = int(W.bp.G1.order())
        zero = W.bbs.BBSPlusSignature(A=W.bp.G1.generator(), e=W.bn(1), s=W.bn(0))
        for ms in ([1], [0]):
            msgs = [W.bn(m) for m in ms]

            def one(cr=None):
                cr = cr or W.bbs.BBSPlusSignatureCreator(kp.pk)
                com = cr.commit(msgs, zkp=True)
                s1 = int(cr.obtain_signature(zero).s) % n
                c = int(com.com_nizk_proof.challenge)
                rs = [int(r) for r in com.com_nizk_proof.responses]
                if com.com_message != s1 * kp.pk.generators[1] + sum_of(ms):
                    raise HarnessError("another commitment")
                return (s1,) + tuple((r - c * v) % n for r, v in zip(rs, [s1] + ms))

            def sum_of(ms):
                r = W.bp.G1.infinite()
                for m, g in zip(ms, kp.pk.generators[2:]):
                    r = r + W.bn(m) * g
                return r

            k = len(ms) + 2
            uniform(rep, cid, distribution(rep, one), itertools.product(range(n), repeat=k),
                    "blinding factor and nonces")
            ref = distribution(rep, one)
            for p in paths(rep, one, None, 27 if n <= 3 else 12):
                for same in (False, True):
                    def body():
                        cr = W.bbs.BBSPlusSignatureCreator(kp.pk) if same else None
                        with seams.use(Scripted(p)):
                            one(cr)
                        return one(cr)

                    d = difference(distribution(rep, body), ref)
                    rep.require(d is None, cid, "the second blinding depends on the first one: %s" % d)
            # an unblinded commitment after a blinded one does not keep the blinding factor, and the
            # other way round
            with seams.use(Chooser(default=spread)):
                cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
                cr.commit(msgs, zkp=True)
                com = cr.commit(msgs, zkp=False)
            rep.require(com.com_message == sum_of(ms) and int(cr.obtain_signature(zero).s) == 0, cid,
                        "an unblinded commitment is blinded")

    def only(cid):
        def one():
            st = W.RangeOnly(0, 2, W.Secret(value=W.bn(1)))
            return st.subproofs[0].lhs.export()

        grp = W.group(0)
        d = distribution(rep, one)
        # the bases are hashed to; whatever they are, the commitment is uniform over a coset
        ok = len(set(d.values())) == 1 and len(d) in (1, W.q)
        h = grp.hash_to_point(b"h")
        rep.require(ok and (len(d) == W.q) == (not h.is_infinite()), cid,
                    "commitment of a range-only statement: %s" % (sorted(map(str, d.values())),))
        d2 = distribution(rep, lambda: (one(), one()))
        rep.require(len(d2) == len(d) ** 2 and len(set(d2.values())) == 1, cid, "two range-only "
                    "statements share their randomizer")

    def challenges(cid, s):
        vs = S.variables(s)
        party = Party(W, vs)
        with seams.use(Chooser(default=spread)), quiet():
            pv = party.prover(s, "statement")
            pre = pv.precommit()
            com = pv.commit()
            V = S.Build(W, T, ()).stmt(s)

        def one(ver=None):
            ver = ver or V.get_verifier()
            ver.process_precommitment(pre)
            return int(ver.send_challenge(com))

        def two(same):
            ver = V.get_verifier() if same else None
            return one(ver), one(ver)

        uniform(rep, cid, distribution(rep, one), range(space), "challenge")
        for same in (False, True):
            uniform(rep, cid, distribution(rep, lambda: two(same)),
                    itertools.product(range(space), repeat=2), "two challenges")

        def sims():
            st = S.Build(W, T, ()).stmt(s)
            return int(st.simulate().challenge), int(st.simulate().challenge)

        if which_small(s):
            uniform(rep, cid, distribution(rep, sims), itertools.product(range(space), repeat=2),
                    "challenges of two simulations")

    def which_small(s):
        a, b, c = coordinates(s)
        return len(a) + b + c <= (2 if W.q <= 3 else 1)

    rep.run(items(), lambda cid, f: f(cid))


# -- the real libraries --------------------------------------------------------------------------
RT = {"x": 123456789, "y": 2 ** 31 - 77, "z": 5, "ax": 2, "ar": 987654321, "bx": 1, "br": 777,
      "sig": 1}


def nonces(W, s, c, r, out, at=()):
    """(place, secret, nonce, order): responses less challenge times secret, for all occurrences."""
    if s[0] == "dl":
        n = W.order(s[3])
        for (v, _), x in zip(s[1], r):
            out.append((at, v, (int(x) - int(c) * RT[v]) % n, n))
    elif s[0] == "and":
        for i, (u, x) in enumerate(zip(s[1:], r)):
            nonces(W, u, c, x, out, at if u[0] != "or" else at + (i,))
    elif s[0] == "or":
        for i, (u, cc, x) in enumerate(zip(s[1:], r[0], r[1])):
            nonces(W, u, cc, x, out, at + (i,))
            out.append((at + (i,), "challenge", int(cc), 1 << 128))
    return out


def real_specs():
    x, xh, yh, z = dl(("x", "g")), dl(("x", "h")), dl(("y", "h")), dl(("z", "k"), ("y", "g"))
    return [x, z, ("and", x, yh), ("and", x, xh), ("or", x, yh), ("or", x, yh, z),
            ("and", ("or", x, xh), z), ("or", ("and", x, xh), yh), ("and", ("or", x, x), ("or", yh, yh)),
            dl(("x", "g"), grp=2), dl(("x", "g"), ("y", "h"), grp="G1"), dl(("x", "g"), grp="GT")]


def collect(W, s, how, n, base):
    """Nonces and challenges of n runs: {(place, secret): [..]}."""
    global T
    out = {}
    old = T
    T = RT
    try:
        known = [v for v in S.variables(s)]
        party = Party(W, known)
        for i in range(n):
            if how == "separate":
                party = Party(W, known)
            h = {"separate": "prove"}.get(how, how)
            if h in ("prover", "statement"):
                c = 0 if i % 2 else 2 ** 127 + i
                with quiet():
                    p = party.prover(s, h)
                    p.precommit()
                    p.commit()
                    r = p.compute_response(W.bn(c))
            else:
                with quiet():
                    if h == "prove":
                        nz = party.stmt(s).prove(message="%s %d" % (base, i))
                    else:
                        nz = party.prover(s, "prover").get_nizk_proof("%s %d" % (base, i))
                c, r = nz.challenge, nz.responses
            seen = {}
            for at, v, k, order in nonces(W, s, c, r, []):
                if (at, v) in seen:
                    if seen[(at, v)] != k and v != "challenge":
                        raise HarnessError("a secret with two nonces in one conjunction")
                    continue
                seen[(at, v)] = k
                out.setdefault((at, v), []).append((k, order))
    finally:
        T = old
    return out


def judge(rep, cid, data, n):
    every = {}
    for place, ks in data.items():
        for i, (k, order) in enumerate(ks):
            if not rep.require(k not in every, cid, "the same random number twice: %s and %s, run %d" % (
                    every.get(k), place, i)):
                return
            every[k] = (place, i)
        order = ks[0][1]
        big = sum(1 for k, _ in ks if 2 * k >= order)
        for bit in range(8):
            m = order >> (bit + 1)
            if m:
                ones = sum(1 for k, _ in ks if (k // m) % 2)
                if not rep.require(0 < ones < len(ks), cid, "bit %d from the top is constant in %d "
                                   "runs: %s" % (bit, len(ks), place)):
                    return
        for bit in range(8):
            ones = sum(1 for k, _ in ks if k >> bit & 1)
            if not rep.require(0 < ones < len(ks), cid, "bit %d is constant in %d runs: %s" % (
                    bit, len(ks), place)):
                return
        rep.steps += len(ks)
        rep.outcome("all different, whole range")


class Recorder(Chooser):
    """Answers like any other environment, and remembers the answers."""
    __slots__ = ("drawn",)

    def __init__(self, **kw):
        super().__init__(**kw)
        self.drawn = []

    def choose(self, n, kind="num"):
        v = super().choose(n, kind)
        self.drawn.append((int(n), v))
        return v


def randomized(W, kind):
    """A statement, and what its auxiliary points can be: offset + number drawn * base."""
    g, h, gen = W.base("g"), W.base("h"), W.group(0).generator()
    zero = W.group(0).infinite()
    if kind in ("ne", "neb"):
        s = ("ne", "ax", "g", "h", 4, kind == "neb", 0)
        d = W.bn(RT["ax"]) * h - W.bn(4) * h
        return s, [(zero, b) for b in (gen, g, h, d)]
    if kind in ("p2", "rg"):
        s = ("p2", "ax", "ar", 4, 0) if kind == "p2" else ("rg", "ax", "ar", 0, 5, 0)
        com = W.bn(RT["ax"]) * g + W.bn(RT["ar"]) * h
        offs = [zero, g, com, com + 3 * g, com + W.bn(3) * g]
        return s, [(o, b) for o in offs for b in (h, gen)]
    s = ("bb", ("ax", "ar"))
    kp, sig = S.bbs_fixture(W, (RT["ax"], RT["ar"]))
    G1 = W.bp.G1
    g1, g2 = kp.pk.generators[1], kp.pk.generators[2]
    return s, [(o, b) for o in (G1.infinite(), sig.A) for b in (G1.generator(), g1, g2)]


def lengths(W, rep, n=24, hows=("prover", "statement", "prove", "simulate")):
    """
    The randomizers of auxiliary commitments on the real libraries: where one is known to be a number
    that was drawn, this number had the whole range, and everything differs from run to run.
    """
    def fn(cid, item):
        kind, how = item
        global T
        old, T = T, RT
        try:
            s, cands = randomized(W, kind)
            grp = "G1" if kind == "bb" else 0
            order = W.order(grp)
            party = Party(W, list(S.variables(s)))
            data, points = {}, {}
            for i in range(n):
                rec = Recorder(default=spread, seed=1000 + i)
                with seams.use(rec), quiet():
                    if how == "simulate":
                        pre = party.stmt(s).simulate(challenge=W.bn(i)).precommitment
                    elif how == "prove":
                        pre = party.stmt(s).prove(message="m%d" % i).precommitment
                    else:
                        pre = party.prover(s, how).precommit()
                large = [(m, v) for m, v in rec.drawn if m > 1 << 32]
                for at, x in enumerate(flatten(pre)):
                    if x is None:
                        continue
                    if not hasattr(x, "export"):
                        data.setdefault("number %d" % at, []).append((int(x) % order, order))
                        continue
                    raw = x.export()
                    if raw in points:
                        return rep.violation(cid, "the same auxiliary commitment in runs %d and %d" % (
                            points[raw], i))
                    points[raw] = i
                    if i >= 2:
                        continue
                    short = None
                    for m, v in large:
                        for o, b in cands:
                            if o + W.bn(v) * b == x:
                                short = m if short is None else max(short, m)
                    rep.steps += len(large) * len(cands)
                    if short is None:
                        rep.outcome("randomizer unknown")
                        continue
                    if not rep.require(2 * short > order, cid, "an auxiliary commitment is randomized "
                                       "with a number below %s only" % hex(short)):
                        return
                    rep.outcome("randomizer of the whole range")
        finally:
            T = old
        judge(rep, cid, {k: v for k, v in data.items() if order > 1 << 32}, n)
        rep.real_traces += n

    rep.run((("auxiliary commitments of %s, %s" % (k, how), (k, how))
             for k in ("ne", "neb", "p2", "rg", "bb") for how in hows), fn)


def fresh(W, rep, n=40):
    def items():
        for s in real_specs():
            for how in ("prover", "statement", "nizk-prover", "prove", "separate"):
                yield "fresh %s %s" % (sid(s), how), (s, how)

    def fn(cid, item):
        s, how = item
        with seams.use(Chooser(default=spread, seed=sum(map(ord, cid)))):
            data = collect(W, s, how, n, "m")
        judge(rep, cid, data, n)
        rep.real_traces += n

    rep.run(items(), fn)


def processes(W, rep, n=40):
    """Processes that were started alike, on the unmodified random sources."""
    def fn(cid, mode):
        data = {}
        for k in range(2):
            env = dict(os.environ, PYTHONHASHSEED="0")
            p = subprocess.run([sys.executable, "-B", "-m", "mc.checks.p18", mode, str(n)], env=env,
                               cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                                   os.path.abspath(__file__)))),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                return rep.violation(cid, "a process fails: %s" % p.stderr.decode()[-600:])
            for i, (place, ks) in enumerate(json.loads(p.stdout)):
                data.setdefault(str(place), []).extend(tuple(x) for x in ks)
        judge(rep, cid, data, n)
        rep.real_traces += 2 * n

    rep.run([("processes seeded alike, %s" % m, m) for m in ("proofs", "draws")], fn)


def child(mode, n):
    import random

    random.seed(1)
    from mc import world

    W = world.make("real", scripted=False)
    random.seed(1)
    x, yh = dl(("x", "g")), dl(("y", "h"))
    out = []
    if mode == "proofs":
        for s in (x, ("and", x, yh), ("or", x, yh)):
            for how in ("prove", "statement"):
                d = collect(W, s, how, n, "m")
                out.extend((sid(s) + how + repr(k), v) for k, v in d.items())
    else:
        from zksk.utils import get_random_num

        random.seed(1)
        out.append(("numbers", [(int(get_random_num(128)), 1 << 128) for _ in range(n)]))
        random.seed(1)
        kp = W.bbs.BBSPlusKeypair.generate(W.bp, 3)
        q = int(W.bp.G1.order())
        sigs = [kp.sk.sign(kp.pk.generators[2]) for _ in range(n)]
        out.append(("e", [(int(s.e), q) for s in sigs]))
        out.append(("s", [(int(s.s), q) for s in sigs]))
        random.seed(1)
        zero = W.bbs.BBSPlusSignature(A=kp.pk.generators[2], e=W.bn(1), s=W.bn(0))
        s1 = []
        for _ in range(n):
            cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
            cr.commit([W.bn(5)])
            s1.append((int(cr.obtain_signature(zero).s) % q, q))
        out.append(("s1", s1))
        random.seed(1)
        st = W.And(*(S.Build(W, RT, ("x", "y")).stmt(u) for u in (x, yh)))
        chal = []
        for _ in range(n):
            com = st.get_prover().commit()
            chal.append((int(st.get_verifier().send_challenge(com)), 1 << 128))
        out.append(("challenges", chal))
    print(json.dumps(out))


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    q2 = ["tiny", dict(unordered=True, q=2, d=1, bits=1, bpq=2)]
    q3 = ["tiny", dict(unordered=True, q=3, d=1, bits=1, bpq=3)]
    q5 = ["tiny", dict(unordered=True, q=5, d=1, bits=2, bpq=5)]
    r = ["real", {}]
    add(r, "fresh", 6)
    add(r, "processes")
    add(r, "lengths", 5)
    add(q5, "draws", 8)
    for w in (q3, q5):
        if w is q3:
            add(w, "draws", 2)
        add(w, "coords", which="leaf")
        add(w, "coords", which="two")
    add(q5, "histories", which="leaf")
    add(q3, "histories", which="two")
    add(q3, "histories", 4, which="three", limit=2)
    add(q3, "histories", which="two", pairs="other")
    add(q3, "coords", 2, which="three")
    for w in (dict(q=3, q2=2, bpq=2), dict(q=2, q2=3, bpq=3), dict(q=2, q2=3, bpq=5)):
        w = ["tiny", dict(w, d=1, bits=1, unordered=True)]
        add(w, "coords", which="groups")
        add(w, "histories", which="groups", limit=2, modes=["prover", "simulate", "prove"])
    add(q2, "coords", 2, which="four")
    for w in (q3, q5):
        add(w, "auxiliary", kinds=["ne", "neb"])
        add(w, "auxiliary", kinds=["p2", "bb"])
        add(w if w is q3 else q2, "auxiliary", kinds=["rg"])
    add(q2, "auxiliary", kinds=["p2"])
    for k in gen.EXT_KINDS + ("p1",):
        add(q2, "coords", which=k)
        if k in ("p1", "p2", "rg", "bb"):
            add(q2, "histories", 2, which=k, limit=2,
                modes=["prover", "prove", "simulate", "abandoned-prover"] +
                      (["statement", "secrets"] if k in ("p1", "bb") else []))
        else:
            add(q2, "histories", which=k, limit=4)
    if tier == "thorough":
        add(q5, "histories", 8, which="two", limit=40)
        add(q3, "histories", 8, which="three", limit=40)
        add(q3, "histories", 8, which="four", limit=6)
        add(q2, "histories", 8, which="three", limit=60, pairs="other")
        for k in ("ne", "neb", "eg", "p1"):
            add(q3, "coords", which=k)
            add(q3, "histories", 8, which=k, limit=12)
        add(q2, "histories", 4, which="p2", limit=40)
        add(q2, "histories", 4, which="bb", limit=20)
        add(q2, "histories", 4, which="rg", limit=20)
    return out


if __name__ == "__main__":
    child(sys.argv[1], int(sys.argv[2]))
