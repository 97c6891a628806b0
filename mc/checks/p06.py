"""
Simulation.  Over tiny groups all random choices of the prover (interactive, for every challenge) and
of the simulator (which has no secret values) are enumerated; the two exact distributions of
(precommitment, commitment, responses) must be equal, for every sufficient set of known secrets and
several witnesses; a simulation without given challenge draws it uniformly.  Every simulated transcript
is given to the verifier.  On the real libraries, transcripts of all statement kinds and contexts are
simulated for boundary challenges and verified, for true and for false statements.
"""
from fractions import Fraction

from mc import gen, seams, spec as S
from mc.checks.p01 import ext_contexts, programs, suff
from mc.checks.p02 import enforced  # noqa: F401
from mc.dist import difference, distribution, interactive, key, simulated
from mc.explore import Chooser, spread
from mc.gen import dl, sid
from mc.harness import flatten, quiet, shards

ASSUMPTIONS = ["perfect zero-knowledge is claimed for the protocols that have it: all of the provided "
               "ones, over a cyclic group (Pedersen commitments perfectly hiding)"]

T = {"x": 1, "y": 2, "z": 1, "u": 2, "ax": 1, "ar": 1, "bx": 0, "br": 1, "sig": 1}


def specs(which, q):
    x, y, xh, yh, z = (dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("y", "h")),
                       dl(("z", "h")))
    if which == "small":
        return [x, dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h")),
                dl(("x", "g"), ("y", "h"), ("x", "h")),
                ("and", x, xh), ("and", x, yh), ("and", x, x), ("and", dl(("x", "g"), ("y", "h")), xh),
                ("or", x, yh), ("or", x, x), ("or", x, xh), ("or", dl(("x", "g"), ("y", "h")), xh)]
    if which == "three":
        return [("and", x, yh, xh), ("and", ("and", x, xh), yh), ("or", x, yh, z),
                ("or", ("or", x, yh), z), ("or", z, ("or", x, yh)), ("or", ("and", x, xh), yh),
                ("or", ("and", x, yh), z), ("and", ("or", x, yh), z), ("and", z, ("or", x, xh)),
                ("and", ("or", x, xh), dl(("y", "g"), ("z", "h")))]
    if which == "four":
        return [("and", ("or", x, xh), ("or", yh, z)), ("or", ("and", x, xh), ("and", yh, z)),
                ("and", ("or", ("and", x, xh), x), y), ("or", ("and", ("or", x, yh), z), z)]
    if which == "groups":
        y2, z2 = dl(("y", "g"), grp=2), dl(("z", "h"), ("y", "g"), grp=2)
        u1, u2 = dl(("u", "g"), grp="G1"), dl(("u", "g"), grp="G2")
        return [("and", x, y2), ("and", y2, x), ("and", u1, x), ("and", x, u1, u2), ("or", x, y2),
                ("or", y2, x), ("and", ("and", x, y2), xh), ("and", y2, ("and", x, z2)),
                ("or", ("and", x, y2), xh), ("and", ("or", y2, x), u1)]
    if which == "bb":
        return [("bb", ("ax",))]
    if which == "p1":
        return [("p2", "ax", "ar", 1, 0)]
    if which == "p2":
        return [("p2", "ax", "ar", 1, 0), ("p2", "ax", "ar", 2, 0)]
    if which == "p2c":
        E = ("p2", "ax", "ar", 1, 0)
        return [("and", E, z), ("or", E, z), ("or", z, E), ("and", ("or", E, x), z)]
    if which == "rg":
        return [("rg", "ax", "ar", 1, 2, 0), ("rg", "ax", "ar", 0, 2, 0)]
    if which == "bbc":
        return [("or", ("bb", ("ax",)), x), ("and", ("bb", ("ax",)), dl(("ax", "g"), grp="G1"))]
    few = which.endswith("-")
    E = gen.ext_leaf(which.strip("-"), "a")
    if E[0] == "ne":
        E = E[:4] + (0,) + E[5:]
    if few:
        return [E, ("and", E, z), ("or", z, E)]
    return [E, ("and", E, z), ("or", E, z), ("or", z, E), ("and", z, dl(("ax", "h")), E),
            ("or", ("and", E, x), z), ("and", ("or", z, E), x), ("or", E, E)]


def simple_known(s):
    return [k for k in suff(s)]


def compare(W, rep, which, witnesses=True):
    space = 1 << W.bits
    q = W.q

    def items():
        for s in specs(which, q):
            if S.composition_ok(s):
                for c in range(space):
                    yield "%s challenge %d" % (sid(s), c), (s, c)

    def truths(s):
        """Values with the same public statement (only the representations with two terms vary)."""
        yield T
        for l in S.leaves(s):
            if l[0] == "dl" and len(l[1]) == 2 and len(set(v for v, _ in l[1])) == 2 and \
                    S.is_leaf(s) and witnesses:
                (v1, b1), (v2, b2) = l[1]
                e1, e2 = [W.base(b, l[3]).v[0] for b in (b1, b2)]
                tot = (T[v1] * e1 + T[v2] * e2) % q
                for a in range(q):
                    for b in range(q):
                        if (a * e1 + b * e2) % q == tot:
                            yield dict(T, **{v1: a, v2: b})

    def fn(cid, item):
        s, c = item
        digest = []

        def sim(false=False):
            def body():
                return simulated(W, lambda: S.Build(W, T, ()).stmt(s), c)
            return body

        ds = distribution(rep, sim())
        d2 = {}
        for k, p in ds.items():
            if k[0] == "exception":
                rep.violation(cid, "the simulator fails: %s" % (k,))
                return
            d2[k[:4]] = d2.get(k[:4], 0) + p
            if k[4] != c:
                rep.violation(cid, "simulated for another challenge")
                return
        for truth in truths(s):
            for known in simple_known(s):
                body = lambda: interactive(W, lambda: S.Build(W, truth, known).stmt(mark(s, known)), c)
                dr = distribution(rep, body)
                d = difference(dr, d2)
                if d:
                    rep.violation(cid, "real and simulated transcripts differ (%s known): %s" % (
                        "".join(known), d))
                    return
                rep.outcome("equal distributions")
        rep.sample(case=cid, transcripts=len(d2))

    rep.run(items(), fn)


def mark(s, known):
    from mc.checks.p01 import mark as m

    return m(s, set(known))


def challenges(W, rep, which):
    """Without a given challenge: uniform, and every transcript satisfies the verifier."""
    space = 1 << W.bits

    def fn(cid, s):
        dist = {}
        bad = []

        def body():
            st = S.Build(W, T, ()).stmt(s)
            tr = st.simulate()
            ok = "exceptional"
            if not neutral(W, s, tr.precommitment):
                ok = S.Build(W, T, ()).stmt(s).verify_simulation_consistency(tr)
            return int(tr.challenge), ok

        d = distribution(rep, body)
        per = {}
        for k, p in d.items():
            if k[0] == "exception":
                rep.violation(cid, "simulated transcript not accepted: %s" % (k,))
                return
            c, ok = k
            per[c] = per.get(c, 0) + p
            if ok is not True and ok != "exceptional":
                rep.violation(cid, "a simulated transcript is not valid (challenge %d)" % c)
                return
        want = {c: Fraction(1, space) for c in range(space)}
        rep.require(per == want, cid, "the drawn challenge is not uniform: %s" % {
            k: str(v) for k, v in per.items()})
        rep.outcome("valid and uniform")

    rep.run((("simulate " + sid(s), s) for s in specs(which, W.q) if S.composition_ok(s)), fn)


def neutral(W, s, pre):
    from mc.harness import has_infinite

    return any(l[0] == "ne" for l in S.leaves(s)) and has_infinite(W, pre)


def commitments(W, rep, which):
    """Non-interactive proofs have the same first messages as interactive ones."""
    def fn(cid, s):
        for known in simple_known(s):
            def inter():
                r = interactive(W, lambda: S.Build(W, T, known).stmt(mark(s, known)), 0)
                return r[0], r[1], r[3]

            def nizk():
                n = S.Build(W, T, known).stmt(mark(s, known)).prove()
                v = S.Build(W, T, ()).stmt(s)
                if n.precommitment is not None:
                    v.get_verifier().process_precommitment(n.precommitment)
                return key(n.precommitment), key(v.recompute_commitment(n.challenge, n.responses)), \
                    n.stmt_hash

            d = difference(distribution(rep, inter), distribution(rep, nizk))
            if d:
                rep.violation(cid, "first messages of proofs and interactive runs differ: %s" % d)
                return
            rep.outcome("equal first messages")

    rep.run((("first messages " + sid(s), s) for s in specs(which, W.q) if S.composition_ok(s)), fn)


BIG = {"x": 1, "y": 2, "z": 3, "u": 0, "v": 2, "ax": 2, "ar": 3, "bx": 1, "br": 4, "cx": 0, "cr": 1,
       "sig": 1}


def in_range(l):
    if l[0] == "p2":
        return 0 <= BIG[l[1]] < 1 << l[3]
    return l[0] != "rg" or l[3] <= BIG[l[1]] < l[4]


def shape(x):
    if isinstance(x, (list, tuple)):
        return [shape(y) for y in x]
    if isinstance(x, dict):
        return {k: shape(x[k]) for k in sorted(x)}
    return type(x).__name__


def valid(W, rep, which):
    """Simulated transcripts of all kinds and contexts; false statements too."""
    bits = W.bits if W.tiny else 128
    if which == "algebra":
        ss = list(programs(2, [dl(("x", "g")), dl(("x", "h")), dl(("x", "g"), ("y", "h"))]))
        ss += list(programs(3, [dl(("x", "g")), dl(("y", "h"))]))
        ss += [dl(("x", "g")), dl(("x", "g"), ("x", "h"), ("y", "k"))]
    else:
        ss = [s for s in ext_contexts(which) if S.composition_ok(s)]
        if which == "rg":
            ss += [("rg", "ax", "ar", a, b, 0) for a, b in ((0, 1), (0, 2), (-3, 4), (2, 9))]
        if which == "p2":
            ss += [("p2", "ax", "ar", n, 0) for n in (1, 3, 5)]
    top = (1 << bits) - 1

    def fn(cid, s):
        for lie in (False, True):
            truth = dict(BIG)
            if lie:
                # other public values: out of range, equal logarithms, ...
                truth.update(ax=6, bx=6, x=5)
                if any(l[0] == "ne" for l in S.leaves(s)):
                    truth.update(ax=4, bx=4)
            sims = []
            for c in (0, 1, top, None):
                seams.reset_names()
                with quiet(), seams.use(Chooser(default=spread, seed=len(sims))):
                    tr = None
                    st = S.Build(W, truth, ()).stmt(s)
                    tr = st.simulate() if c is None else st.simulate(challenge=W.bn(c))
                sims.append(tr)
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                rep.require(c is None or int(tr.challenge) == c, cid, "another challenge")
                rep.require(0 <= int(tr.challenge) <= top, cid, "challenge out of range")
                if W.tiny and neutral(W, s, tr.precommitment):
                    rep.excused += 1
                    continue
                V = S.Build(W, truth, ()).stmt(s)
                try:
                    ok = V.verify_simulation_consistency(tr)
                except Exception as e:
                    ok = e
                rep.require(ok is True, cid, "a simulated transcript (challenge %s, %s) is not valid: "
                            "%r" % (c, "false statement" if lie else "true statement", ok))
                # ... for no other statement
                for what, h in () if c else (("no", None), ("an empty", b""), ("a shorter", tr.stmt_hash[:-1]),
                                ("another", bytes(b ^ 1 for b in tr.stmt_hash))):
                    V = S.Build(W, truth, ()).stmt(s)
                    try:
                        ok = V.verify_simulation_consistency(W.z.base.SimulationTranscript(
                            commitment=tr.commitment, challenge=tr.challenge, responses=tr.responses,
                            precommitment=tr.precommitment, stmt_hash=h))
                    except Exception:
                        ok = False
                    rep.require(ok is not True, cid, "a simulated transcript with %s hash of the statement "
                                "is valid" % what)
                # ... but it is no proof
                seams.reset_names()
                V = S.Build(W, truth, ()).stmt(s)
                try:
                    ok = V.verify(W.NIZK(challenge=tr.challenge, responses=tr.responses,
                                         precommitment=tr.precommitment, stmt_hash=tr.stmt_hash))
                except Exception:
                    ok = False
                rep.require(ok is not True, cid, "a simulated transcript passes as a proof")
                rep.outcome("valid")
            # the order of the numbers of a real run, and its shape
            if not lie and all(in_range(l) for l in S.leaves(s)):
                seams.reset_names()
                with quiet(), seams.use(Chooser(default=spread)):
                    p = S.Build(W, truth, truth.keys()).stmt(s).get_prover()
                    pre = p.precommit()
                    com = p.commit()[1]
                    resp = p.compute_response(W.bn(1))
                for tr in sims:
                    for name, a, b in (("precommitment", pre, tr.precommitment),
                                       ("commitment", com, tr.commitment),
                                       ("responses", resp, tr.responses)):
                        rep.require(shape(a) == shape(b), cid,
                                    "the simulated %s has another shape" % name, real=shape(a),
                                    simulated=shape(b))

    rep.run((("valid " + sid(s), s) for s in ss), fn)


def sizes(W, rep, which, n=8):
    """
    On the real libraries: every number of a simulated transcript is as large as in a proof.  (The largest
    of n uniform numbers is 16 bits shorter than the bound with probability 2**(-16 n).)
    """
    if which == "algebra":
        ss = list(programs(2, [dl(("x", "g")), dl(("x", "h")), dl(("x", "g"), ("y", "h"))]))
        ss += list(programs(3, [dl(("x", "g")), dl(("y", "h"))]))
        ss += [dl(("x", "g")), dl(("x", "g"), ("x", "h"), ("y", "k")), dl(("x", "g"), grp=2),
               ("or", dl(("x", "g"), grp=2), dl(("y", "g"))), ("or", dl(("y", "g")), dl(("x", "g"), grp=2))]
    else:
        ss = [s for s in ext_contexts(which) if S.composition_ok(s)]

    def longest(many):
        out = []
        for x in many:
            ns = [abs(int(v)).bit_length() if isinstance(v, (int, W.Bn)) else None for v in flatten(list(x))]
            out = [None if a is None or b is None else max(a, b) for a, b in zip(out, ns)] if out else ns
        return out

    def fn(cid, s):
        sims, reals = [], []
        for known in simple_known(s)[:2]:
            for i in range(n):
                ch = Chooser(default=spread, seed=500 + i)
                with seams.use(ch), quiet():
                    tr = S.Build(W, BIG, ()).stmt(s).simulate(challenge=W.z.utils.get_random_num(128))
                    sims.append((tr.precommitment, tr.responses))
                    nz = S.Build(W, BIG, known).stmt(mark(s, known)).prove(message="m%d" % i)
                    reals.append((nz.precommitment, nz.responses))
            a, b = longest(sims), longest(reals)
            if not rep.require(len(a) == len(b), cid, "simulated transcripts have %d members, proofs %d" % (
                    len(a), len(b))):
                return
            bad = [(i, u, v) for i, (u, v) in enumerate(zip(a, b)) if (u is None) != (v is None) or
                   u is not None and abs(u - v) > 16]
            rep.real_traces += 2 * n
            rep.steps += len(a)
            if not rep.require(not bad, cid, "number %s of simulated transcripts has %s bits, of proofs "
                               "%s" % (bad[0] if bad else ("", "", ""))):
                return
            rep.outcome("as large")

    rep.run((("sizes " + sid(s), s) for s in ss if S.composition_ok(s)), fn)


def lengths(W, rep, hows):
    from mc.checks import p18

    p18.lengths(W, rep, hows=hows)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    q2 = ["tiny", dict(unordered=True, q=2, d=1, bits=1, bpq=2)]
    q3 = ["tiny", dict(unordered=True, q=3, d=1, bits=1, bpq=3)]
    q5 = ["tiny", dict(unordered=True, q=5, d=1, bits=2, bpq=5)]
    t = ["tiny", dict(unordered=True, q=13, d=3, bits=3, d1=4, d2=1)]
    r = ["real", {}]
    add(["tiny", dict(q=5, d=1, bits=2)], "enforced")
    add(r, "enforced")
    for k in ("algebra",) + gen.EXT_KINDS:
        add(r, "valid", 3 if k in ("rg", "bb") else 1, which=k)
        add(t, "valid", which=k)
        add(r, "sizes", 2 if k in ("rg", "bb") else 1, which=k)
    add(r, "lengths", hows=["simulate"])
    add(q5, "compare", 2, which="small")
    add(q3, "compare", which="small")
    add(q3, "compare", 4, which="three")
    for w in (dict(q=3, q2=2, bpq=2), dict(q=2, q2=3, bpq=3), dict(q=2, q2=3, bpq=5)):
        w = ["tiny", dict(w, d=1, bits=1, unordered=True)]
        add(w, "compare", which="groups")
        add(w, "challenges", which="groups")
        add(w, "commitments", which="groups")
    add(q2, "compare", which="rg")
    add(q2, "compare", which="bb")
    add(q2, "compare", which="bbc")
    add(q3, "compare", which="p1")
    add(q2, "compare", which="p2")
    add(q2, "compare", 2, which="p2c")
    for k in ("ne", "neb", "eg"):
        add(q3, "compare", 2, which=k + ("-" if k != "eg" else ""))
        add(q2, "compare", 2, which=k)
        add(q3 if k == "eg" else q2, "challenges", which=k)
        add(q2, "commitments", which=k)
    for k in ("small", "three"):
        add(q3, "challenges", which=k)
    add(q3, "commitments", which="small")
    add(q2, "commitments", which="three")
    add(q2, "commitments", which="p2")
    add(q2, "commitments", which="p2c")
    add(q2, "challenges", which="p2")
    add(q2, "challenges", which="rg")
    add(q2, "challenges", which="bb")
    if tier == "thorough":
        add(q2, "compare", 8, which="four")
        add(q5, "compare", 8, which="three")
        add(q3, "compare", 4, which="rg")
        add(q3, "compare", 4, which="bb")
        add(q3, "compare", 8, which="p2c")
        add(q2, "commitments", 4, which="four")
        add(q5, "compare", 4, which="p1")
        add(q5, "compare", 8, which="ne-")
        add(q3, "compare", 8, which="ne")
        add(q3, "compare", 8, which="neb")
        add(q3, "compare", 2, which="p2")
        add(q3, "commitments", 4, which="ne")
    return out
