"""
Histories.  A pool of objects made from one statement: the statement, a copy of it, a conjunction and a
disjunction that contain it, and the same built without values.  All sequences of operations up to a
depth (proofs with and without message, with dictionaries of right and wrong values, picking each branch;
simulations; complete, cheated and abandoned interactive runs on either side; verifications of good and
of several kinds of bad proofs; provers and verifiers that are used again), on all objects of the pool:
each operation must end as the reference says, which knows nothing about the history except which values
were handed over.  The partners of an operation are built afresh.
"""
import copy
import itertools

from mc import alter, seams, spec as S
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["numbers drawn during a history are fixed pseudo-random ones; the branches of "
               "disjunctions are part of the operation and enumerated"]

T = {"x": 3, "y": 5, "z": 2, "r": 4, "sig": 1, "w": 1, "v": 1, "u": 9, "t": 8}

X, Y = dl(("x", "g")), dl(("y", "h"), ("u", "g"))
NE, NEB = ("ne", "x", "g", "h", 4, False, 0), ("ne", "x", "g", "h", 4, True, 0)
RG, P2, BB, EG = ("rg", "z", "r", 0, 3, 0), ("p2", "z", "r", 2, 0), ("bb", ("w", "v")), ("eg", "x", "u", 0)
O = dl(("t", "k"))
OG = dl(("t", "k"), grp="G1")

SPECS = {
    "dl": Y, "dl same": dl(("x", "g"), ("x", "h")), "and": ("and", X, dl(("x", "h"), ("y", "k"))),
    "or": ("or", X, Y), "or3": ("or", X, Y, ("and", X, Y)), "or in and": ("and", ("or", X, Y), O),
    "or in or": ("or", X, ("or", Y, O)), "false or": ("or", X, dl(("y", "h"), lhs=((6, "h"),))),
    "ne": NE, "neb": NEB, "rg": RG, "p2": P2, "bb": BB, "eg": EG,
    "ne and": ("and", NE, X), "neb and": ("and", NEB, X), "ne or": ("or", NE, Y),
    "ne twice": ("and", NE, NE), "rg and": ("and", RG, dl(("z", "k"))), "rg or": ("or", RG, X),
    "p2 or p2": ("or", P2, ("p2", "z", "r", 3, 0)), "bb and": ("and", BB, dl(("w", "k"), grp="G1")),
    "bb or": ("or", BB, dl(("w", "k"), grp="G1")), "eg and": ("and", EG, X),
    "ne or ne": ("or", NE, ("ne", "y", "g", "h", 4, True, 0)),
    "deep": ("or", ("and", NEB, X), ("and", ("or", X, Y), O)),
    "sim": ("or", ("sim", X), Y),
}


class Pick:
    """Answers the draw of a branch as told and all other draws pseudo-randomly."""

    def __init__(self, k):
        self.k = k

    def choose(self, n, kind="num"):
        if kind == "branch" and n <= 64:
            return self.k % n
        cur, seams.CUR = seams.CUR, None
        try:
            return seams._below(n, kind)
        finally:
            seams.CUR = cur


class Fail(Exception):
    pass


class Target:
    def __init__(self, obj, spec, build, values):
        self.obj, self.spec, self.build = obj, spec, build
        self.values = values  # "all", "none" or "wrong"


class Pool:
    def __init__(self, W, name, which, grp=0):
        self.W = W
        self.spec = s = SPECS[name]
        other = OG if grp == "G1" else O
        truth = set(S.variables(("and", s, other)))
        self.targets = {}
        if set(which) & {"A", "copy", "and", "or"}:
            known = truth - ({"y"} if name == "false or" else set())
            b = S.Build(W, T, known)
            a = b.stmt(s)
            self.put(which, "A", lambda: a, s, b, "all")
            self.put(which, "copy", lambda: copy.copy(a), s, b, "all")
            self.put(which, "and", lambda: W.And(a, b.stmt(other)), ("and", s, other), b, "all")
            self.put(which, "or", lambda: W.Or(b.stmt(other), a), ("or", other, s), b, "all")
        if "V" in which:
            early = {"sig", "t"} & truth
            if any(l[0] in ("rg", "p2") for l in S.leaves(s)):
                early |= {"z", "r"} & truth
            b = S.Build(W, T, early)
            self.targets["V"] = Target(b.stmt(s), s, b, "none")

    def put(self, which, name, make, spec, b, values):
        if name in which and S.composition_ok(spec):
            self.targets[name] = Target(make(), spec, b, values)


def has_false(s):
    return any(n[0] == "dl" and n[2] is not None for n in S.nodes(s))


def partner(W, t, known=True):
    vs = S.variables(t.spec)
    if has_false(t.spec):
        vs = [v for v in vs if v != "y"]
    return S.Build(W, T, vs if known else ()).stmt(t.spec)


def accepted(st, proof, message=""):
    try:
        return st.verify(proof, message=message) is True
    except Exception:
        return False


def expect(cond, what):
    if not cond:
        raise Fail(what)


def honest(W, t, message=""):
    return partner(W, t).prove(message=message)


def first_number(proof):
    for path, v in alter.sites(proof.responses):
        if alter.is_num(v):
            return path
    raise HarnessError("no number in the responses")


# -- operations: fn(W, target) -----------------------------------------------------------------
def op_prove(W, t, message="", pick=0, d=None):
    with seams.use(Pick(pick)):
        try:
            p = t.obj.prove(d, message=message) if d is not None else t.obj.prove(message=message)
        except Exception as e:
            if t.values == "all":
                raise
            return
    if p is None:
        expect(t.values != "all", "no proof")
        return
    if t.values == "wrong":
        return
    expect(accepted(partner(W, t, False), p, message), "the proof is not accepted")


def op_prove_message(W, t):
    op_prove(W, t, message="m")


def op_prove_second(W, t):
    op_prove(W, t, pick=1)


def good_values(t):
    # not for the branch that is false
    return t.build.values([v for v in S.variables(t.spec)
                           if v != "sig" and not (v == "y" and has_false(t.spec))])


def op_dict(W, t):
    if t.values == "none" or t.values == "wrong":
        t.values = "all"
    op_prove(W, t, d=good_values(t))


def op_wrong_dict(W, t):
    """Wrong values give no acceptable proof, and spoil only later proofs without values."""
    d = {k: v + 1 for k, v in good_values(t).items()}
    try:
        p = t.obj.prove(d)
    except Exception:
        p = None
    t.values = "wrong"
    if p is not None:
        expect(not accepted(partner(W, t, False), p), "a proof with wrong values is accepted")


def op_verify(W, t):
    p = honest(W, t)
    expect(t.obj.verify(p) is True, "an honest proof is not accepted")


def op_verify_message(W, t):
    p = honest(W, t, "m")
    expect(t.obj.verify(p, message="m") is True, "an honest proof with a message is not accepted")


def op_verify_twice(W, t):
    p, p2 = honest(W, t), honest(W, t, "m")
    v = t.obj.get_verifier()
    expect(v.verify_nizk(p) is True, "an honest proof is not accepted")
    expect(v.verify_nizk(p2, "m") is True, "a second proof is not accepted by the same verifier")
    expect(v.verify_nizk(p) is True, "a proof is not accepted again by the same verifier")


def reject(t, p, what, message=""):
    expect(not accepted(t.obj, p, message), what)


def op_bad_response(W, t):
    p = honest(W, t)
    path = first_number(p)
    p.responses = alter.put(p.responses, path, alter.get(p.responses, path) + 1)
    reject(t, p, "accepted with another response")


def op_bad_message(W, t):
    reject(t, honest(W, t), "accepted with another message", "n")


def op_bad_challenge(W, t):
    p = honest(W, t)
    p.challenge = p.challenge + 1
    reject(t, p, "accepted with another challenge")


def op_bad_hash(W, t):
    p = honest(W, t)
    p.stmt_hash = bytes([p.stmt_hash[0] ^ 1]) + p.stmt_hash[1:]
    reject(t, p, "accepted with another statement hash")


def precommits(spec):
    return any(l[0] != "dl" for l in S.leaves(spec))


def op_no_precommitment(W, t):
    """A proof for the statement of an earlier precommitment that does not carry one."""
    if not precommits(t.spec):
        return
    ps = partner(W, t)
    prover = ps.get_prover()
    pre = prover.precommit()
    # the verifier's statement was constructed for this very precommitment
    verifier = t.obj.get_verifier()
    try:
        verifier.process_precommitment(pre)
    except Exception:
        raise Fail("an honest precommitment is refused")
    _, com = prover.commit()
    h = ps.prehash_statement()
    digest = h.digest()
    c = W.z.base.build_fiat_shamir_challenge(h, None, com, message="")
    p = W.NIZK(challenge=c, responses=prover.compute_response(c), precommitment=None,
               stmt_hash=digest)
    for check in (verifier.verify_nizk, kept(t).verify_nizk, t.obj.verify):
        try:
            ok = check(p)
        except Exception:
            ok = False
        expect(ok is not True, "accepted without precommitment")


def kept(t):
    """A verifier that is used again and again."""
    if not hasattr(t, "verifier"):
        t.verifier = t.obj.get_verifier()
    return t.verifier


def op_keep_verify(W, t):
    expect(kept(t).verify_nizk(honest(W, t)) is True, "an honest proof is not accepted")


def op_keep_bad(W, t):
    p = honest(W, t)
    path = first_number(p)
    p.responses = alter.put(p.responses, path, alter.get(p.responses, path) + 1)
    try:
        ok = kept(t).verify_nizk(p)
    except Exception:
        ok = False
    expect(ok is not True, "accepted with another response")


def op_keep_run(W, t):
    expect(run(W, partner(W, t).get_prover(), kept(t)) is True, "an honest prover is not accepted")


def op_other_precommitment(W, t):
    p, p2 = honest(W, t), honest(W, t)
    if alter.same(p.precommitment, p2.precommitment):
        return
    p.precommitment = p2.precommitment
    reject(t, p, "accepted with the precommitment of another proof")


def run(W, prover, verifier, spoil=False):
    verifier.process_precommitment(prover.precommit())
    c = verifier.send_challenge(prover.commit())
    r = prover.compute_response(c)
    if spoil:
        class P:
            responses = r
        path = first_number(P)
        r = alter.put(r, path, alter.get(r, path) + 1)
    return verifier.verify(r)


def op_interactive_prover(W, t, pick=0):
    with seams.use(Pick(pick)):
        try:
            prover = t.obj.get_prover()
        except Exception:
            if t.values == "all":
                raise
            return
        if prover is None:
            expect(t.values != "all", "no prover")
            return
        try:
            ok = run(W, prover, partner(W, t, False).get_verifier())
        except Exception:
            if t.values == "all":
                raise
            return
    expect(ok is True or t.values != "all", "the interactive proof is not accepted")


def op_interactive_second(W, t):
    op_interactive_prover(W, t, pick=1)


def op_interactive_verifier(W, t):
    expect(run(W, partner(W, t).get_prover(), t.obj.get_verifier()) is True,
           "an honest prover is not accepted")


def op_verifier_twice(W, t):
    v = t.obj.get_verifier()
    for _ in range(2):
        expect(run(W, partner(W, t).get_prover(), v) is True,
               "an honest prover is not accepted by a verifier used again")


def op_interactive_cheat(W, t):
    try:
        ok = run(W, partner(W, t).get_prover(), t.obj.get_verifier(), spoil=True)
    except Exception:
        ok = False
    expect(ok is not True, "a cheating prover is accepted")


def op_simulate(W, t):
    tr = t.obj.simulate()
    expect(partner(W, t, False).verify_simulation_consistency(tr) is True,
           "a simulated transcript is not consistent")


def op_consistency(W, t):
    tr = partner(W, t, False).simulate()
    expect(t.obj.verify_simulation_consistency(tr) is True,
           "the simulated transcript of another is not consistent")


def op_prover_twice(W, t):
    try:
        prover = t.obj.get_prover()
    except Exception:
        if t.values == "all":
            raise
        return
    if prover is None or t.values != "all":
        expect(t.values != "all", "no prover")
        return
    for m in ("", "m"):
        expect(accepted(partner(W, t, False), prover.get_nizk_proof(m), m),
               "a proof of a prover used again is not accepted")


def op_abandon_precommit(W, t):
    try:
        t.obj.get_prover().precommit()
    except Exception:
        if t.values == "all":
            raise


def op_abandon_commit(W, t):
    try:
        p = t.obj.get_prover()
        p.precommit()
        p.commit()
    except Exception:
        if t.values == "all":
            raise


def op_abandon_verifier(W, t):
    pr = partner(W, t).get_prover()
    v = t.obj.get_verifier()
    v.process_precommitment(pr.precommit())
    v.send_challenge(pr.commit())


def op_hash(W, t):
    """Asking for the identity, which an unconstructed primitive cannot tell."""
    try:
        t.obj.prehash_statement()
    except Exception:
        pass


def op_mark(W, t):
    """Marked as to be simulated, and unmarked again."""
    t.obj.set_simulated()
    try:
        p = t.obj.prove()
    except Exception:
        p = None
    t.obj.set_simulated(False)


def op_combine(W, t):
    """Used as operand; the combination is proven and dropped."""
    o = t.build.stmt(OG if any(l[0] == "bb" for l in S.leaves(t.spec)) else O)
    for st in (W.And(t.obj, o), W.Or(t.obj, o)):
        try:
            st.validate_composition()
        except Exception:
            continue
        try:
            st.prove()
        except Exception:
            if t.values == "all":
                raise


def op_copy(W, t):
    t.obj = copy.copy(t.obj)


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith("op_")}
CORE = ["prove", "prove_second", "verify", "bad_response", "no_precommitment", "simulate",
        "interactive_prover", "interactive_verifier", "wrong_dict", "dict", "abandon_commit", "keep_verify"]



def histories(W, rep, specs, depth, targets, ops, first=None):
    def items():
        for name in specs:
            grp = "G1" if name.startswith("bb") else 0
            which = list(Pool(W, name, targets, grp).targets)
            steps = list(itertools.product(ops, which))
            for a in steps:
                yield "%s: %s on %s, then all" % (name, a[0], a[1]), (name, a, steps, grp)

    def judge(cid, name, seq, grp):
        seams.reset()
        seams.reset_names()
        with quiet(), seams.use(Pick(0)):
            pool = Pool(W, name, targets, grp)
            for i, (op, on) in enumerate(seq):
                t = pool.targets[on]
                # the values of secrets are shared by the objects
                try:
                    OPS[op](W, t)
                except Fail as e:
                    rep.violation(cid, "after %s, %s on %s: %s" % (
                        ["%s on %s" % s for s in seq[:i]], op, on, e))
                    return False
                except Exception as e:
                    rep.violation(cid, "after %s, %s on %s fails: %s: %s" % (
                        ["%s on %s" % s for s in seq[:i]], op, on, type(e).__name__, e))
                    return False
                if op in ("wrong_dict", "dict"):
                    share_values(pool, t)
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
        return True

    def fn(cid, item):
        name, a, steps, grp = item
        for rest in itertools.product(steps, repeat=depth - 1):
            rep.outcome("histories")
            if not judge(cid, name, (a,) + rest, grp):
                return

    rep.run(items(), fn)


def share_values(pool, t):
    """The objects of a pool that were built together use the same secrets."""
    for u in pool.targets.values():
        if u.build is t.build and u is not t:
            # a value handed to one object is known to the others at the latest when they are told
            if t.values == "wrong":
                u.values = "wrong"
            elif u.values != "all":
                u.values = "unknown"


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    big = 2 ** 31 - 1
    r = ["real", {}]
    t = ["tiny", dict(q=big, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    every = list(OPS)
    base = [k for k in SPECS]
    add(t, "histories", 4, specs=base, depth=2, targets=["A"], ops=every)
    add(t, "histories", 2, specs=base, depth=2, targets=["V"], ops=every)
    add(t, "histories", 8, specs=base, depth=3, targets=["A"], ops=CORE)
    add(t, "histories", 4, specs=["dl", "and", "or", "ne", "rg", "bb", "eg", "ne or"], depth=3,
        targets=["V"], ops=CORE)
    add(t, "histories", 8, specs=base, depth=2, targets=["A", "copy", "and", "or"], ops=CORE)
    add(r, "histories", 4, specs=["dl", "or", "ne", "p2", "eg and"], depth=2, targets=["A"], ops=CORE)
    add(r, "histories", 4, specs=["bb", "rg"], depth=2, targets=["A"],
        ops=["prove", "verify", "no_precommitment", "simulate", "interactive_verifier"])
    if tier == "thorough":
        add(t, "histories", 16, specs=base, depth=3, targets=["A"], ops=every)
        add(t, "histories", 16, specs=base, depth=4, targets=["A"], ops=CORE)
        add(t, "histories", 16, specs=base, depth=3, targets=["A", "copy", "and", "or"],
            ops=["prove", "verify", "bad_response", "no_precommitment", "simulate",
                 "interactive_prover", "interactive_verifier", "wrong_dict"])
        add(t, "histories", 16, specs=base, depth=3, targets=["A", "V"], ops=CORE)
        add(r, "histories", 16, specs=base, depth=2, targets=["A"], ops=CORE)
    return out
