"""
Primitives defined by the user.  All combinations of: what precommit() gives (not overridden, empty list,
None, a point, a number, a dictionary, a list, a tuple, nested); simulate_precommit overridden or not;
validate missing, raising ValidationError, raising something else, asking for an argument; the constructed
statement being a representation, a conjunction or a disjunction; internal secrets made once or renewed;
in all contexts (alone, members of conjunctions and disjunctions, nested, twice, marked as simulated).
(1) honest proofs, non-interactive, serialized and interactive, for all draws of branches: accepted,
or an error exactly in the share of draws in which a precommitment has to be simulated that cannot be;
validate sees exactly the precommitment of the proof.  (2) an adversary with a precommitment that only
validate can tell to be wrong, in the real and in the simulated place.  (3) altered precommitments, and
proofs for a class of another name.  (4) rules of composition through the constructed statement.
"""
import itertools
from fractions import Fraction

from mc import alter, seams, spec as S
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["custom primitives whose internal secrets are made once are not used twice as the same "
               "object; primitives inside of primitives are not covered"]

PRES = ("none", "empty", "null", "point", "number", "dict", "list", "tuple", "nested")
WITH_INTERNAL = ("point", "dict", "nested", "tuple")
PLAIN = ("none", "empty", "null")
VALS = ("none", "check", "other", "args")
BODIES = ("single", "and", "or")


class Refused(Exception):
    pass


def features():
    for pre, sim, val, body in itertools.product(PRES, (False, True), VALS, BODIES):
        if pre in PLAIN and val in ("check", "other"):
            continue
        for internal in ("renew", "once") if pre in WITH_INTERNAL else ("no",):
            if internal == "once" and not (val == "none" and body == "and"):
                continue
            yield pre, sim, val, body, internal


def make_class(W, feat, log, name="Prim", bad=False):
    """The class of a primitive.  bad: its precommitments do not pass its own validation."""
    pre, sim, val, body, internal = feat
    Secret, DLRep = W.Secret, W.DLRep
    g, h, k, m = (W.base(b) for b in "ghkm")
    ValidationError = W.z.exceptions.ValidationError

    def draw():
        """Never zero, so that validation does not refuse an honest proof."""
        return g.group.order().random() * 0 + W.bn(0 if bad else 2 + seams._below(5, "large"))

    class Prim(W.Ext):
        def __init__(self, H, M, K, x, y):
            self.H, self.M, self.K, self.x, self.y = H, M, K, x, y
            if internal == "once":
                self.b = Secret()
            elif internal == "renew":
                self.renew_internal_secrets()

        def construct_stmt(self, pre_):
            R = [DLRep(self.H, self.x * g)]
            lhs, expr = self.H, self.x * g
            if body == "and":
                R.append(DLRep(self.M, self.x * m))
            C, n = self.parts(pre_)
            if C is not None and internal != "no":
                R.append(DLRep(C, self.b * k))
                lhs, expr = lhs + C, expr + self.b * k
            if pre == "dict":
                R.append(DLRep(pre_["D"], self.b * m))
            if pre == "list":
                R.append(DLRep(pre_[1], self.x * C))
            if n is not None:
                R.append(DLRep(n * self.H, self.x * (n * g)))
            if body == "single":
                if pre in ("dict", "list") or pre == "nested" or pre == "number":
                    st = R[-1] if pre != "nested" else DLRep(n * lhs, self.x * (n * g) +
                                                             self.b * (n * k))
                else:
                    st = DLRep(lhs, expr)
            else:
                st = R[0] if len(R) == 1 else W.And(*R)
            if body == "or":
                st = W.Or(st, DLRep(self.K, self.y * h))
            log.append(("construct", pre_))
            return st

        def parts(self, p):
            C = {"point": lambda: p, "dict": lambda: p["C"], "list": lambda: p[0],
                 "tuple": lambda: p[0], "nested": lambda: p[1]["C"][0]}.get(pre, lambda: None)()
            n = {"number": lambda: p, "nested": lambda: p[0]}.get(pre, lambda: None)()
            return C, n

    def shape(self, t, simulated):
        if pre == "empty":
            return []
        if pre == "null":
            return None
        if pre == "point":
            return t * k
        if pre == "number":
            return t
        if pre == "dict":
            return {"C": t * k, "D": t * m}
        if pre == "tuple":
            return (t * k, "some text", 5)
        if pre == "nested":
            return [t, {"C": [t * k], "n": None}]
        if pre == "list":
            C = t * k
            return [C, (W.bn(7) if simulated else self.x.value) * C]

    if internal == "renew":
        def renew(self):
            self.b = Secret()
        Prim.renew_internal_secrets = renew
    if pre != "none":
        def precommit(self):
            t = draw()
            if internal != "no":
                self.b.value = t
            p = shape(self, t, False)
            log.append(("precommit", p))
            return p
        Prim.precommit = precommit
        if sim:
            def simulate_precommit(self):
                p = shape(self, draw(), True)
                log.append(("simulate_precommit", p))
                return p
            Prim.simulate_precommit = simulate_precommit
    elif sim:
        def simulate_precommit2(self):
            log.append(("simulate_precommit", []))
            return []
        Prim.simulate_precommit = simulate_precommit2
    if val != "none":
        def validate(self, p, *args):
            log.append(("validate", p))
            if val == "args":
                if args != (7,):
                    raise ValidationError("another argument")
                return
            C, n = self.parts(p)
            if (C is not None and C == g.group.infinite()) or (n is not None and n == 0):
                raise ValidationError("no") if val == "check" else Refused("no")
        if val == "args":
            Prim.validate = validate
        else:
            Prim.validate = lambda self, p: validate(self, p)
    Prim.__name__ = Prim.__qualname__ = name
    return Prim


# contexts: trees over P (a primitive), Q (another of the same class with other secrets), D (a
# representation that shares the secret of P), O (one that shares nothing), P* (P marked as simulated)
CONTEXTS = {
    "alone": "P", "and": ("and", "P", "O"), "and rev": ("and", "O", "P"), "shared": ("and", "P", "D"),
    "shared rev": ("and", "D", "P"), "or": ("or", "P", "O"), "or rev": ("or", "O", "P"),
    "and two": ("and", "P", "Q"), "or two": ("or", "P", "Q"), "or in and": ("and", ("or", "P", "O"), "E"),
    "and in or": ("or", "O", ("and", "P", "D")), "deep and": ("and", ("and", "P", "O"), "Q"),
    "deep or": ("or", ("or", "O", "P"), "Q"), "twice and": ("and", "P", "P"),
    "twice or": ("or", "P", "P"), "marked": ("or", "P*", "O"), "three": ("or", "O", "P", "E"),
    "all": ("and", ("or", ("and", "P", "D"), "O"), ("or", "Q", "E")),
}


class Party:
    def __init__(self, W, cls, known):
        self.W = W
        self.T = {"x": 3, "x2": 5, "o": 6, "e": 7}
        self.s = {v: W.Secret(value=W.bn(n)) if known else W.Secret() for v, n in self.T.items()}
        self.s["y"], self.s["y2"] = W.Secret(), W.Secret()
        self.cls = cls
        self.made = {}

    def prim(self, v, y):
        W = self.W
        x = W.bn(self.T[v])
        return self.cls(x * W.base("g"), x * W.base("m"), 9 * W.base("h"), self.s[v], self.s[y])

    def build(self, t):
        W = self.W
        if isinstance(t, tuple):
            cs = [self.build(c) for c in t[1:]]
            return (W.And if t[0] == "and" else W.Or)(*cs)
        if t == "P*":
            p = self.prim("x", "y")
            p.set_simulated()
            return p
        if t not in self.made:
            self.made[t] = {
                "P": lambda: self.prim("x", "y"), "Q": lambda: self.prim("x2", "y2"),
                "D": lambda: W.DLRep(3 * W.base("n"), self.s["x"] * W.base("n")),
                "O": lambda: W.DLRep(6 * W.base("p"), self.s["o"] * W.base("p")),
                "E": lambda: W.DLRep(7 * W.base("p"), self.s["e"] * W.base("p")),
            }[t]()
        return self.made[t]


def prims(t):
    return sum(map(prims, t[1:])) if isinstance(t, tuple) else int(t in ("P", "Q", "P*"))


def trouble(t):
    """The probability that a primitive has to be simulated."""
    if not isinstance(t, tuple):
        return Fraction(0)
    if t[0] == "and":
        ok = Fraction(1)
        for c in t[1:]:
            ok *= 1 - trouble(c)
        return 1 - ok
    real = [c for c in t[1:] if c != "P*"]
    bad = Fraction(0)
    for i, c in enumerate(t[1:]):
        if c == "P*":
            continue
        others = sum(prims(d) for j, d in enumerate(t[1:]) if j != i)
        bad += Fraction(1, len(real)) * (1 if others else trouble(c))
    return bad


def supported(t, body):
    """Sharing through a constructed disjunction cannot be guaranteed."""
    def expand(t):
        if isinstance(t, tuple):
            return (t[0],) + tuple(expand(c) for c in t[1:])
        v = {"P": "x", "P*": "x", "Q": "x2", "D": "x", "O": "o", "E": "e"}[t]
        leaf = ("dl", ((v, "g"),), None, 0)
        if body == "or" and t in ("P", "P*", "Q"):
            return ("or", leaf, ("dl", (("y" + v, "h"),), None, 0))
        return leaf
    return S.composition_ok(expand(t))


def extra(feat):
    return (7,) if feat[2] == "args" else ()


def check_nizk(st, proof, feat):
    return st.get_verifier().verify_nizk(proof, "", *extra(feat))


def branch_weight(ch):
    w = Fraction(1)
    for n, _, _, kind in ch.points:
        if kind == "branch":
            w /= n
    return w


def fid(feat):
    return "pre=%s sim=%d val=%s body=%s internal=%s" % (feat[0], feat[1], feat[2], feat[3], feat[4])


def cases(feats=None, contexts=None):
    for feat in features():
        if feats is not None and feat[0] not in feats:
            continue
        for name, t in CONTEXTS.items():
            if contexts is not None and name not in contexts:
                continue
            if feat[4] == "once" and name.startswith("twice"):
                continue
            yield "%s: %s" % (name, fid(feat)), (feat, name, t)


def honest(W, rep, feats=None, contexts=None, hows=("nizk", "serialized", "interactive", "simulated")):
    def items():
        for cid, item in cases(feats, contexts):
            for how in hows:
                yield "honest %s %s" % (how, cid), item + (how,)

    def fn(cid, item):
        feat, name, t, how = item
        log = []
        cls = make_class(W, feat, log)
        ok_comp = supported(t, feat[3])
        cannot_simulate = feat[0] != "none" and not feat[1]
        total = [Fraction(0), Fraction(0)]

        def body():
            del log[:]
            if how == "simulated":
                st = Party(W, cls, False).build(t)
                tr = st.simulate()
                vs = Party(W, cls, False).build(t)
                verifier = vs.get_verifier()
                verifier.process_precommitment(tr.precommitment)
                vs.check_statement(tr.stmt_hash)
                verifier.commitment, verifier.challenge = tr.commitment, tr.challenge
                return verifier.verify(tr.responses, *extra(feat)), tr.precommitment
            st = Party(W, cls, True).build(t)
            vs = Party(W, cls, False).build(t)
            if how == "interactive":
                prover, verifier = st.get_prover(), vs.get_verifier()
                pre = prover.precommit()
                del log[:]
                verifier.process_precommitment(pre)
                c = verifier.send_challenge(prover.commit())
                return verifier.verify(prover.compute_response(c), *extra(feat)), pre
            p = st.prove()
            if how == "serialized":
                p = W.NIZK.deserialize(p.serialize())
            del log[:]
            return check_nizk(vs, p, feat), p.precommitment

        def check(res, ch):
            w = branch_weight(ch)
            if res[0] == "exc":
                total[1] += w
                rep.outcome("error")
                if ok_comp and not cannot_simulate:
                    rep.violation(cid, "%s: %s" % (type(res[1]).__name__, res[1]))
                return
            total[0] += w
            good, pre = res[1]
            if not ok_comp:
                rep.violation(cid, "an unsupported composition is not refused")
                return
            rep.require(good is True, cid, "not accepted")
            rep.outcome("accepted")
            if feat[2] in ("check", "other", "args"):
                seen = [p for what, p in log if what == "validate"]
                want = list(leaves_of(t, pre))
                for p in want:
                    rep.require(any(alter.same(p, q) for q in seen), cid,
                                "a precommitment was not validated")

        rep.explore(cid, body, check, deviations=0)
        if rep.violations:
            return
        if not ok_comp:
            return
        if how == "simulated":
            bad = Fraction(int(cannot_simulate and prims(t) > 0))
        else:
            bad = trouble(t) if cannot_simulate else Fraction(0)
        rep.require(total == [1 - bad, bad], cid, "errors in %s of the draws instead of %s" % (
            total[1], bad))

    rep.run(items(), fn)


def leaves_of(t, pre):
    """The precommitments of the primitives."""
    if not isinstance(t, tuple):
        if t in ("P", "Q", "P*"):
            yield pre
        return
    for i, c in enumerate(t[1:]):
        yield from leaves_of(c, None if pre is None else pre[i])


def wrong(W, rep, feats=None, contexts=None):
    """A precommitment that only validate can tell to be wrong."""
    def items():
        for cid, item in cases(feats, contexts):
            feat = item[0]
            if feat[0] in PLAIN or not feat[1]:
                continue
            for how in ("nizk", "interactive"):
                yield "wrong %s %s" % (how, cid), item + (how,)

    def fn(cid, item):
        feat, name, t, how = item
        if not supported(t, feat[3]):
            return
        log = []
        cls, evil = make_class(W, feat, log), make_class(W, feat, [], bad=True)
        def body():
            return attack(W, feat, t, how, cls, evil)

        def check(res, ch):
            good = res == ("ok", True)
            if feat[2] in ("check", "other"):
                rep.require(not good, cid, "accepted although it does not validate")
                rep.outcome("rejected")
            elif feat[2] == "none" or feat[2] == "args":
                # the control: nothing else is wrong with these proofs
                rep.require(good, cid, "the control is not accepted: %r" % (res[1],))
                rep.outcome("control")

        rep.explore(cid, body, check, deviations=0)
        if feat[2] == "args":
            for args in ((), (8,), (7, 7)):
                def body2():
                    return attack(W, feat, t, how, cls, cls, args)

                def check2(res, ch):
                    rep.require(res != ("ok", True), cid, "accepted with the arguments %r" % (args,))
                    rep.outcome("rejected")
                rep.explore(cid, body2, check2, deviations=0)

    rep.run(items(), fn)


def attack(W, feat, t, how, cls, evil, args=None):
    """The prover's own validation is out of the way."""
    args = extra(feat) if args is None else args
    ps = Party(W, evil, True).build(t)
    vs = Party(W, cls, False).build(t)
    prover, verifier = ps.get_prover(), vs.get_verifier()
    if how == "nizk":
        return verifier.verify_nizk(prover.get_nizk_proof(), "", *args)
    verifier.process_precommitment(prover.precommit())
    c = verifier.send_challenge(prover.commit())
    return verifier.verify(prover.compute_response(c), *args)


def bound(W, rep, feats=None, contexts=None):
    """Altered precommitments; another class name."""
    def items():
        for cid, item in cases(feats, contexts):
            feat = item[0]
            if (feat[0] != "none" and not feat[1] and "or" in repr(item[2])) or feat[2] == "check":
                continue
            yield "bound: %s" % cid, item

    def fn(cid, item):
        feat, name, t = item
        if not supported(t, feat[3]):
            return
        with quiet(), seams.use(None):
            cls = make_class(W, feat, [])
            proof = Party(W, cls, True).build(t).prove()

            def accepted(proof, cls=cls):
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                try:
                    return check_nizk(Party(W, cls, False).build(t), proof, feat) is True
                except Exception:
                    return False

            rep.require(accepted(proof), cid, "the honest proof is not accepted")
            d = alter.as_dict(proof)
            for path, v in alter.sites(proof.precommitment):
                for what, new, _ in alter.alterations(W, v, [W.order(0)], 1 << (W.bits if W.tiny
                                                                           else 128)):
                    pre = alter.put(proof.precommitment, path, new)
                    p = W.NIZK(**dict(d, precommitment=pre))
                    if accepted(p):
                        rep.violation(cid, "accepted with precommitment altered at %s: %s" % (
                            path, what))
                    rep.outcome("rejected")
            other = make_class(W, feat, [], name="Other")
            rep.require(not accepted(proof, other), cid, "accepted for a class of another name")
            # the precommitment of another proof
            p2 = Party(W, cls, True).build(t).prove()
            if not alter.same(p2.precommitment, proof.precommitment):
                rep.require(not accepted(W.NIZK(**dict(d, precommitment=p2.precommitment))), cid,
                            "accepted with the precommitment of another proof")

    rep.run(items(), fn)


def missing(W, rep):
    """Parts that are missing altogether."""
    g = W.base("g")

    class NoConstruct(W.Ext):
        def __init__(self):
            pass

    class Nothing(W.Ext):
        def construct_stmt(self, precommitment):
            return None

    class Fails(W.Ext):
        def construct_stmt(self, precommitment):
            raise Refused("no")

    class PreFails(W.Ext):
        def precommit(self):
            raise Refused("no")

        def construct_stmt(self, precommitment):
            return W.DLRep(3 * g, W.Secret(value=W.bn(3)) * g)

    def calls(cls):
        o = W.DLRep(5 * g, W.Secret(value=W.bn(5)) * g)
        u = W.DLRep(5 * g, W.Secret() * g)
        yield "prove", lambda: cls().prove()
        yield "simulate", lambda: cls().simulate()
        yield "verify", lambda: cls().verify(u_proof())
        yield "and prove", lambda: (cls() & o).prove()
        yield "and rev prove", lambda: (o & cls()).prove()
        yield "or prove", lambda: (cls() | u).prove()
        yield "or simulate", lambda: (u | cls()).simulate()
        yield "interactive", lambda: W.SigmaProtocol(cls().get_verifier(), cls().get_prover()).verify()
        yield "interactive and", lambda: W.SigmaProtocol((cls() & u).get_verifier(),
                                                         (cls() & o).get_prover()).verify()
        yield "identity", lambda: cls().prehash_statement()
        yield "secrets", lambda: cls().get_secret_vars()

    base = W.z.composition.ComposableProofStmt
    D = W.DLRep

    class Forward:
        """A primitive that does not extend another one, but forwards to a representation."""

        def __init__(self):
            self.inner = D(3 * g, W.Secret(value=W.bn(3)) * g)
            self.lhs = self.inner.lhs

        def get_prover(self, secrets_dict=None):
            return self.inner.get_prover(secrets_dict)

        def recompute_commitment(self, challenge, responses):
            return self.inner.recompute_commitment(challenge, responses)

        def simulate_proof(self, responses_dict=None, challenge=None):
            return self.inner.simulate_proof(responses_dict, challenge)

    class NoSecrets(Forward, base):
        bases = [g]
        verifier_cls = D.verifier_cls

    class NoBases(Forward, base):
        secret_vars = [W.Secret(name="s")]
        verifier_cls = D.verifier_cls

    class NoVerifier(Forward, base):
        bases = [g]
        secret_vars = [W.Secret(name="s")]

    class NoProver(base):
        bases = [g]
        secret_vars = [W.Secret(name="s")]
        verifier_cls = D.verifier_cls

    def u_proof():
        return W.DLRep(5 * g, W.Secret(value=W.bn(5)) * g).prove()

    def items():
        for cls in (NoConstruct, Nothing, Fails, PreFails):
            for name, f in calls(cls):
                yield "missing: %s %s" % (cls.__name__, name), (cls, f)
        o = W.DLRep(5 * g, W.Secret(value=W.bn(5)) * g)
        for cls in (NoSecrets, NoBases, NoVerifier, NoProver):
            for name, f in (
                    [("secrets", lambda c=cls: c().get_secret_vars())] * (cls is NoSecrets) +
                    [("bases", lambda c=cls: c().get_bases())] * (cls is NoBases) +
                    [("verify", lambda c=cls: c().verify(u_proof())),
                     ("and", lambda c=cls: (c() & o).prove()),
                     ("identity", lambda c=cls: c().prehash_statement())] * (cls is not NoVerifier) *
                    (cls is not NoProver) +
                    [("prover", lambda c=cls: c().get_prover()), ("prove", lambda c=cls: c().prove()),
                     ("and", lambda c=cls: (o & c()).prove())] * (cls is NoProver) +
                    [("verifier", lambda c=cls: c().get_verifier()),
                     ("verify", lambda c=cls: c().verify(u_proof())),
                     ("and verify", lambda c=cls: (c() & o).verify(u_proof())),
                     ("or verify", lambda c=cls: (o | c()).get_verifier())] * (cls is NoVerifier)):
                yield "missing: %s %s" % (cls.__name__, name), (cls, f)

    def fn(cid, item):
        cls, f = item
        with quiet(), seams.use(None):
            rep.steps += 1
            if not W.tiny:
                rep.real_traces += 1
            try:
                r = f()
            except Exception:
                rep.outcome("error")
                return
            rep.violation(cid, "no error: %r" % (type(r),))

    rep.run(items(), fn)


def own_class(W, way):
    """A primitive on the lowest level: statement, prover and verifier of the user's."""
    base = W.z.base

    class SquareProver(base.Prover):
        def __init__(self, stmt):
            super().__init__(stmt, {})

        def internal_commit(self, randomizers_dict=None):
            self.k = self.stmt.update_randomizers(randomizers_dict)[self.stmt.x]
            return self.k * self.stmt.g

        def compute_response(self, challenge):
            return [(self.k + challenge * self.stmt.x.value) % self.stmt.g.group.order()]

    class SquareVerifier(base.Verifier):
        def check_responses_consistency(self, responses, responses_dict=None):
            if responses_dict is None:
                responses_dict = {}
            return len(responses) == 1 and responses_dict.setdefault(self.stmt.x, responses[0]) == responses[0]

    class Square(W.z.composition.ComposableProofStmt):
        """PK{x: lhs = x g}"""

        def __init__(self, lhs, x, g):
            self.lhs, self.x, self.g = lhs, x, g
            if way != "methods":
                self.secret_vars, self.bases = [x], [g]

        def get_proof_id(self, secret_id_map=None):
            return list(super().get_proof_id(secret_id_map)) + [self.lhs]

        def get_randomizers(self):
            return {self.x: self.g.group.order().random()}

        def recompute_commitment(self, challenge, responses):
            return responses[0] * self.g + (-challenge) * self.lhs

        def simulate_proof(self, responses_dict=None, challenge=None):
            responses_dict = self.update_randomizers(responses_dict)
            if challenge is None:
                challenge = W.z.utils.get_random_num(W.z.consts.CHALLENGE_LENGTH)
            resp = [responses_dict[self.x]]
            return base.SimulationTranscript(
                commitment=self.recompute_commitment(challenge, resp), challenge=challenge, responses=resp)

    if way == "attributes":
        Square.prover_cls, Square.verifier_cls = SquareProver, SquareVerifier
    elif way == "methods":
        Square.get_prover_cls = lambda self: SquareProver
        Square.get_verifier_cls = lambda self: SquareVerifier
        Square.get_secret_vars = lambda self: [self.x]
        Square.get_bases = lambda self: [self.g]
    else:
        Square.get_prover = lambda self, secrets_dict=None: None if self.simulated else SquareProver(self)
        Square.get_verifier = lambda self: SquareVerifier(self)
    return Square


# U: the user's primitive over x, V: over another secret, U*: marked as simulated (its value unknown);
# D: a representation with the secret of U, O: an independent one, N: one that is not known
OWN_CONTEXTS = {
    "alone": "U", "and": ("and", "U", "O"), "and rev": ("and", "O", "U"), "shared": ("and", "U", "D"),
    "shared rev": ("and", "D", "U"), "twice": ("and", "U", "U"), "two": ("and", "U", "V"),
    "or": ("or", "U", "N"), "or rev": ("or", "N", "U"), "or simulated": ("or", "U*", "O"),
    "or simulated rev": ("or", "O", "U*"), "or both": ("or", "U", "V"), "or itself": ("or", "U", "U"),
    "and in or": ("or", ("and", "U", "D"), "N"), "or in and": ("and", ("or", "U", "N"), "O"),
    "all three": ("or", "N", "U*", ("and", "V", "O")), "outside and inside": ("and", "D", ("or", "U", "O")),
}


def plain(W, rep, ways=("attributes", "methods", "overridden")):
    """Primitives that implement the interface of statements, provers and verifiers themselves."""
    T = {"x": 3, "x2": 4, "o": 5, "n": 6}
    g, k = W.base("g"), W.base("k")
    var = {"U": "x", "U*": "x", "V": "x2", "D": "x", "O": "o", "N": "n"}

    def shape(t):
        if isinstance(t, tuple):
            return (t[0],) + tuple(shape(c) for c in t[1:])
        return ("dl", ((var[t], "k" if t == "D" else "g"),), None, 0)

    def build(cls, t, secs, wrong=None, path=()):
        if isinstance(t, tuple):
            f = W.And if t[0] == "and" else W.Or
            return f(*(build(cls, c, secs, wrong, path + (i,)) for i, c in enumerate(t[1:])))
        v = var[t]
        s = secs(v, t)
        lhs = T[v]
        if t in "UVU*":
            st = cls(lhs * g, s, g)
            if t == "U*":
                st.set_simulated()
            return st
        return W.DLRep(lhs * (k if t == "D" else g), s * (k if t == "D" else g))

    def party(known, off=None):
        made = {}

        def secs(v, t):
            key = v
            if key not in made:
                val = None
                if known and t not in ("N", "U*"):
                    val = W.bn(T[v] + (1 if off == v else 0))
                made[key] = W.Secret(name="s" + v, value=val) if val is not None else W.Secret(name="s" + v)
            return made[key]
        return secs

    def items():
        for way in ways:
            for name, t in OWN_CONTEXTS.items():
                for how in ("nizk", "serialized", "interactive", "simulated", "wrong value"):
                    yield "%s primitive, %s, %s" % (way, name, how), (way, t, how)

    def strip(t):
        return (t[0],) + tuple(map(strip, t[1:])) if isinstance(t, tuple) else "U" if t == "U*" else t

    def fn(cid, item):
        way, t, how = item
        cls = own_class(W, way)
        ok_comp = S.composition_ok(shape(t))

        def body():
            vs = build(cls, strip(t), party(False))
            if how == "simulated":
                tr = build(cls, t, party(False)).simulate()
                return vs.verify_simulation_consistency(tr)
            st = build(cls, t, party(True, "x" if how == "wrong value" else None))
            if how == "interactive":
                p, v = st.get_prover(), vs.get_verifier()
                v.process_precommitment(p.precommit())
                c = v.send_challenge(p.commit())
                return v.verify(p.compute_response(c))
            n = st.prove()
            if how == "serialized":
                n = W.NIZK.deserialize(n.serialize())
            return vs.verify(n)

        verdicts = []

        def check(res, ch):
            verdicts.append(res[1] if res[0] == "ok" else res[1])
            rep.outcome("accepted" if res == ("ok", True) else "rejected")
            if how == "wrong value":
                return
            rep.require((res == ("ok", True)) == ok_comp, cid, "%s, but the composition is %s" % (
                "accepted" if res == ("ok", True) else "not accepted: %r" % (res[1],),
                "supported" if ok_comp else "not supported"))

        rep.explore(cid, body, check, deviations=0)
        if how == "wrong value" and ok_comp:
            # only through a branch that does not need the value
            other = t[0] == "or" and any(not uses(c) for c in t[1:])
            rep.require(other or not any(v is True for v in verdicts), cid, "a wrong value is accepted")

    def uses(t):
        if isinstance(t, tuple):
            return any(map(uses, t[1:])) if t[0] == "and" else all(map(uses, t[1:]))
        return t in ("U", "D", "N", "U*")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    big = 2 ** 31 - 1
    r = ["real", {}]
    t = ["tiny", dict(q=big, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    add(t, "honest", 8)
    add(t, "wrong", 4)
    add(t, "wrong", 4, flagged=True)
    add(t, "honest", 2, feats=["point", "none"], contexts=["alone", "shared", "or"], flagged=True)
    add(t, "bound", 4)
    add(t, "missing")
    add(t, "plain")
    add(t, "plain", ways=["attributes"], flagged=True)
    add(r, "plain")
    add(r, "honest", 4, feats=["null", "point", "none"], contexts=["alone", "shared", "or", "and in or"])
    add(r, "wrong", 2, feats=["point", "nested"], contexts=["alone", "shared", "or", "or in and"])
    add(r, "bound", 2, feats=["dict", "number"], contexts=["alone", "or"])
    add(r, "missing")
    if tier == "thorough":
        add(r, "honest", 16)
        add(r, "wrong", 16)
        add(r, "bound", 16)
    return out
