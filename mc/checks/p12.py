"""
Proofs of possession of BBS+ signatures.  (1) extraction: for every secret key, every precommitment
(A1, A2) of a small vector-space pairing, and every answer: the witnesses (e, s, messages) that two
accepted answers to one first message yield are exactly the valid signatures on
A2 - r1 g2 with r1 the coordinate of A1; none when A1 is no combination of g1 and g2.  Alone and together
with a second statement about a message, with consistent answers and with arbitrary ones.
(2) honest possession in all contexts: accepted.  (3) provers that follow the protocol with a signature
on other messages, by another key, altered, or with a public value of another message: never accepted.
(4) precommitments of other shapes.  (5) more messages than the key has room for.
"""
import itertools

from mc import adv, alter, gen, seams, spec as S
from mc.explore import Chooser, spread
from mc.gen import dl
from mc.harness import HarnessError, flatten, quiet, shards

ASSUMPTIONS = ["the generators are independent (a vector-space group), as the hash to the curve is "
               "supposed to ensure"]

NAMES = "ghkmnp"


def generators(W, n):
    return [W.base(b, "G1") for b in NAMES[:n]]


def key(W, gamma, n):
    """n: the number of generators."""
    gens = generators(W, n)
    h0 = W.bp.G2.generator()
    sk = W.bbs.BBSPlusSecretKey(gamma=W.bn(gamma), generators=gens, h0=h0)
    pk = W.bbs.BBSPlusPublicKey(w=W.bn(gamma) * h0, h0=h0, generators=gens)
    return sk, pk


# -- (1) extraction ------------------------------------------------------------------------------
def extract(W, rep, n, gammas, a1="all", a2="all", link=None, free=False):
    """
    n messages.  link: a second statement M = m1 * g (before or after).  free: answers that need not
    be consistent.
    """
    q = W.order("G1")
    d = W.bp.bpgp.d1
    gens = generators(W, n + 2)
    vecs = list(itertools.product(range(q), repeat=d))

    def some(which, coords):
        if which == "all":
            return vecs
        if which == "span":
            # all combinations of g1, g2 and two that are none
            out = [v for v in vecs if not any(v[i] for i in range(d) if i not in coords)]
            return out + [tuple(1 if j in (i, 1) else 0 for j in range(d)) for i in range(d)
                          if i not in coords]
        # "few": at most two coordinates differ from zero
        return [v for v in vecs if sum(1 for x in v if x) <= 2]

    A1s, A2s = some(a1, (1, 2)), some(a2, (0, 1))

    def build(pk, M):
        e, s = W.Secret(), W.Secret()
        ms = [W.Secret() for _ in range(n)]
        st = W.bbs.BBSPlusSignatureStmt([e, s] + ms, pk)
        if link:
            d_ = W.DLRep(W.bn(M) * gens[0], ms[0] * gens[0])
            st = W.And(d_, st) if link == "before" else W.And(st, d_)
        return st, [e, s] + ms

    def items():
        for gamma in gammas:
            for M in range(q) if link else (None,):
                for i, u in enumerate(A1s):
                    yield "extraction: key %d, A1=%s%s" % (
                        gamma, "".join(map(str, u)), "" if M is None else " M=%d" % M), (gamma, u, M)

    zero = None

    def place(shape, positions, values):
        for (p, _), v in zip(positions, values):
            shape = alter.put(shape, p, v)
        return shape

    bns = [W.bn(i) for i in range(q)]

    def fn(cid, item):
        gamma, u, M = item
        sk, pk = key(W, gamma, n + 2)
        A1 = W.point(u, "G1")
        in_span = not any(u[i] for i in range(d) if i not in (1, 2))
        r1 = u[1]
        with quiet(), seams.use(None):
            st, mine = build(pk, M)
            tr = st.simulate()
            shape = tr.responses
            positions = adv.slots(shape)
            for v in A2s:
                A2 = W.point(v, "G1")
                bb = {"A1": A1, "A2": A2}
                pre = bb if not link else [None, bb] if link == "before" else [bb, None]
                # valid witnesses
                A = A2 - W.bn(r1) * gens[2]
                valid = set()
                if in_span:
                    for w in itertools.product(range(q), repeat=n + 2):
                        e, s, ms = w[0], w[1], w[2:]
                        if M is not None and ms[0] != M:
                            continue
                        rhs = gens[0] + W.bn(s) * gens[1]
                        for m, g in zip(ms, gens[2:]):
                            rhs = rhs + W.bn(m) * g
                        if W.bn((gamma + e) % q) * A == rhs:
                            valid.add(w)
                # what the verifier lets one extract
                st, mine = build(pk, M)
                verifier = st.get_verifier()
                verifier.process_precommitment(pre)
                names = [s.name for s in st.get_secret_vars()]
                if len(names) != len(positions):
                    raise HarnessError("responses and secrets do not correspond")
                uniq = sorted(set(names), key=names.index)
                where = {s: i for i, s in enumerate(uniq)}
                zeros = place(shape, positions, [bns[0]] * len(positions))
                first = adv.key(st.recompute_commitment(bns[0], zeros))
                found = set()
                space = itertools.product(range(q), repeat=len(positions) if free else len(uniq))
                for a in space:
                    vals = [bns[x] for x in a] if free else [bns[a[where[x]]] for x in names]
                    resp = place(shape, positions, vals)
                    rep.steps += 1
                    try:
                        com = st.recompute_commitment(bns[1], resp)
                    except Exception:
                        continue
                    if adv.key(com) != first:
                        continue
                    if free and not verifier.check_responses_consistency(resp, {}):
                        continue
                    got = dict(zip(names, a)) if free else dict(zip(uniq, a))
                    w = tuple(got[x.name] for x in mine)
                    if w not in found:
                        s1, _ = build(pk, M)
                        s0, _ = build(pk, M)
                        if not adv.answer(W, s1, pre, 1, resp) or \
                                not adv.answer(W, s0, pre, 0, zeros):
                            continue
                    found.add(w)
                if found - valid:
                    rep.violation(cid, "answers to two challenges without a valid signature",
                                  A2=v, witness=sorted(found - valid)[:3])
                    return
                if valid - found:
                    rep.violation(cid, "a valid signature cannot be shown", A2=v,
                                  witness=sorted(valid - found)[:3])
                    return
                rep.outcome("provable" if found else "not provable")
        rep.sample(case=cid, precommitments=len(A2s), answers_each=q ** len(
            positions if free else uniq))

    rep.run(items(), fn)


# -- (2) and (3) ---------------------------------------------------------------------------------
def signature(W, kp, ms):
    for _ in range(50):
        cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
        com = cr.commit([W.bn(m) for m in ms], zkp=bool(len(ms) % 2))
        try:
            return cr.obtain_signature(kp.sk.sign(com.com_message))
        except Exception:
            if not W.tiny:
                raise
    raise HarnessError("no signature")


_KPS = {}


def keypairs(W, n):
    if n not in _KPS:
        with quiet(), seams.use(None):
            _KPS[n] = [W.bbs.BBSPlusKeypair.generate(W.bp, n) for _ in range(2)]
    return _KPS[n]


CONTEXTS = ("alone", "and dl m1", "dl m1 and", "and dl all", "and dl e s", "or false", "false or",
            "or known", "or in and", "two credentials", "same twice", "range", "in GT")


class Case:
    """One statement, for the prover or for the verifier."""

    def __init__(self, W, kps, sigs, msgs, public, context, binding, values, only=None):
        """
        sigs: the signature (or two); msgs: the values the prover uses; public: the messages behind
        the public values; values: whether this party has secrets at all ('ctor', 'dict' or None).
        """
        self.W = W
        n = len(msgs)
        B = W.bn
        have = values == "ctor"
        S_ = W.Secret
        ms = [S_(value=B(m)) if have else S_() for m in msgs]
        self.d = {s: B(m) for s, m in zip(ms, msgs)} if values == "dict" else {}
        e, s = S_(), S_()
        g, h, k = (W.base(b, "G1") for b in "ghk")

        def bb(i=0, j=0, es=None):
            sv = (es or [e, s]) + ms if binding else list(ms)
            return W.bbs.BBSPlusSignatureStmt(sv, kps[j].pk, sigs[i] if values else None,
                                              binding=binding)

        def rep_(exps, bases, secs):
            lhs = W.bp.G1.infinite()
            for x, b in zip(exps, bases):
                lhs = lhs + B(x) * b
            expr = secs[0] * bases[0]
            for x, b in zip(secs[1:], bases[1:]):
                expr = expr + x * b
            return W.DLRep(lhs, expr)

        y, z = S_(), S_(value=B(5)) if have else S_()
        if values == "dict":
            self.d[z] = B(5)
        false = W.DLRep(3 * h, y * h)
        true = W.DLRep(5 * g, z * g)
        if context == "alone":
            st = bb()
        elif context == "and dl m1":
            st = W.And(bb(), rep_(public[:1], [g], ms[:1]))
        elif context == "dl m1 and":
            st = rep_(public[:1], [g], ms[:1]) & bb()
        elif context == "and dl all":
            st = bb() & rep_(public, [W.base(b, "G1") for b in NAMES[:n]], ms)
        elif context == "and dl e s":
            sg = sigs[0]
            st = bb() & W.DLRep(sg.e * g + sg.s * h, e * g + s * h)
        elif context == "or false":
            st = bb() | false
        elif context == "false or":
            st = W.Or(false, bb())
        elif context == "or known":
            st = bb() | true
        elif context == "or in and":
            st = W.And(W.Or(false, bb()), true)
        elif context == "two credentials":
            # two signatures of two issuers on the same messages
            st = bb(0, 0) & bb(1, 1, [S_(), S_()])
        elif context == "same twice":
            x = bb()
            st = W.And(x, x)
        elif context == "range":
            r = S_(value=B(9)) if have else S_()
            if values == "dict":
                self.d[r] = B(9)
            m = ms[0]
            kw = dict(value=B(msgs[0])) if values == "dict" else {}
            if values == "dict":
                # values of range proofs are needed early
                m.value, r.value = B(msgs[0]), B(9)
            st = bb() & W.Range(public[0] * g + 9 * h, g, h, 0, 20, m, r)
        elif context == "in GT":
            ggt = W.bp.GT.generator()
            st = bb() & W.DLRep(B(public[0]) * ggt, ms[0] * ggt)
        self.st = st


def attempt(W, p, v, how):
    """Does the verifier accept?  Returns True or the reason why not."""
    try:
        if how == "nizk":
            proof = p.st.prove(p.d) if p.d else p.st.prove()
            ok = v.st.verify(proof)
        elif how == "bytes":
            proof = p.st.prove(p.d) if p.d else p.st.prove()
            ok = v.st.verify(W.NIZK.deserialize(proof.serialize()))
        else:
            ok = W.SigmaProtocol(v.st.get_verifier(),
                                 p.st.get_prover(p.d) if p.d else p.st.get_prover()).verify()
        return True if ok is True else ok
    except Exception as e:
        return e


def possess(W, rep, ns=(1, 2, 3)):
    msgs = {1: [(0,), (1,), (7,)], 2: [(1, 2), (0, 0), (3, 3)], 3: [(1, 2, 3), (1, 0, 1)],
            5: [(1, 2, 3, 4, 5)]}

    def items():
        for n in ns:
            for ms in msgs[n]:
                for context in CONTEXTS:
                    for binding in (True, False):
                        if not binding and context in ("and dl e s", "same twice"):
                            continue
                        for values in ("ctor", "dict"):
                            for how in ("nizk", "interactive") + (("bytes",) if ms[0] == 1 else ()):
                                yield "possession: %s %s %s %s %s" % (
                                    list(ms), context, "bound" if binding else "unbound", values,
                                    how), (n, ms, context, binding, values, how)

    def fn(cid, item):
        n, ms, context, binding, values, how = item
        kps = keypairs(W, n + 2)

        def body():
            with seams.use(None):
                sigs = [signature(W, kp, ms) for kp in kps]
            p = Case(W, kps, sigs, ms, ms, context, binding, values)
            v = Case(W, kps, sigs, ms, ms, context, binding, None)
            return attempt(W, p, v, how)

        def check(res, ch):
            rep.require(res == ("ok", True), cid, "not accepted: %r" % (res[1],))
            rep.outcome("accepted")

        rep.explore(cid, body, check, deviations=0)

    rep.run(items(), fn)


def surplus(W, rep):
    """A signature on as many messages as the key has room for says nothing about further ones."""
    def items():
        for room in (1, 2, 3):
            for extra in (1, 2, 3):
                for context in ("alone", "and dl m1", "dl m1 and", "and dl all", "or false", "or in and"):
                    if context == "and dl all" and room + extra > 3:
                        continue
                    for binding in (True, False):
                        for how in ("nizk", "interactive"):
                            yield "surplus: %d messages for a key with room for %d, %s %s %s" % (
                                room + extra, room, context, "bound" if binding else "unbound", how), (
                                    room, extra, context, binding, how)

    def fn(cid, item):
        n, extra, context, binding, how = item
        kps = keypairs(W, n)
        room = len(kps[0].pk.generators) - 2
        ms = tuple(range(1, room + 1))
        with quiet(), seams.use(None):
            sigs = [signature(W, kp, ms) for kp in kps]
        for values in ("ctor", "dict"):
            for fill in (0, 4):
                claim = ms + (fill,) * extra
                with quiet(), seams.use(Chooser(default=spread)):
                    try:
                        p = Case(W, kps, sigs, claim, claim, context, binding, values)
                        v = Case(W, kps, sigs, claim, claim, context, binding, None)
                        got = attempt(W, p, v, how)
                    except Exception as e:
                        got = e
                rep.steps += 1
                if not rep.require(got is not True, cid, "accepted"):
                    return
        rep.outcome("refused")

    rep.run(items(), fn)


def forge(W, rep):
    """Each way to lack a valid signature, in each context that needs one."""
    ms = (1, 2, 3)
    other = {"first": (2, 2, 3), "last": (1, 2, 4), "exchanged": (2, 1, 3), "negated": (-1, 2, 3),
             "zero": (0, 2, 3)}
    needs = [c for c in CONTEXTS if c != "or known"]

    def lacks(kps):
        """name -> (signatures, values used by the prover, messages behind the public values, keys)"""
        Sig = W.bbs.BBSPlusSignature
        q = W.order("G1")
        sg = [signature(W, kp, ms) for kp in kps]
        a = sg[0]
        g = kps[0].pk.generators
        for name, o in other.items():
            so = [signature(W, kps[0], o), sg[1]]
            # a signature on other messages
            yield "signature on %s, claims" % name, so, ms, ms
            # true values, public values of other messages
            yield "signature on %s, public values" % name, so, o, ms
            yield "public %s" % name, sg, ms, o
        yield "key", [signature(W, kps[1], ms), sg[1]], ms, ms
        for name, x in (("A negated", Sig(A=-1 * a.A, e=a.e, s=a.s)),
                        ("A doubled", Sig(A=2 * a.A, e=a.e, s=a.s)),
                        ("A+g2", Sig(A=a.A + g[2], e=a.e, s=a.s)),
                        ("A neutral", Sig(A=0 * a.A, e=a.e, s=a.s)),
                        ("e+1", Sig(A=a.A, e=a.e + 1, s=a.s)),
                        ("s+1", Sig(A=a.A, e=a.e, s=a.s + 1)),
                        ("e zero", Sig(A=a.A, e=W.bn(0), s=a.s)),
                        ("s zero", Sig(A=a.A, e=a.e, s=W.bn(0))),
                        ("exchanged", Sig(A=a.A, e=a.s, s=a.e)),
                        ("zeros", Sig(A=0 * a.A, e=W.bn(0), s=W.bn(0))),
                        ("A=g0", Sig(A=g[0], e=W.bn(0), s=W.bn(0))),
                        ("presigned", Sig(A=a.A, e=a.e, s=a.s - 7))):
            yield name, [x, sg[1]], ms, ms

    with quiet(), seams.use(None):
        kps = keypairs(W, 5)
        table = list(lacks(kps))

    def items():
        for i, (name, sigs, vals, pub) in enumerate(table):
            for context in needs:
                if name.endswith("public values") or name.startswith("public "):
                    if context not in ("and dl m1", "dl m1 and", "and dl all", "range", "in GT"):
                        continue
                    o = vals if vals != ms else pub
                    if o[0] == ms[0] and context != "and dl all":
                        continue
                if name == "key" and context == "and dl e s":
                    pass
                for binding in (True, False):
                    if not binding and context in ("and dl e s", "same twice"):
                        continue
                    for how in ("nizk", "interactive"):
                        yield "lack: %s, %s %s %s" % (
                            name, context, "bound" if binding else "unbound", how), (
                            sigs, vals, pub, context, binding, how)

    def fn(cid, item):
        sigs, vals, pub, context, binding, how = item
        with quiet(), seams.use(None):
            v = Case(W, kps, sigs, ms, pub, context, binding, None)
            try:
                p = Case(W, kps, sigs, vals, pub, context, binding, "ctor")
                ok = attempt(W, p, v, how)
            except Exception as e:
                ok = e
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        rep.require(ok is not True, cid, "accepted")
        rep.outcome("not accepted")

    rep.run(items(), fn)


def malformed(W, rep):
    """Precommitments of other shapes or with elements of other kinds, for any answer that could fit."""
    ms = (1, 2)
    g2p = W.base("h", "G2")
    values = {"none": None, "number": W.bn(1), "zero": W.bn(0), "list": [], "text": "x",
              "G2": g2p, "GT": W.base("h", "GT"), "other group": W.base("h", 0),
              "neutral of another group": W.group(0).infinite(),
              "neutral of G2": W.group("G2").infinite(), "neutral of GT": W.group("GT").infinite()}

    def items():
        for link in (False, True):
            for name in values:
                for fields in (("A1",), ("A2",), ("A1", "A2"), ()):
                    yield "malformed: %s for %s%s" % (
                        name, "and ".join(fields) or "all", " linked" if link else ""), (
                        link, name, fields)
            for name in ("without A1", "without A2", "empty", "as list"):
                yield "malformed: %s%s" % (name, " linked" if link else ""), (link, name, None)

    def fn(cid, item):
        link, name, fields = item
        kps = keypairs(W, 4)
        with quiet(), seams.use(None):
            sig = signature(W, kps[0], ms)
            context = "and dl m1" if link else "alone"

            def case(v):
                return Case(W, kps, [sig, sig], ms, ms, context, True, v)

            p = case("ctor").st.prove()
            bb = p.precommitment[0] if link else p.precommitment
            if fields is None:
                x = {"without A1": {"A2": bb["A2"]}, "without A2": {"A1": bb["A1"]}, "empty": {},
                     "as list": [bb["A1"], bb["A2"]]}[name]
            elif fields:
                x = dict(bb, **{f: values[name] for f in fields})
            else:
                x = values[name]
            pre = [x, None] if link else x
            rs = p.responses
            zero = [alter.put(rs, q_, W.bn(0)) for q_, _ in adv.slots(rs)][:1]
            for c, r in ((int(p.challenge), rs), (0, rs), (1, rs)):
                ok = adv.answer(W, case(None).st, pre, c, r)
                rep.require(ok is not True, cid, "accepted interactively")
                try:
                    ok = case(None).st.verify(W.NIZK(challenge=W.bn(c), responses=r,
                                                     precommitment=pre, stmt_hash=p.stmt_hash))
                except Exception:
                    ok = False
                rep.require(ok is not True, cid, "accepted")
                rep.steps += 2
                if not W.tiny:
                    rep.real_traces += 2
        rep.outcome("not accepted")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    def tiny(bpq, d1, bits=1, q=13, d=1):
        return ["tiny", dict(q=q, d=d, bits=bits, bpq=bpq, d1=d1, d2=1)]

    r = ["real", {}]
    big = 2 ** 31 - 1
    # all keys, all precommitments
    add(tiny(2, 3), "extract", n=1, gammas=[0, 1])
    add(tiny(2, 3), "extract", 2, n=1, gammas=[0, 1], free=True)
    add(tiny(2, 4), "extract", 4, n=2, gammas=[0, 1])
    add(tiny(3, 3), "extract", 8, n=1, gammas=[2], a1="span", a2="all")
    add(tiny(3, 3), "extract", 4, n=1, gammas=[0, 1], a1="span", a2="span")
    add(tiny(3, 4), "extract", 4, n=2, gammas=[2], a1="span", a2="span")
    for l in ("before", "after"):
        add(tiny(2, 4), "extract", 2, n=2, gammas=[1], link=l, a1="span")
        add(tiny(2, 3), "extract", 2, n=1, gammas=[1], link=l, free=True)
    add(r, "possess", 8, ns=[1, 2, 3])
    add(tiny(big, 6, 30, q=big), "possess", 4, ns=[1, 2, 3])
    add(tiny(big, 6, 30, q=big, d=1), "forge", 3)
    add(r, "forge", 8)
    add(tiny(big, 6, 30, q=big, d=1), "forge", 3, flagged=True)
    add(r, "surplus", 2)
    add(tiny(big, 8, 30, q=big, d=1), "surplus")
    add(r, "malformed", 2)
    add(tiny(big, 6, 30, q=big), "malformed")
    if tier == "thorough":
        add(tiny(3, 3), "extract", 16, n=1, gammas=[0, 1, 2], a2="all")
        add(tiny(3, 3), "extract", 16, n=1, gammas=[2], a1="span", a2="span", free=True)
        add(tiny(3, 4), "extract", 16, n=2, gammas=[0, 1, 2], a1="span", a2="all")
        add(tiny(2, 5), "extract", 16, n=3, gammas=[0, 1])
        add(tiny(2, 4), "extract", 16, n=2, gammas=[0, 1], free=True)
        for l in ("before", "after"):
            add(tiny(3, 3), "extract", 16, n=1, gammas=[1, 2], a1="span", a2="all", link=l)
        add(r, "possess", 4, ns=[5])
    return out
