"""
BBS+ issuance and verification.  (1) all message vectors over an alphabet, blinded or not, and all
orders in which two users' issuance sessions can interleave (with creators of their own, or one after
the other on one creator): the signature is valid for exactly the signed messages.  (2) signatures,
their alterations, other keys and all message vectors up to the length of the key: the verdict of
verify_signature is compared with the defining equation (gamma + e) A = g0 + s g1 + sum m_i g_(i+1),
computed with the secret key and without pairings.  (3) blinding proofs: accepted for the commitment
they were made for; every proof against every other commitment, and every alteration, is rejected.
"""
import itertools

from mc import alter, seams
from mc.explore import Chooser, spread
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["generators are independent (a vector-space group), as the hash to the curve is "
               "supposed to ensure", "the draw e = -gamma (probability 1/q), for which no signature "
               "exists, is excused"]

_KEYS = {}


def keypair(W, n, which=0):
    if (n, which) not in _KEYS:
        with quiet(), seams.use(None):
            for _ in range(which + 1):
                kp = W.bbs.BBSPlusKeypair.generate(W.bp, n)
            _KEYS[n, which] = kp
    return _KEYS[n, which]


def defining(W, kp, sig, ms):
    """The defining equation, with the secret key."""
    g = kp.generators
    if len(ms) + 2 > len(g):
        return False
    q = W.order("G1")
    lhs = W.bn((int(kp.sk.gamma) + int(sig.e)) % q) * sig.A
    rhs = g[0] + W.bn(int(sig.s) % q) * g[1]
    for m, x in zip(ms, g[2:]):
        rhs = rhs + W.bn(int(m) % q) * x
    return lhs == rhs


def trim(ms, q):
    ms = [int(m) % q for m in ms]
    while ms and ms[-1] == 0:
        ms.pop()
    return ms


def verdict(kp, sig, ms):
    try:
        return sig.verify_signature(kp.pk, list(ms))
    except Exception as e:
        return e


def issue(W, kp, ms, zkp, creator=None):
    cr = creator or W.bbs.BBSPlusSignatureCreator(kp.pk)
    com = cr.commit(list(ms), zkp=zkp)
    return cr, com


def vectors(alphabet, lengths):
    for n in lengths:
        yield from itertools.product(alphabet, repeat=n)


def alpha(W, full=False):
    q = W.order("G1")
    if W.tiny and full:
        return list(range(q))
    return [0, 1, 2, q - 1, q + 1] if not W.tiny else [0, 1, 2, q + 1]


def no_inverse(e):
    """petlib's answer for gamma + e = 0."""
    return type(e) is Exception and "unknown error" in str(e).lower()


def unlucky(W, kp, sig):
    return (int(kp.sk.gamma) + int(sig.e)) % W.order("G1") == 0


# -- issuance ------------------------------------------------------------------------------------
def single(W, rep, lengths, n=3):
    kp = keypair(W, n)
    q = W.order("G1")
    others = list(vectors([0, 1, 2], range(0, n + 1)))

    def items():
        for ms in vectors(alpha(W), lengths):
            for zkp in (True, False):
                yield "issue %s %s" % (list(ms), "blinded" if zkp else "plain"), (ms, zkp)
        yield "issue negative blinded", ((-1, -2), True)
        yield "issue huge", ((10 ** 80, 2 ** 300), True)

    def fn(cid, item):
        ms, zkp = item
        bs = [W.bn(m) for m in ms]

        def body():
            cr, com = issue(W, kp, bs, zkp)
            if zkp:
                rep.require(com.verify_blinding(kp.pk) is True, cid, "blinding proof not accepted")
            else:
                try:
                    bad = com.verify_blinding(kp.pk)
                except Exception:
                    bad = None
                rep.require(bad is not True, cid, "a missing blinding proof is accepted")
            pre = kp.sk.sign(com.com_message)
            sig = cr.obtain_signature(pre)
            return sig, pre, com

        def check(res, ch):
            if res[0] == "exc":
                if W.tiny and no_inverse(res[1]):
                    rep.excused += 1
                    return
                rep.violation(cid, "unexpected %s: %s" % (type(res[1]).__name__, res[1]))
                return
            sig, pre, com = res[1]
            if unlucky(W, kp, sig):
                rep.excused += 1
                return
            rep.require(verdict(kp, sig, bs) is True, cid, "the signature is not valid")
            rep.require(defining(W, kp, sig, bs), cid, "the signature is no signature")
            rep.outcome("valid")
            for o in others if W.tiny or ch.pos == 0 and not rep.samples else others[:8]:
                ok = verdict(kp, sig, [W.bn(x) for x in o]) is True
                rep.steps += 1
                same = trim(o, q) == trim(ms, q)
                rep.require(ok == same, cid, "%s for %s" % ("valid" if ok else "not valid", list(o)))
                rep.outcome("valid" if ok else "not valid")
            if len(ms) > 1 and trim(ms[::-1], q) != trim(ms, q):
                rep.require(verdict(kp, sig, bs[::-1]) is not True, cid, "valid for another order")

        def count(st):
            rep.sample(case=cid, executions=st.executions)

        count(rep.explore(cid, body, check, deviations=1 if W.tiny else 0, max_execs=60))

    rep.run(items(), fn)


def overlong(W, rep):
    """Messages that do not fit the key: no signature comes out that is valid for some of them."""
    def items():
        for n in (0, 1, 2):
            for extra in (1, 2, 3):
                for zkp in (True, False):
                    yield "%d messages too many for a key for %d, %s" % (
                        extra, n, "blinded" if zkp else "plain"), (n, extra, zkp)

    def fn(cid, item):
        n, extra, zkp = item
        kp = keypair(W, n)
        ms = [W.bn(m + 1) for m in range(len(kp.generators) - 2 + extra)]
        with quiet(), seams.use(Chooser(default=spread)):
            try:
                cr, com = issue(W, kp, ms, zkp)
                sig = cr.obtain_signature(kp.sk.sign(com.com_message))
            except Exception:
                rep.outcome("refused")
                return
            for k in range(len(ms) + 1):
                rep.require(verdict(kp, sig, ms[:k]) is not True, cid,
                            "the signature is valid for the first %d messages" % k)
        rep.outcome("signature for nothing")

    rep.run(items(), fn)


def histories(W, rep, users=2):
    """All interleavings of issuance sessions, and sequences on one creator."""
    kp = keypair(W, 3)
    q = W.order("G1")
    plans = [((1, 2), True), ((2, 1), False), ((3,), True), ((), True), ((2, 0, 1), True)]
    STEPS = ("commit", "sign", "obtain")

    def orders(k):
        """Interleavings of k sessions of three steps."""
        def rec(left):
            if not any(left):
                yield ()
                return
            for i in range(k):
                if left[i]:
                    l = list(left)
                    l[i] -= 1
                    for r in rec(tuple(l)):
                        yield (i,) + r
        yield from rec((3,) * k)

    def items():
        pairs = list(itertools.permutations(range(len(plans)), users)) + [(0,) * users, (1,) * users]
        for ps in pairs if users == 2 else pairs[::7]:
            for o in orders(users):
                yield "own creators %s order %s" % (ps, "".join(map(str, o))), ("own", ps, o)
        for ps in itertools.product(range(len(plans)), repeat=3):
            yield "one creator, in turn %s" % (ps,), ("turn", ps, None)
        for ps in itertools.product(range(len(plans)), repeat=2):
            yield "one creator, last commitment %s" % (ps,), ("last", ps, None)
            yield "two signatures on one commitment %s" % (ps,), ("twice", ps, None)

    def fn(cid, item):
        kind, ps, order = item
        sessions = [plans[p] for p in ps]

        def body():
            sigs = []
            if kind == "own":
                st = [{} for _ in sessions]
                for i in order:
                    ms, zkp = sessions[i]
                    s = st[i]
                    if "com" not in s:
                        s["cr"], s["com"] = issue(W, kp, [W.bn(m) for m in ms], zkp)
                    elif "pre" not in s:
                        if zkp and s["com"].verify_blinding(kp.pk) is not True:
                            raise Exception("blinding proof not accepted")
                        s["pre"] = kp.sk.sign(s["com"].com_message)
                    else:
                        sigs.append((s["cr"].obtain_signature(s["pre"]), ms))
            elif kind == "turn":
                cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
                for ms, zkp in sessions:
                    _, com = issue(W, kp, [W.bn(m) for m in ms], zkp, cr)
                    sigs.append((cr.obtain_signature(kp.sk.sign(com.com_message)), ms))
            elif kind == "last":
                cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
                for ms, zkp in sessions:
                    _, com = issue(W, kp, [W.bn(m) for m in ms], zkp, cr)
                sigs.append((cr.obtain_signature(kp.sk.sign(com.com_message)), ms))
            else:
                ms, zkp = sessions[0]
                cr, com = issue(W, kp, [W.bn(m) for m in ms], zkp)
                a, b = kp.sk.sign(com.com_message), kp.sk.sign(com.com_message)
                sigs += [(cr.obtain_signature(b), ms), (cr.obtain_signature(a), ms)]
            return sigs

        def check(res, ch):
            if res[0] == "exc":
                if W.tiny and no_inverse(res[1]):
                    rep.excused += 1
                    return
                rep.violation(cid, "unexpected %s: %s" % (type(res[1]).__name__, res[1]))
                return
            for sig, ms in res[1]:
                if unlucky(W, kp, sig):
                    rep.excused += 1
                    continue
                rep.require(verdict(kp, sig, [W.bn(m) for m in ms]) is True, cid,
                            "the signature on %s is not valid" % (ms,))
                for o, _ in plans:
                    if trim(o, q) != trim(ms, q):
                        rep.require(verdict(kp, sig, [W.bn(m) for m in o]) is not True, cid,
                                    "the signature on %s is valid for %s" % (ms, o))
                rep.outcome("valid")

        rep.explore(cid, body, check, deviations=0)

    rep.run(items(), fn)


# -- verification --------------------------------------------------------------------------------
def verify(W, rep, lengths, n=3, full=False):
    kps = [keypair(W, n, i) for i in range(2)]
    q = W.order("G1")
    allm = [list(v) for v in vectors(alpha(W, full), range(0, n + 1))]
    if not W.tiny:
        allm = [v for i, v in enumerate(allm) if i % 9 == 0 or len(v) < 2]

    def signature(kp, ms, zkp):
        with quiet(), seams.use(None):
            while True:
                cr, com = issue(W, kp, [W.bn(m) for m in ms], zkp)
                try:
                    pre = kp.sk.sign(com.com_message)
                except Exception as e:
                    if W.tiny and no_inverse(e):
                        continue
                    raise
                sig = cr.obtain_signature(pre)
                if not unlucky(W, kp, sig):
                    return sig, com

    def variants(kp, sig, com, ms):
        g = kp.generators
        Sig = W.bbs.BBSPlusSignature
        yield "as issued", sig
        for d in (1, -1, 2, q, -q):
            yield "e%+d" % d, Sig(A=sig.A, e=sig.e + W.bn(d), s=sig.s)
            yield "s%+d" % d, Sig(A=sig.A, e=sig.e, s=sig.s + W.bn(d))
        yield "e and s exchanged", Sig(A=sig.A, e=sig.s, s=sig.e)
        yield "A negated", Sig(A=-1 * sig.A, e=sig.e, s=sig.s)
        yield "A doubled", Sig(A=2 * sig.A, e=sig.e, s=sig.s)
        yield "A plus g0", Sig(A=sig.A + g[0], e=sig.e, s=sig.s)
        yield "A plus g1", Sig(A=sig.A + g[1], e=sig.e, s=sig.s + 1)
        yield "A neutral", Sig(A=0 * sig.A, e=sig.e, s=sig.s)
        yield "A = g0", Sig(A=g[0], e=sig.e, s=sig.s)
        yield "A = commitment", Sig(A=com.com_message, e=sig.e, s=sig.s)
        yield "zeros", Sig(A=sig.A, e=W.bn(0), s=W.bn(0))
        yield "all neutral", Sig(A=0 * sig.A, e=W.bn(0), s=W.bn(0))
        # a valid combination: move s into the first message
        other, _ = signature(kp, [m + 1 for m in ms], True)
        yield "A of another", Sig(A=other.A, e=sig.e, s=sig.s)
        yield "e of another", Sig(A=sig.A, e=other.e, s=sig.s)
        yield "s of another", Sig(A=sig.A, e=sig.e, s=other.s)
        yield "mean", Sig(A=sig.A + other.A, e=sig.e + other.e, s=sig.s + other.s)
        if W.tiny and full:
            for v in W.all_points("G1") if W.bp.bpgp.d1 <= 2 else ():
                yield "A = %s" % v.export().hex(), Sig(A=v, e=sig.e, s=sig.s)
            for e, s in itertools.product(range(q), repeat=2):
                yield "e=%d s=%d" % (e, s), Sig(A=sig.A, e=W.bn(e), s=W.bn(s))

    def items():
        for ms in vectors([0, 1, 2] if W.tiny else [0, 7], lengths):
            for zkp in (True, False):
                yield "verify signature on %s %s" % (list(ms), zkp), (list(ms), zkp)

    def fn(cid, item):
        ms, zkp = item
        kp = kps[0]
        with quiet():
            sig, com = signature(kp, ms, zkp)
            for name, sg in variants(kp, sig, com, ms):
                for k, key in enumerate(kps):
                    if k and name != "as issued":
                        continue
                    for o in allm if name == "as issued" else [ms] + allm[::5]:
                        v = verdict(key, sg, [W.bn(x) for x in o])
                        want = defining(W, key, sg, o)
                        rep.steps += 1
                        if not W.tiny:
                            rep.real_traces += 1
                        if isinstance(v, Exception):
                            rep.require(len(o) + 2 > len(key.generators) or not want, cid,
                                        "%r: unexpected %r" % (name, v))
                            v = False
                        if (v is True) != want:
                            rep.violation(cid, "%s, key %d, messages %s: %s, but the equation %s" % (
                                name, k, o, v, "holds" if want else "does not hold"))
                            return
                        rep.outcome("valid" if v else "not valid")
            # too many messages
            for extra in (1, 2):
                o = [W.bn(1)] * (len(kp.generators) - 2 + extra)
                rep.require(verdict(kp, sig, o) is not True, cid, "valid for too many messages")
                o = [W.bn(m) for m in ms] + [W.bn(0)] * (len(kp.generators) - 2 - len(ms)) + \
                    [W.bn(1)] * extra
                rep.require(verdict(kp, sig, o) is not True, cid, "surplus messages ignored")

    rep.run(items(), fn)


# -- blinding proofs -----------------------------------------------------------------------------
def blinding(W, rep, n=3, cross=True):
    kp = keypair(W, n)
    msgs = [[], [0], [1], [1, 2], [2, 1], [1, 0], [0, 1], [1, 2, 3]]
    UCM = W.bbs.UserCommitmentMessage

    def items():
        for m in msgs:
            yield "blinding of %s" % m, m

    def coms():
        with quiet(), seams.use(None):
            return [issue(W, kp, [W.bn(x) for x in m], True)[1] for m in msgs] + \
                [issue(W, kp, [W.bn(x) for x in m], True)[1] for m in msgs[:4]]

    def judge(cid, what, com, proof, same=False):
        try:
            ok = UCM(com_message=com, com_nizk_proof=proof).verify_blinding(kp.pk) is True
        except Exception:
            ok = False
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        if same:
            rep.require(ok, cid, "%s: not accepted" % what)
        else:
            rep.require(not ok, cid, "%s: accepted" % what)
        rep.outcome("accepted" if ok else "rejected")

    def fn(cid, m):
        with quiet():
            cs = coms()
            i = msgs.index(m)
            c = cs[i]
            p = c.com_nizk_proof
            judge(cid, "honest", c.com_message, p, True)
            for j, d in enumerate(cs):
                if d.com_message != c.com_message:
                    judge(cid, "the proof of commitment %d" % j, c.com_message, d.com_nizk_proof)
            g = kp.generators
            for name, x in [("+g%d" % k, c.com_message + h) for k, h in enumerate(g)] + [
                    ("negated", -1 * c.com_message), ("doubled", 2 * c.com_message),
                    ("neutral", 0 * c.com_message), ("g0", g[0]), ("g1", g[1])]:
                if x != c.com_message:
                    judge(cid, "commitment %s" % name, x, p)
            q, space = W.order("G1"), 1 << (W.bits if W.tiny else 128)
            fields = alter.as_dict(p)
            for path, v in list(alter.sites(fields)):
                if not path:
                    continue
                if path == ("precommitment",):
                    continue
                for name, new, same in alter.alterations(W, v, [q], space):
                    if same or path[0] == "challenge" and (int(new) - int(v) if alter.is_num(new)
                                                           else 1) == 0:
                        continue
                    judge(cid, "%s %s" % (path, name), c.com_message,
                          W.NIZK(**alter.put(fields, path, new)))
            # a serialized trip
            judge(cid, "serialized", c.com_message, W.NIZK.deserialize(p.serialize()), True)
            # without a proof
            try:
                ok = UCM(com_message=c.com_message).verify_blinding(kp.pk) is True
            except Exception:
                ok = False
            rep.require(not ok, cid, "accepted without a proof")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    def tiny(bpq, d1, bits=3, q=13):
        return ["tiny", dict(q=q, d=1, bits=bits, bpq=bpq, d1=d1, d2=1)]

    r = ["real", {}]
    big = 2 ** 31 - 1
    add(r, "single", 4, lengths=[0, 1, 2], n=3)
    add(r, "single", 2, lengths=[3], n=3)
    add(r, "histories", 4)
    add(r, "verify", 2, lengths=[1, 2])
    add(r, "blinding", 2)
    add(tiny(11, 6), "single", 2, lengths=[0, 1, 2, 3])
    add(tiny(5, 6, 2), "single", lengths=[0, 1, 2])
    add(tiny(101, 6), "histories", 2)
    add(tiny(5, 6, 2), "verify", 4, lengths=[0, 1, 2, 3])
    add(tiny(3, 5, 1), "verify", 2, lengths=[0, 1, 2], n=2, full=True)
    add(tiny(3, 2, 1), "verify", 2, lengths=[0, 1, 2], n=2, full=True)
    add(r, "overlong")
    # luck cannot matter here
    add(tiny(big, 8, 30, q=big), "overlong")
    add(tiny(big, 6, 30, q=big), "blinding", 2)
    if tier == "thorough":
        add(tiny(101, 6), "histories", 8, users=3)
        add(tiny(7, 6, 2), "verify", 16, lengths=[0, 1, 2, 3], full=True)
        add(r, "single", 8, lengths=[3])
        add(r, "verify", 8, lengths=[0, 1, 2, 3])
    return out
