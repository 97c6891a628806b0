"""
Proofs of inequality of discrete logarithms.  (1) honest: all values of both logarithms, of what the
prover believes, and all blinders: accepted exactly if the belief is right and the logarithms differ.
(2) adversaries: every pair of left-hand sides, every precommitment, all responses to all challenges
against the real verifier; a false statement may have no first message with two answers; true ones
must have one.  In the binding form together with a second statement about the same secret.
(3) provers that run honestly for equal logarithms, or send the neutral element, in all contexts.
"""
import itertools

from mc import adv, alter, gen, seams, spec as S
from mc.explore import Scripted, spread
from mc.gen import dl, sid
from mc.harness import HarnessError, flatten, has_infinite, quiet, shards

ASSUMPTIONS = ["a precommitment that is neutral because the blinder drawn is zero (probability 1/q) "
               "makes an honest run fail; these draws are excused"]


def stmt(W, g, h, H0, H1, x, bind, grp=0):
    return W.DLNE((H0, W.base(g, grp)), (H1, W.base(h, grp)), x, bind=bind)


def honest(W, rep, grp=0):
    q = W.order(grp)
    vals = list(range(q)) if W.tiny else [0, 1, 2, q - 1, q // 2]
    # all beliefs in the tiny group; right ones and a wrong one otherwise
    def items():
        for bind in (False, True):
            for x in vals:
                for y in vals:
                    for bel in (vals if W.tiny else [x, (x + 1) % q]):
                        for how in ("nizk", "interactive", "later"):
                            if how != "nizk" and not W.tiny and y not in (x, 2):
                                continue
                            yield "%sx=%d y=%d believed %d %s group %s" % (
                                "bound " if bind else "", x, y, bel, how, grp), (bind, x, y, bel, how)

    def fn(cid, item):
        bind, x, y, bel, how = item
        H0, H1 = W.lin([(x, "g")], grp), W.lin([(y, "h")], grp)

        def body():
            sec = W.Secret(value=None if how == "later" else W.bn(bel))
            ps = stmt(W, "g", "h", H0, H1, sec, bind, grp)
            vs = stmt(W, "g", "h", H0, H1, W.Secret(), bind, grp)
            if how != "interactive":
                p = ps.prove({sec: W.bn(bel)}) if how == "later" else ps.prove()
                inf = has_infinite(W, p.precommitment)
                try:
                    return vs.verify(p), inf
                except Exception as e:
                    return e, inf
            prover, verifier = ps.get_prover(), vs.get_verifier()
            pre = prover.precommit()
            inf = has_infinite(W, pre)
            try:
                verifier.process_precommitment(pre)
                c = verifier.send_challenge(prover.commit())
                return verifier.verify(prover.compute_response(c)), inf
            except Exception as e:
                return e, inf

        good = x == bel and x != y

        def check(res, ch):
            ok = res[0] == "ok" and res[1][0] is True
            inf = res[0] == "ok" and res[1][1]
            if good:
                if not ok and inf and W.tiny:
                    rep.excused += 1
                    return
                rep.require(ok, cid, "not accepted: %r" % (res[1],))
                rep.require(not inf, cid, "the neutral element was accepted")
                rep.outcome("accepted")
            else:
                if x != bel and ok and W.tiny:
                    # A wrong belief can be lucky in a tiny group (a challenge of zero, say): what
                    # counts is the enumeration of challenges and responses below.
                    rep.outcome("lucky")
                    return
                rep.require(not ok, cid, "accepted although the statement is false")
                rep.outcome("not accepted")

        rep.explore(cid, body, check, deviations=1 if W.tiny else 0)

    rep.run(items(), fn)


# -- adversaries ---------------------------------------------------------------------------------
def cheat(W, rep, bind, bases=(("g", "h"),), ext=False, lhs="all"):
    """
    All left-hand sides, precommitments, challenges and responses.  ext: in a conjunction with a
    representation of the same secret (only the binding form speaks about it).
    """
    q = W.q
    space = list(range(1 << W.bits))
    points = list(W.all_points())
    sides = points if lhs == "all" else [W.lin([(i, b)]) for i in range(q) for b in ("g",)]
    sides1 = points if lhs == "all" else [W.lin([(i, b)]) for i in range(q) for b in ("h",)]
    numbers = [W.bn(i) for i in range(q)]

    def items():
        for g, h in bases:
            for i, H0 in enumerate(sides):
                for j, H1 in enumerate(sides1):
                    for k in range(q) if ext else (None,):
                        yield "adversary: %s%s %s %d %d%s" % (
                            "bound " if bind else "", g, h, i, j,
                            "" if k is None else " and %d k" % k), (g, h, H0, H1, k)

    def build(g, h, H0, H1, k):
        x = W.Secret()
        st = stmt(W, g, h, H0, H1, x, bind)
        if k is None:
            return st
        return W.And(st, W.DLRep(W.lin([(k, "g")]), x * W.base("g"))) if ext == "before" else \
            W.And(W.DLRep(W.lin([(k, "g")]), x * W.base("g")), st)

    def fn(cid, item):
        g, h, H0, H1, k = item
        G, H = W.base(g), W.base(h)

        def sat(x):
            return W.bn(x) * G == H0 and W.bn(x) * H != H1 and (
                k is None or not bind or W.lin([(x, "g")]) == W.lin([(k, "g")]))

        true = any(sat(x) for x in range(q))
        if k is not None and not bind:
            raise HarnessError("only the binding form")
        with quiet(), seams.use(None):
            tr = build(g, h, H0, H1, k).simulate()
        cnt = [0]
        answered = usable = 0
        with quiet():
            pres = list(adv.fillings(tr.precommitment, points, numbers)) + [
                p for p in adv.reshaped(tr.precommitment)]
            for p in pres:
                st = build(g, h, H0, H1, k)
                two = adv.two_answers(W, st, p, tr.responses, q, space, cnt)
                if two:
                    answered += 1
                    if not true:
                        rep.violation(cid, "a false statement can be proven", precommitment=repr(p),
                                      answers=two)
                        return
                    if has_infinite(W, p):
                        rep.violation(cid, "the neutral element is accepted as precommitment",
                                      answers=two)
                        return
        rep.steps += cnt[0]
        rep.outcome("true" if true else "false")
        if true:
            rep.require(answered, cid, "a true statement has no first message with two answers")
        rep.sample(case=cid, runs=cnt[0], answered=answered, true=true)

    rep.run(items(), fn)


# -- provers for equal logarithms in all contexts ------------------------------------------------
def contexts(E):
    l, m = dl(("y", "k")), dl(("z", "g"))
    yield E, "E"
    yield ("and", E, l), "and"
    yield ("and", l, E), "and2"
    yield ("or", E, l), "or"
    yield ("or", l, E), "or2"
    yield ("and", ("or", E, m), l), "or in and"
    yield ("or", ("and", m, E), l), "and in or"
    yield ("and", ("and", m, E), l), "and in and"
    yield ("or", l, ("or", m, E)), "or in or"
    yield ("and", E, E), "twice"
    yield ("or", E, E), "either"
    if E[5]:
        yield ("and", E, dl((E[1], "k"))), "bound"
        yield ("and", dl((E[1], "k"), (E[1], "m")), E), "bound2"


def equal(W, rep):
    """The prover is honest but for the statement being false; nothing else it could prove is known."""
    vals = range(5) if W.tiny else (0, 1, 7)

    def items():
        for bind in (False, True):
            for x in vals:
                E = ("ne", "x", "g", "h", x, bind, 0)
                for s, name in contexts(E):
                    for how in ("nizk", "interactive"):
                        for pre in ("own", "generator", "negated", "neutral", "sum"):
                            yield "equal: %sx=%d %s %s precommitment %s" % (
                                "bound " if bind else "", x, name, how, pre), (s, x, how, pre)
                # the same with unequal logarithms: shows that the harness can succeed
                for s, name in contexts(E[:4] + (x + 1,) + E[5:]):
                    for how in ("nizk", "interactive"):
                        yield "unequal: %sx=%d %s %s" % (
                            "bound " if bind else "", x, name, how), (s, x, how, "control")

    def fn(cid, item):
        s, x, how, which = item
        know = {"x"}
        if s[0] == "and":
            know.add("y")
        if any(c[0] == "and" for c in s[1:] if isinstance(c, tuple) and c):
            know.add("z")
        truth = {"x": x, "y": 2, "z": 3}

        def swap(pre):
            """Another precommitment, wherever the prover sends one."""
            for p, v in list(alter.sites(pre)):
                if alter.is_point(v):
                    g = W.base("g")
                    new = {"own": v, "generator": g, "negated": -1 * v, "neutral": g - g,
                           "sum": v + g, "control": v}[which]
                    pre = alter.put(pre, p, new)
            return pre

        with quiet(), seams.use(None):
            ps = S.Build(W, truth, know).stmt(s)
            vs = S.Build(W, truth, ()).stmt(s)
            try:
                if how == "nizk":
                    p = ps.prove()
                    ok = vs.verify(W.NIZK(**dict(alter.as_dict(p),
                                                 precommitment=swap(p.precommitment))))
                else:
                    prover, verifier = ps.get_prover(), vs.get_verifier()
                    pre = prover.precommit()
                    verifier.process_precommitment(swap(pre))
                    _, com = prover.commit()
                    c = verifier.send_challenge((vs.prehash_statement().digest(), com))
                    ok = verifier.verify(prover.compute_response(c))
            except Exception:
                ok = False
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        if which == "control":
            rep.require(ok is True, cid, "not accepted although the logarithms differ")
            rep.outcome("accepted")
            return
        rep.require(ok is not True, cid, "accepted although the logarithms are equal")
        rep.outcome("rejected")

    rep.run(items(), fn)


def malformed(W, rep):
    """Precommitments of other kinds than a point of the right group."""
    def items():
        for bind in (False, True):
            for name, f in (("none", lambda: None), ("number", lambda: W.bn(1)),
                            ("list", lambda: [W.base("g")]), ("empty list", lambda: []),
                            ("bytes", lambda: b"x"), ("text", lambda: "x"),
                            ("zero", lambda: W.bn(0)), ("other group", lambda: W.base("g", 2)),
                            ("pairing group", lambda: W.base("g", "G1")),
                            ("neutral of another group", lambda: W.group(2).infinite()),
                            ("neutral of a pairing group", lambda: W.group("G1").infinite()),
                            ("neutral", lambda: W.group(0).infinite())):
                for eq in (True, False):
                    yield "malformed: %s%s %s" % ("bound " if bind else "", name,
                                                  "equal" if eq else "unequal"), (bind, f, eq)

    def fn(cid, item):
        bind, f, eq = item
        s = ("ne", "x", "g", "h", 2 if eq else 3, bind, 0)
        with quiet(), seams.use(None):
            p = S.Build(W, {"x": 2}, {"x"}).stmt(s).prove()
            zero = W.NIZK(**alter.as_dict(p))
            for c, rs in ((p.challenge, p.responses), (W.bn(0), p.responses)):
                vs = S.Build(W, {"x": 2}, ()).stmt(s)
                try:
                    ok = vs.verify(W.NIZK(challenge=c, responses=rs, precommitment=f(),
                                          stmt_hash=p.stmt_hash))
                except Exception:
                    ok = False
                rep.require(ok is not True, cid, "accepted")
                # interactively, against the own hash, with a first message that fits
                vs = S.Build(W, {"x": 2}, ()).stmt(s)
                ok = adv.answer(W, vs, f(), 1, rs)
                rep.require(ok is not True, cid, "accepted interactively")
                rep.steps += 2
                if not W.tiny:
                    rep.real_traces += 2
        rep.outcome("rejected")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    def tiny(q, d, bits):
        return ["tiny", dict(q=q, d=d, bits=bits)]

    r = ["real", {}]
    for g in (0, 2, "G1", "G2"):
        add(r, "honest", grp=g)
    add(tiny(5, 1, 2), "honest", 2)
    add(tiny(7, 1, 2), "honest", 4)
    # all logarithms exist
    for bind in (False, True):
        add(tiny(3, 1, 1), "cheat", bind=bind, bases=[["g", "h"], ["g", "g"], ["h", "g"]])
        add(tiny(5, 1, 1), "cheat", 4 if bind else 2, bind=bind, lhs="some",
            bases=[["g", "h"]] + ([] if bind else [["g", "g"]]))
        # independent bases: a logarithm need not exist
        add(tiny(2, 2, 1), "cheat", 2, bind=bind, bases=[["g", "h"], ["g", "g"]])
    add(tiny(3, 2, 1), "cheat", 4, bind=False, bases=[["g", "h"]])
    add(tiny(3, 2, 1), "cheat", 2, bind=True, bases=[["g", "h"]], lhs="some")
    for e in ("before", "after"):
        add(tiny(3, 1, 1), "cheat", 2, bind=True, ext=e)
        add(tiny(3, 2, 1), "cheat", 4, bind=True, ext=e, lhs="some")
    # a challenge space in which luck cannot matter
    add(tiny(2 ** 31 - 1, 4, 30), "equal", 2)
    add(r, "equal", 4)
    add(r, "equal", 4, flagged=True)
    add(tiny(3, 1, 1), "cheat", bind=False, bases=[["g", "h"]], flagged=True)
    add(tiny(3, 1, 1), "cheat", bind=True, bases=[["g", "h"]], flagged=True)
    add(tiny(7, 1, 2), "honest", 2, flagged=True)
    add(r, "malformed")
    add(tiny(11, 4, 3), "malformed")
    if tier == "thorough":
        add(tiny(3, 2, 1), "cheat", 16, bind=True, bases=[["g", "h"], ["g", "g"]])
        add(tiny(3, 2, 1), "cheat", 16, bind=False, bases=[["g", "h"], ["g", "g"], ["h", "g"]])
        add(tiny(5, 1, 2), "cheat", 16, bind=True, bases=[["g", "h"], ["g", "g"]], lhs="some")
        add(tiny(5, 1, 2), "cheat", 8, bind=False, bases=[["g", "h"], ["h", "g"]], lhs="some")
        add(tiny(7, 1, 2), "cheat", 16, bind=False, lhs="some")
        add(tiny(11, 1, 2), "honest", 8)
    return out
