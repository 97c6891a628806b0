"""
Range proofs.  (1) honest: all bounds of a window and all values around them, power-two ranges and
general ones, in tiny groups and (at the boundaries of many widths and offsets) on the real libraries:
accepted inside, nothing accepted outside.  (2) adversaries: over groups in which commitments are
binding, every precommitment of the right shape and many of wrong shapes is sent for every committed
value; when the verifier can accept any run with it, then either all responses to all challenges are
enumerated (no first message may have two answers if the value is outside), or the truth of the
constructed statement is decided by brute force over its secrets.  (3) proofs for one commitment,
with every revealed randomizer, against another commitment, in all contexts.
"""
import itertools

from mc import adv, alter, gen, seams, spec as S
from mc.explore import Scripted, spread
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["2^bits is below the group order", "the two bases of a commitment are independent"]


def com(W, v, r, grp=0):
    return W.lin([(v, "g"), (r, "h")], grp)


def make(W, kind, bounds, v, r, known=True, named=False, ints=False, of=None):
    """The statement; `of`: the commitment it is about, if not to (v, r)."""
    num = (lambda x: x) if ints else W.bn
    kw = lambda n, x: dict(name=n if named else None, value=num(x) if known else None)
    x, rr = W.Secret(**kw("value", v)), W.Secret(**kw("rand", r))
    c = com(W, *(of or (v, r)))
    if kind == "p2":
        return W.P2(c, W.base("g"), W.base("h"), bounds[0], x, rr)
    return W.Range(c, W.base("g"), W.base("h"), num(bounds[0]), num(bounds[1]), x, rr)


def inside(kind, bounds, v):
    return 0 <= v < 2 ** bounds[0] if kind == "p2" else bounds[0] <= v < bounds[1]


def honest(W, rep, kind, which):
    def items():
        if kind == "p2":
            if W.tiny:
                for n in (1, 2, 3):
                    for v in range(-3, 12):
                        for r in (0, 1, 5):
                            yield (n,), v, r, "nizk"
                            yield (n,), v, r, "interactive"
            else:
                for n in (1, 2, 3, 5, 8, 17, 32, 63, 64, 65, 100) if which == "edges" else ():
                    for v in sorted({-1, 0, 1, 2 ** n // 2, 2 ** n - 1, 2 ** n, 2 ** n + 1}):
                        yield (n,), v, 12345 + v, "nizk" if v % 2 else "interactive"
                for n in (1, 2, 3) if which == "window" else ():
                    for v in range(-2, 10):
                        yield (n,), v, v * v, "nizk"
        elif W.tiny or which == "window":
            for a in range(-4, 5) if W.tiny else (-3, 0, 2):
                for b in range(a - 1, a + 7 if W.tiny else a + 6):
                    for v in range(a - 3, b + 3):
                        yield (a, b), v, (3 * v + b) % 7, "interactive" if (a + b + v) % 3 == 0 \
                            else "nizk"
        else:
            for w in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100, 255, 256, 257, 2 ** 16, 2 ** 16 + 1):
                for a in (0, 1, -1, -w, -(w // 2), 10 ** 6):
                    for v in sorted({a - 1, a, a + w // 2, a + w - 1, a + w}):
                        if W.tiny or w < 10 or a in (0, -w):
                            yield (a, a + w), v, 99 - v, "nizk"
            for a, b in ((0, 2 ** 32 - 1), (2 ** 63 - 2, 2 ** 63 + 3), (-2 ** 64, -2 ** 64 + 5),
                         (10 ** 30, 10 ** 30 + 6), (-2 ** 40, 2 ** 40 + 1), (18, 120)):
                for v in sorted({a - 1, a, (a + b) // 2, b - 1, b}):
                    yield (a, b), v, 5, "nizk"

    def ids():
        for b, v, r, how in items():
            yield "%s %s value %d rand %d %s" % (kind, b, v, r, how), (b, v, r, how)

    def fn(cid, item):
        bounds, v, r, how = item
        ok_in = inside(kind, bounds, v)
        styles = [(False, False)]
        if W.tiny and how == "nizk":
            styles = [(False, False), (True, False), (False, True)]
        elif all(abs(x) < 2 ** 31 for x in bounds + (v, r)) and v % 2:
            styles = [(True, True)]
        for named, ints in styles:
            def body():
                ps = make(W, kind, bounds, v, r, named=named, ints=ints)
                vs = make(W, kind, bounds, v, r, known=False, ints=ints)
                if how == "nizk":
                    return vs.verify(ps.prove(message="m"), message="m")
                prover, verifier = ps.get_prover(), vs.get_verifier()
                return W.SigmaProtocol(verifier, prover).verify()

            def check(res, ch):
                if ok_in:
                    if res != ("ok", True):
                        rep.violation(cid, "not accepted: %r" % (res[1],))
                    rep.outcome("accepted inside")
                else:
                    if res[0] == "ok" and res[1] is True:
                        rep.violation(cid, "accepted outside of the range")
                    rep.outcome("none outside")

            rep.explore(cid, body, check, deviations=1 if W.tiny and ok_in and kind == "p2" else 0,
                        max_execs=60)

    rep.run(ids(), fn)


def only(W, rep):
    """RangeOnlyStmt: it makes its own commitment."""
    def items():
        for a in (-3, 0, 2, 18):
            for w in (1, 2, 3, 4, 5, 7):
                for v in range(a - 2, a + w + 2):
                    yield "only [%d, %d) value %d" % (a, a + w, v), (a, a + w, v)

    def fn(cid, item):
        a, b, v = item

        def body():
            st = W.RangeOnly(a, b, W.Secret(value=W.bn(v)))
            return st.verify(st.prove())

        def check(res, ch):
            if a <= v < b:
                rep.require(res == ("ok", True), cid, "not accepted: %r" % (res[1],))
                rep.outcome("accepted inside")
            else:
                rep.require(res != ("ok", True), cid, "accepted outside of the range")
                rep.outcome("none outside")

        rep.explore(cid, body, check, deviations=0)

    rep.run(items(), fn)


# -- adversaries ---------------------------------------------------------------------------------
def shape_of(W, kind, bounds):
    """An honest precommitment and the responses that go with it."""
    v = 0 if kind == "p2" else bounds[0]
    with quiet(), seams.use(None):
        st = make(W, kind, bounds, v, 1)
        tr = st.simulate()
    return tr.precommitment, tr.responses


def simulated(W, stmt, q):
    return stmt.simulate_proof(challenge=W.bn(1))


def cheat(W, rep, kind, bounds, values=None, rs=None, wrong=True, slim=False):
    """Everything an adversary can send, for every committed value: complete enumeration."""
    q = W.q
    space = list(range(1 << W.bits))
    pre0, resp0 = shape_of(W, kind, bounds)
    # slim: without blinding parts, which do not matter to the truth of the bit statements
    points = [com(W, i, 0) for i in range(q)] if slim else list(W.all_points())
    numbers = [W.bn(i) for i in range(q)]

    def items():
        for v in values if values is not None else range(q):
            for r in rs if rs is not None else range(q):
                yield "adversary: %s %s value %d rand %d" % (kind, bounds, v, r), (v, r)

    def fn(cid, item):
        v, r = item
        # a value modulo q is inside if any representative is
        inn = any(inside(kind, bounds, x) for x in range(v - 3 * q, v + 4 * q, q))
        tried = usable = answered = 0
        cnt = [0]

        def todo():
            for p in adv.fillings(pre0, points, numbers):
                yield p
            if wrong:
                for s in adv.reshaped(pre0):
                    if len(adv.slots(s)) <= len(adv.slots(pre0)) + 1:
                        few = points if len(adv.slots(s)) < 3 else points[::2] + points[-1:]
                        yield from adv.fillings(s, few, numbers)

        with quiet():
            for p in todo():
                tried += 1
                st = make(W, kind, bounds, v, r, known=False)
                if not adv.valid_precommitment(W, st, p, lambda s: simulated(W, s, q)):
                    continue
                usable += 1
                st = make(W, kind, bounds, v, r, known=False)
                two = adv.two_answers(W, st, p, resp0, q, space, cnt)
                if two:
                    answered += 1
                    if not inn:
                        rep.violation(cid, "a value outside of the range can be proven",
                                      precommitment=repr(p), answers=two)
                        return
                    if answered >= 2:
                        break
        rep.steps += tried + cnt[0]
        rep.outcome("precommitments tried", tried)
        rep.outcome("precommitments usable", usable)
        rep.require(usable, cid, "no precommitment at all is accepted")
        if inn:
            rep.require(answered, cid, "no way to prove a value inside of the range")
        rep.outcome("inside" if inn else "outside")
        rep.sample(case=cid, tried=tried, usable=usable, runs=cnt[0])

    rep.run(items(), fn)


def constructed(W, rep, kind, bound_list):
    """
    Larger ranges: all value parts of the bit commitments (their blinding parts do not matter to the
    truth of the statement), all revealed randomizers; truth of the constructed statement by brute
    force.
    """
    q = W.q
    numbers = [W.bn(i) for i in range(q)]

    def items():
        for bounds in bound_list:
            bounds = tuple(bounds)
            for v in range(q):
                yield "constructed: %s %s value %d" % (kind, bounds, v), (bounds, v)

    def fn(cid, item):
        bounds, v = item
        r = 1
        inn = any(inside(kind, bounds, x) for x in range(v - 3 * q, v + 4 * q, q))
        points = [com(W, i, 0) for i in range(q)]
        pre0, resp0 = shape_of(W, kind, bounds)
        tried = usable = true = 0
        with quiet():
            for p in parts(pre0, points, numbers, W, q, v, bounds, kind):
                tried += 1
                st = make(W, kind, bounds, v, r, known=False)
                if not adv.valid_precommitment(W, st, p, lambda s: simulated(W, s, q)):
                    continue
                usable += 1
                t = truth(W, st, q)
                if t is None:
                    rep.outcome("parts of the statement not readable")
                    return
                if t:
                    true += 1
                    if not inn:
                        rep.violation(cid, "the statement about a value outside becomes true",
                                      precommitment=repr(p))
                        return
        rep.steps += tried
        rep.outcome("precommitments tried", tried)
        rep.outcome("precommitments usable", usable)
        rep.require(usable, cid, "no precommitment at all is accepted")
        if inn:
            rep.require(true, cid, "no way to prove a value inside of the range")
        rep.outcome("inside" if inn else "outside")
        rep.sample(case=cid, tried=tried, usable=usable)

    rep.run(items(), fn)


def truth(W, st, q):
    inner = getattr(st, "constructed_stmt", None)
    if inner is not None:
        return adv.holds(W, inner, q)
    subs = getattr(st, "subproofs", None)
    if subs is None:
        return True  # the opening of the commitment
    ts = [truth(W, s, q) for s in subs]
    return None if None in ts else all(ts)


def parts(pre0, points, numbers, W, q, v, bounds, kind):
    """Precommitments whose numbers fit (all of them are tried for the first filling)."""
    if kind == "p2":
        ps = adv.slots(pre0)
        for k, t in enumerate(itertools.product(*[points if alter.is_point(x) else [None]
                                                  for _, x in ps])):
            for n in numbers:
                y = pre0
                for (p, _), x in zip(ps, t):
                    y = alter.put(y, p, n if x is None else x)
                yield y
        return
    # the members of a general range one at a time: the others are honest or anything that validates
    subs = [i for i, x in enumerate(pre0) if x is not None]
    per = {}
    for i in subs:
        good = {}
        ps = adv.slots(pre0[i])
        for t in itertools.product(*[points if alter.is_point(x) else [None] for _, x in ps]):
            tot = sum(x.v[0] * 2 ** j for j, x in enumerate([x for x in t if x is not None])) % q
            good.setdefault(tot, []).append(t)
        per[i] = (ps, good)
    # which totals fit is found by trying, not assumed: all totals with one representative each,
    # then all fillings of the totals that validate
    for tot in itertools.product(range(q), repeat=len(subs)):
        y = pre0
        for i, s in zip(subs, tot):
            ps, good = per[i]
            y = filled(y, i, ps, good[s][0], W.bn(-1 % q))
        st = make(W, kind, bounds, v, 1, known=False)
        if not adv.valid_precommitment(W, st, y, lambda s_: simulated(W, s_, q)):
            yield y
            continue
        for t in itertools.product(*[per[i][1][s] for i, s in zip(subs, tot)]):
            y = pre0
            for i, x in zip(subs, t):
                y = filled(y, i, per[i][0], x, W.bn(-1 % q))
            yield y


def filled(y, i, ps, t, n):
    for (p, _), x in zip(ps, t):
        y = alter.put(y, (i,) + p, n if x is None else x)
    return y


# -- proofs for another commitment ---------------------------------------------------------------
def contexts(E):
    l, m = dl(("y", "k")), dl(("z", "g"))
    yield E, "E"
    yield ("and", E, l), "and"
    yield ("and", l, E), "and2"
    yield ("or", E, l), "or"
    yield ("or", l, E), "or2"
    yield ("and", ("or", E, m), l), "or in and"
    yield ("or", ("and", m, E), l), "and in or"
    yield ("and", ("and", m, E), l), "and in and"
    yield ("or", l, ("or", m, E)), "or in or"
    yield ("and", E, E), "twice"
    yield ("or", E, E), "either"


def cross(W, rep, kind, n=2):
    """
    A prover that runs the proof honestly for another commitment, with every alteration of the revealed
    randomizers, and claims it to be about the commitment of the verifier.
    """
    hi = 2 ** n
    if kind == "p2":
        E = ("p2", "v", "r", n, 0)
        others = list(range(hi))
        claims = list(range(-2, hi + 2)) if W.tiny else [-1, 0, 1, hi, hi + 1]
    else:
        E = ("rg", "v", "r", 1, hi, 0)
        others = list(range(1, hi))
        claims = list(range(-2, hi + 2)) if W.tiny else [0, 1, hi, hi + 1]

    def items():
        for s, name in contexts(E):
            for v2 in others if W.tiny else others[:2]:
                for v in claims:
                    for how in ("nizk", "interactive"):
                        yield "cross %s: %d claimed to be %d %s %s" % (
                                kind, v2, v, name, how), (s, v2, v, how)

    def fn(cid, item):
        s, v2, v, how = item
        control = v == v2
        base = {"y": 2, "z": 3, "r": 1}
        know = {"v", "r"} | ({"y", "z"} if "or" not in [x[0] for x in S.nodes(s)] else set())
        if s[0] == "and":
            know.add("y")  # what stands beside it is true
        if s[0] == "or" and any(c[0] == "and" for c in s[1:]):
            know.add("z")
        with quiet(), seams.use(None):
            # nobody knows the other branches: only the range can be the real one
            P = S.Build(W, dict(base, v=v2), know)
            vs = S.Build(W, dict(base, v=v), ()).stmt(s)
            # false everywhere else
            if how == "nizk":
                p = P.stmt(s).prove()
                fields = alter.as_dict(p)
                for q_ in pres(W, p.precommitment, v, v2):
                    try:
                        ok = vs.verify(W.NIZK(**dict(fields, precommitment=q_))) is True
                    except Exception:
                        ok = False
                    rep.steps += 1
                    rep.outcome("rejected" if not ok else "control" if control else "ACCEPTED")
                    if control:
                        rep.require(ok, cid, "an honest proof is not accepted")
                        return
                    if not rep.require(not ok, cid, "accepted", precommitment=repr(q_)):
                        return
            else:
                prover = P.stmt(s).get_prover()
                pre = prover.precommit()
                digest, c = prover.commit()
                for q_ in pres(W, pre, v, v2):
                    vs = S.Build(W, dict(base, v=v), ()).stmt(s)
                    verifier = vs.get_verifier()
                    try:
                        verifier.process_precommitment(q_)
                        own = vs.prehash_statement().digest()
                        chal = verifier.send_challenge((own, c))
                        ok = verifier.verify(prover.compute_response(chal)) is True
                    except Exception:
                        ok = False
                    rep.steps += 1
                    if not W.tiny:
                        rep.real_traces += 1
                    rep.outcome("rejected" if not ok else "control" if control else "ACCEPTED")
                    if control:
                        rep.require(ok, cid, "an honest proof is not accepted")
                        return
                    if not rep.require(not ok, cid, "accepted", precommitment=repr(q_)):
                        return

    def pres(W, pre, v, v2):
        yield pre
        nums = [p for p, x in alter.sites(pre) if alter.is_num(x)]
        for p in nums:
            n = int(alter.get(pre, p))
            for x in (0, 1, 2, 3, n + 1, n - 1, -n, 2 * n, n + v2 - v, n + v - v2):
                yield alter.put(pre, p, W.bn(x))
        pts = [p for p, x in alter.sites(pre) if alter.is_point(x)]
        g = W.base("g")
        for p in pts:
            yield alter.put(pre, p, alter.get(pre, p) + g)
            yield alter.put(pre, p, alter.get(pre, p) - g)

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t13 = ["tiny", dict(q=13, d=2, bits=3)]
    h = ["tiny", dict(q=29, d=1, bits=3)]
    q3 = ["tiny", dict(q=3, d=2, bits=1)]
    q5 = ["tiny", dict(q=5, d=2, bits=1)]
    q11 = ["tiny", dict(q=11, d=2, bits=2)]
    r = ["real", {}]
    add(r, "honest", 4, kind="rg", which="edges")
    add(r, "honest", 2, kind="rg", which="window")
    add(r, "honest", 2, kind="p2", which="edges")
    add(r, "honest", kind="p2", which="window")
    add(r, "only", 2)
    add(r, "cross", 2, kind="p2")
    add(r, "cross", 2, kind="rg")
    add(h, "honest", 2, kind="rg", which="window")
    add(h, "honest", kind="p2", which="window")
    add(h, "only")
    add(q3, "cheat", 2, kind="p2", bounds=[1])
    add(q5, "cheat", 4, kind="p2", bounds=[1], rs=[0, 2])
    add(q5, "cheat", 2, kind="p2", bounds=[2], values=[3, 4], rs=[1], wrong=False, slim=True)
    for b in ([0, 1], [0, 2], [-1, 0], [1, 3], [2, 3], [-2, 0]):
        add(q3, "cheat", kind="rg", bounds=b, rs=[1], wrong=False, slim=True)
    add(q11, "constructed", 4, kind="p2", bound_list=[[1], [2], [3]])
    add(q11, "constructed", 4, kind="rg", bound_list=[[0, 3], [0, 4], [-1, 2], [2, 5], [-3, 1], [4, 5],
                                                      [3, 5]])
    # a challenge space in which luck cannot matter
    t11 = ["tiny", dict(q=2 ** 31 - 1, d=3, bits=30)]
    add(t11, "cross", 2, kind="p2")
    add(t11, "cross", 2, kind="p2", flagged=True)
    add(q3, "cheat", 2, kind="p2", bounds=[1], flagged=True)
    add(t11, "cross", 2, kind="rg")
    if tier == "thorough":
        add(q5, "cheat", 16, kind="p2", bounds=[1])
        add(q5, "cheat", 16, kind="p2", bounds=[2])
        for a in range(-3, 4):
            for w in (1, 2):
                add(q3, "cheat", 3, kind="rg", bounds=[a, a + w])
        add(["tiny", dict(q=17, d=2, bits=2)], "constructed", 16, kind="p2", bound_list=[[3], [4]])
        add(["tiny", dict(q=17, d=2, bits=2)], "constructed", 16, kind="rg",
            bound_list=[[a, a + w] for a in (-2, 0, 3) for w in range(1, 9)])
        add(t11, "cross", 8, kind="p2", n=3)
        add(r, "cross", 8, kind="p2", n=8)
    return out
