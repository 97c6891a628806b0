"""
Fault injection on proofs.  For every enumerated statement, an honest proof (and an honest interactive
run) is altered at every position with every alteration of a fixed alphabet, and at pairs of
positions; the verifier must reject each, unless the altered number is the same modulo the order.
"""
import itertools

from mc import alter, gen, seams, spec as S
from mc.explore import Chooser, Scripted, spread
from mc.gen import dl, ext_leaf, sid
from mc.harness import HarnessError, quiet, shards
from mc.checks.p01 import TRUTH, programs, A2

ASSUMPTIONS = ["bases are independent (vector-space groups), so that no altered response is another "
               "valid one"]

T = dict(TRUTH)


def build_proof(W, s, seed=0, message=""):
    for k in range(6):
        B = S.Build(W, T, T.keys())
        ch = Chooser(default=lambda i, n: (7 * i + 3 * (k + seed) + i // 2 + 1) % n, seed=k)
        with quiet(), seams.use(ch):
            st = B.stmt(s)
            nizk = st.prove(message=message)
            try:
                if st.verify(nizk, message=message):
                    return nizk
            except Exception:
                pass  # the exceptional draw of an inequality proof
    raise HarnessError("no honest proof of %s" % sid(s))


def specs(which):
    l, m = dl(("y", "k")), dl(("z", "g"))
    x, xh, y = dl(("x", "g")), dl(("x", "h")), dl(("y", "h"))
    base = [x, dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h")),
            ("and", x, xh), ("and", x, y), ("or", x, y), ("or", x, xh), ("and", x, x), ("or", x, x),
            ("and", dl(("x", "g"), ("y", "h")), dl(("y", "k"))),
            ("and", x, xh, l), ("or", x, y, m),
            ("and", ("or", x, y), m), ("or", ("and", x, y), m), ("or", ("or", x, y), m),
            ("and", ("and", x, xh), dl(("x", "k"))), ("and", dl(("x", "k")), ("and", xh, y)),
            ("or", ("and", x, xh), ("and", y, l)),
            ("and", ("or", x, xh), ("or", y, l)),
            ("and", ("or", ("and", x, xh), y), m),
            ("and", dl(("x", "g")), dl(("z", "g"), grp=2)),
            ("and", dl(("x", "g")), dl(("z", "g"), grp="G1"))]
    if which == "base":
        return base
    if which == "more":
        return list(programs(3, [x, xh, y, dl(("z", "k"), ("x", "g"))]))
    E = ext_leaf(which, "a")
    out = [E, ("and", E, l), ("or", E, l), ("or", l, E), ("and", l, E), ("and", ("or", l, E), m),
           ("or", ("and", E, l), m), ("and", E, ext_leaf(which, "b"))]
    if which != "p2":
        out.append(("and", dl(("ax", "k"), grp="G1" if which == "bb" else 0), E))
    return [s for s in out if S.composition_ok(s)]


def orders(W, s):
    out = set()
    for l in S.leaves(s):
        g = {"dl": l[-1], "bb": "G1"}.get(l[0], 0)
        out.add(W.order(g))
    return sorted(out)


def judge(W, rep, cid, V, s, fields, what, allowed, message=""):
    st = V.stmt(s)
    ok = False
    rep.steps += 1
    if not W.tiny:
        rep.real_traces += 1
    try:
        ok = st.verify(W.NIZK(**fields), message=message) is True
    except Exception:
        pass
    if ok and not allowed:
        rep.violation(cid, "accepted an altered proof: %s" % what, spec=sid(s))
    rep.outcome("accepted equal" if ok else "rejected")


def singles(W, rep, which, pairs=False):
    space = 1 << (W.bits if W.tiny else 128)

    def fn(cid, s):
        nizk = build_proof(W, s)
        fields = alter.as_dict(nizk)
        V = S.Build(W, T, ())
        if V.stmt(s).verify(nizk) is not True:
            rep.violation(cid, "honest proof rejected")
            return
        qs = orders(W, s)
        n = 0
        for path, v in alter.sites(fields):
            if not path:
                continue
            for name, nv, same in alter.alterations(W, v, qs, space):
                new = alter.put(fields, path, nv)
                n += 1
                judge(W, rep, cid, V, s, new, "%s %s" % (list(path), name), same)
        # whole fields exchanged, and fields of another valid proof of the same statement
        other = alter.as_dict(build_proof(W, s, seed=1))

        def is_other(new):
            # in a tiny group two proofs may coincide in all but one field
            return all(alter.same(new[f], other[f]) for f in alter.FIELDS)

        for f in alter.FIELDS[:3]:
            if not alter.same(fields[f], other[f]):
                new = dict(fields)
                new[f] = other[f]
                judge(W, rep, cid, V, s, new, "%s of another proof" % f, is_other(new))
                for path, v in alter.sites(other[f]):
                    if path and not alter.same(v, alter.get(fields[f], path)):
                        new = alter.put(fields, (f,) + path, v)
                        judge(W, rep, cid, V, s, new, "%s%s of another proof" % (f, list(path)),
                              is_other(new))
        if pairs:
            nums = [(p, v) for p, v in alter.sites(fields) if alter.is_num(v)]
            for (p, a), (r, b) in itertools.combinations(nums, 2):
                for name, da, db in (("+1-1", 1, -1), ("+1+1", 1, 1), ("+s-s", space, -space),
                                     ("-s+s", -space, space), ("+q-q", qs[0], -qs[0])):
                    na, nb = int(a) + da, int(b) + db
                    sm = name == "+q-q" or (da % qs[0] == 0)
                    new = alter.put(alter.put(fields, p, W.bn(na)), r, W.bn(nb))
                    judge(W, rep, cid, V, s, new, "%s %s %s" % (list(p), list(r), name), sm)
                if int(a) != int(b):
                    new = alter.put(alter.put(fields, p, b), r, a)
                    judge(W, rep, cid, V, s, new, "exchange %s %s" % (list(p), list(r)), False)
            lists = [(p, v) for p, v in alter.sites(fields)
                     if isinstance(v, (list, tuple)) and len(v) > 0]
            for (p, a), (r, b) in itertools.combinations(lists, 2):
                if r[:len(p)] == p or p[:len(r)] == r:
                    continue
                for i in range(min(len(a), len(b))):
                    for name in ("drop", "dup", "append"):
                        def f(v):
                            l = list(v)
                            if name == "drop":
                                del l[i]
                            elif name == "dup":
                                l.insert(i, l[i])
                            else:
                                l.append(l[i])
                            return tuple(l) if isinstance(v, tuple) else l
                        new = alter.put(alter.put(fields, p, f(a)), r, f(b))
                        judge(W, rep, cid, V, s, new, "%s %d of %s and %s" % (
                            name, i, list(p), list(r)), False)
        rep.sample(case=cid, alterations=n)

    rep.run(((sid(s), s) for s in specs(which)), fn)


def interactive(W, rep, which):
    """The same for the messages of an interactive run."""
    space = 1 << (W.bits if W.tiny else 128)

    def run(s, stage=None, path=None, value=None):
        B, V = S.Build(W, T, T.keys()), S.Build(W, T, ())
        ch = Chooser(default=lambda i, n: (5 * i + i // 3 + 2) % n)

        def tamper(st, msg):
            if st == stage:
                return alter.put(msg, path, value)
            return msg

        msgs = {}
        with quiet(), seams.use(ch):
            prover = B.stmt(s).get_prover()
            verifier = V.stmt(s).get_verifier()
            msgs["pre"] = prover.precommit()
            verifier.process_precommitment(tamper("pre", msgs["pre"]))
            msgs["com"] = list(prover.commit())
            c = verifier.send_challenge(tuple(tamper("com", msgs["com"])))
            msgs["resp"] = prover.compute_response(c)
            ok = verifier.verify(tamper("resp", msgs["resp"]))
        return ok, msgs

    def fn(cid, s):
        seams.reset_names()
        try:
            ok, msgs = run(s)
        except Exception as e:
            if W.tiny and any(l[0] == "ne" for l in S.leaves(s)) and "unity" in str(e):
                rep.excused += 1
                return
            raise
        rep.require(ok is True, cid, "honest run rejected")
        qs = orders(W, s)
        for stage in ("pre", "com", "resp"):
            for path, v in alter.sites(msgs[stage]):
                if stage == "com" and not path:
                    continue
                for name, nv, same in alter.alterations(W, v, qs, space):
                    if stage == "pre" and name == "extra":
                        continue  # an unused entry of a precommitment is no part of the statement
                    if stage == "pre" and (v is None or path == ()) and \
                            all(x is None for x in alter_flat(msgs["pre"])):
                        continue  # nothing is precommitted: the verifier ignores the message
                    if stage == "pre" and isinstance(v, list) and v and v[0] is None and \
                            name.startswith(("append", "dup")):
                        pass
                    seams.reset_names()
                    rep.steps += 1
                    ok = False
                    try:
                        ok = run(s, stage, path, nv)[0] is True
                    except Exception:
                        pass
                    if not W.tiny:
                        rep.real_traces += 1
                    rep.outcome("accepted equal" if ok else "rejected")
                    if ok and not same and not harmless(stage, path, v, nv, msgs):
                        rep.violation(cid, "accepted an altered %s message: %s %s" % (
                            stage, list(path), name))

    rep.run((("interactive " + sid(s), s) for s in specs(which)), fn)


def alter_flat(x):
    from mc.harness import flatten

    return list(flatten(x))


def harmless(stage, path, v, nv, msgs):
    """Surplus or missing entries for members that have no precommitment carry no information."""
    if stage != "pre":
        return False
    strip = lambda l: [x for x in l if x is not None]
    if v is None:
        return True
    if isinstance(v, (list, tuple)) and (nv is None or isinstance(nv, (list, tuple))):
        # positions count, but trailing surplus is never read
        n = list(nv or [])
        while n and n[-1] is None:
            n.pop()
        o = list(v)
        while o and o[-1] is None:
            o.pop()
        return alter.same(n[:len(o)], o) if len(n) >= len(o) else False
    return False


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t = ["tiny", dict(q=13, d=3, bits=3, d1=4, d2=1)]
    r = ["real", {}]
    add(r, "singles", 4, which="base")
    for k in gen.EXT_KINDS:
        if k != "bb":
            add(r, "singles", 3, which=k)
            add(r, "interactive", 3 if k == "rg" else 1, which=k)
    add(r, "singles", 9, which="bb")
    add(r, "interactive", 2, which="base")
    add(t, "singles", 4, which="base", pairs=True)
    add(t, "singles", 4, which="more")
    add(t, "singles", 2, which="base", flagged=True)
    add(t, "interactive", 2, which="base")
    for k in gen.EXT_KINDS:
        add(t, "singles", 8 if k in ("rg", "bb") else 2, which=k, pairs=k not in ("rg",))
        add(t, "interactive", 4 if k in ("rg", "bb") else 1, which=k)
    if tier == "thorough":
        add(r, "singles", 16, which="base", pairs=True)
        add(r, "singles", 16, which="more")
        add(t, "singles", 16, which="more", pairs=True)
        add(t, "singles", 16, which="rg", pairs=True)
        add(r, "interactive", 9, which="bb")
        add(r, "interactive", 16, which="more")
    return out
