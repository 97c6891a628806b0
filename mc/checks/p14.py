"""
Expressions and operands.  (1) all programs of a given length that add, accumulate (+=), evaluate, print
and use expressions of a pool: after every step every expression of the pool still has the terms, in
order, that a list-of-terms model gives it, and evaluates to their sum.  (2) all ways to associate sums
of up to six terms: one meaning, one statement, interchangeable proofs.  (3) all programs that combine
statements of a pool by operators and constructors, copy and use them: every statement of the pool keeps
its meaning (hash, proofs accepted by and from an independently built copy).  (4) operands and left-hand
sides that cannot be handled are refused.  (5) lists, dictionaries and objects handed over stay as they are.
"""
import copy
import itertools

from mc import gen, seams, spec as S
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = []


def terms_of(W, grp):
    """(variable, value, base name)"""
    return [("x", 3, "g"), ("y", 5, "h"), ("x", 3, "k"), ("z", 0, "g"), ("x", 3, "g"), ("y", 5, "m")]


class Pool:
    def __init__(self, W, grp, n, ints=False):
        self.W, self.grp = W, grp
        self.secrets = {}
        self.exprs, self.model = [], []
        for v, x, b in terms_of(W, grp)[:n]:
            if v not in self.secrets:
                self.secrets[v] = W.Secret(value=x if ints else W.bn(x))
            self.exprs.append(self.secrets[v] * W.base(b, grp))
            self.model.append([(v, b)])
        self.value = {v: x for v, x, _ in terms_of(W, grp)}

    def check(self, rep, cid, what, evaluate=True):
        W = self.W
        for i, (e, m) in enumerate(zip(self.exprs, self.model)):
            rep.steps += 1
            if tuple(e.secrets) != tuple(self.secrets[v] for v, _ in m) or any(
                    a is not self.secrets[v] for a, (v, _) in zip(e.secrets, m)):
                rep.violation(cid, "%s: expression %d has other secrets" % (what, i), model=repr(m))
                return False
            if tuple(e.bases) != tuple(W.base(b, self.grp) for _, b in m):
                rep.violation(cid, "%s: expression %d has other bases" % (what, i), model=repr(m))
                return False
            if evaluate and e.eval() != W.lin([(self.value[v], b) for v, b in m], self.grp):
                rep.violation(cid, "%s: expression %d has another value" % (what, i), model=repr(m))
                return False
        for v, s in self.secrets.items():
            if s.value != self.value[v]:
                rep.violation(cid, "%s: the value of a secret changed" % what)
                return False
        return True


def expressions(W, rep, depth, n=2, grp=0, kinds=("add", "iadd", "use", "eval"), ints=False):
    """All programs of `depth` steps; a case is the first step."""
    def ops(size):
        for k in kinds:
            if k in ("add", "iadd"):
                for i in range(size):
                    for j in range(size):
                        yield k, i, j
            else:
                for i in range(size):
                    yield k, i, None

    def items():
        for op in ops(n):
            yield "expressions: starting with %s %s group %s" % (op[0], op[1:], grp), op

    def apply(p, op):
        W_ = p.W
        k, i, j = op
        if k == "add":
            p.exprs.append(p.exprs[i] + p.exprs[j])
            p.model.append(p.model[i] + p.model[j])
        elif k == "iadd":
            e = p.exprs[i]
            e += p.exprs[j]
            p.exprs.append(e)
            p.model.append(p.model[i] + p.model[j])
        elif k == "eval":
            p.exprs[i].eval()
            repr(p.exprs[i])
        else:
            # a statement, a composition, a proof
            lhs = W_.lin([(p.value[v], b) for v, b in p.model[i]], p.grp)
            st = W_.DLRep(lhs, p.exprs[i])
            two = st & W_.DLRep(lhs, p.exprs[i])
            if two.verify(two.prove()) is not True or st.verify(st.prove()) is not True:
                raise Exception("a proof about the expression is not accepted")

    count = [0]

    def run(cid, program):
        p = Pool(W, grp, n, ints)
        for op in program:
            apply(p, op)
        return p

    def fn(cid, first):
        def rec(program):
            with quiet(), seams.use(None):
                p = run(cid, program)
                if not p.check(rep, cid, "after %s" % (program,), len(program) < 3 or W.tiny):
                    return
                size = len(p.exprs)
            count[0] += 1
            if not W.tiny:
                rep.real_traces += 1
            if len(program) < depth:
                for op in ops(size):
                    if rep.violations:
                        return
                    rec(program + [op])

        rec([first])
        rep.outcome("programs", count[0])
        rep.sample(case=cid, programs=count[0])
        count[0] = 0

    rep.run(items(), fn)


def associations(xs):
    """All binary trees over the list."""
    if len(xs) == 1:
        yield xs[0]
        return
    for i in range(1, len(xs)):
        for a in associations(xs[:i]):
            for b in associations(xs[i:]):
                yield (a, b)


def meaning(W, rep, sizes, groups=(0,)):
    def items():
        for grp in groups:
            for n in sizes:
                for k, t in enumerate(associations(list(range(n)))):
                    yield "meaning: %s group %s" % (str(t).replace(" ", ""), grp), (grp, n, t)
                for how in ("wsum", "loop", "accumulate", "base first", "generator sum"):
                    yield "meaning: %d terms by %s group %s" % (n, how, grp), (grp, n, how)

    def fn(cid, item):
        grp, n, t = item
        terms = terms_of(W, grp)[:n]
        lhs = W.lin([(x, b) for _, x, b in terms], grp)

        def build(values, form):
            secs = {}
            for v, x, b in terms:
                if v not in secs:
                    secs[v] = W.Secret(value=W.bn(x)) if values else W.Secret()
            atoms = [secs[v] * W.base(b, grp) for v, _, b in terms]
            if form == "wsum":
                e = W.z.expr.wsum_secrets([secs[v] for v, _, _ in terms],
                                          [W.base(b, grp) for _, _, b in terms])
            elif form == "loop":
                e = atoms[0]
                for a in atoms[1:]:
                    e = e + a
            elif form == "accumulate":
                e = atoms[0]
                for a in atoms[1:]:
                    e += a
            elif form == "base first":
                e = W.base(terms[0][2], grp) * secs[terms[0][0]]
                for v, _, b in terms[1:]:
                    e = e + W.base(b, grp) * secs[v]
            elif form == "generator sum":
                import functools
                import operator
                e = functools.reduce(operator.add, atoms)
            else:
                def rec(u):
                    return atoms[u] if isinstance(u, int) else rec(u[0]) + rec(u[1])
                e = rec(form)
            return e, secs

        with quiet(), seams.use(None):
            e, secs = build(True, t)
            ref, rsecs = build(False, "loop")
            rep.require([W.base(b, grp) for _, _, b in terms] == list(e.bases), cid, "other bases")
            rep.require([secs[v] for v, _, _ in terms] == list(e.secrets), cid, "other secrets")
            rep.require(e.eval() == lhs, cid, "another value")
            a, b = W.DLRep(lhs, e), W.DLRep(lhs, ref)
            rep.require(a.prehash_statement().digest() == b.prehash_statement().digest(), cid,
                        "another statement")
            rep.require(b.verify(a.prove()) is True, cid, "the proof is not accepted")
            d = {rsecs[v]: W.bn(x) for v, x, _ in terms}
            rep.require(a.verify(b.prove(d)) is True, cid, "the other proof is not accepted")
            # nothing but the sum: another left-hand side
            c = W.DLRep(lhs + W.base("g", grp), build(False, "loop")[0])
            try:
                bad = c.verify(a.prove())
            except Exception:
                bad = False
            rep.require(bad is not True, cid, "accepted for another left-hand side")
            # a missing value
            for v in secs:
                old = secs[v].value
                secs[v].value = None
                try:
                    e.eval()
                    rep.violation(cid, "evaluated without the value of %s" % v)
                except W.z.exceptions.IncompleteValuesError:
                    pass
                secs[v].value = old + 1
                rep.require(e.eval() == lhs + W.lin([(1, bb) for vv, _, bb in terms if vv == v], grp),
                            cid, "the value does not follow the secret")
                secs[v].value = old
        rep.steps += 5
        if not W.tiny:
            rep.real_traces += 1
        rep.outcome("agrees")

    rep.run(items(), fn)


# -- (3) statements ------------------------------------------------------------------------------
T = {"x": 3, "y": 5, "z": 2, "r": 4, "sig": 1, "w": 1, "v": 1}
LEAVES = {
    "dl": [dl(("x", "g")), dl(("y", "h"), ("z", "g"))],
    "dl3": [dl(("x", "g")), dl(("y", "h")), dl(("z", "g"), ("x", "k"))],
    "ne": [("ne", "x", "g", "h", 4, True, 0), dl(("y", "h"))],
    "neu": [("ne", "x", "g", "h", 4, False, 0), dl(("y", "h"))],
    "rg": [("rg", "z", "r", 0, 3, 0), dl(("y", "h"))],
    "p2": [("p2", "z", "r", 2, 0), dl(("y", "h"))],
    "bb": [("bb", ("w", "v")), dl(("y", "h"))],
    "eg": [("eg", "x", "y", 0), dl(("z", "h"))],
}


def statements(W, rep, depth, leaves, kinds=("&", "|", "and", "or"), unary=("copy", "prove"),
               proofs=True):
    start = LEAVES[leaves]
    n = len(start)

    def ops(size):
        for k in kinds:
            for i in range(size):
                for j in range(size):
                    yield k, i, j
        for k in unary:
            for i in range(size):
                yield k, i, None

    def items():
        for op in ops(n):
            for op2 in ops(n + (op[0] not in ("prove", "simulate"))) if depth > 1 else [None]:
                yield "statements %s: %s then %s" % (leaves, op, op2), (op, op2)

    def apply(B, pool, model, op):
        k, i, j = op
        if k in ("prove", "simulate"):
            if not S.composition_ok(model[i]):
                return
            if k == "prove":
                pool[i].prove()
            else:
                pool[i].simulate()
            return
        a, b = pool[i], pool[j] if j is not None else None
        if k == "copy":
            pool.append(copy.copy(a))
            model.append(model[i])
            return
        pool.append({"&": lambda: a & b, "|": lambda: a | b, "and": lambda: W.And(a, b),
                     "or": lambda: W.Or(a, b)}[k]())
        model.append((k, model[i], model[j]))

    def judge(cid, program):
        with quiet(), seams.use(None):
            B = S.Build(W, T, T.keys())
            pool = [B.stmt(l) for l in start]
            model = list(start)
            for op in program:
                apply(B, pool, model, op)
            for i, (st, m) in enumerate(zip(pool, model)):
                rep.steps += 1
                if not S.composition_ok(m):
                    continue
                fresh = S.Build(W, T, T.keys(), share_leaves=True).stmt(m)
                if all(l[0] == "dl" for l in S.leaves(m)):
                    if st.prehash_statement().digest() != fresh.prehash_statement().digest():
                        rep.violation(cid, "after %s, statement %d is another one" % (program, i),
                                      model=sid(m))
                        return False
                if proofs:
                    if fresh.verify(st.prove()) is not True:
                        rep.violation(cid, "after %s, statement %d: proof not accepted" % (
                            program, i), model=sid(m))
                        return False
                    if st.verify(fresh.prove()) is not True:
                        rep.violation(cid, "after %s, statement %d does not accept" % (
                            program, i), model=sid(m))
                        return False
            for v, s in B.secrets.items():
                if s.value != T[v]:
                    rep.violation(cid, "after %s, the value of a secret changed" % (program,))
                    return False
        if not W.tiny:
            rep.real_traces += 1
        return len(pool)

    def fn(cid, item):
        program = [o for o in item if o is not None]

        def rec(program):
            size = judge(cid, program)
            rep.outcome("programs")
            if not size:
                return
            if len(program) < depth:
                for op in ops(size):
                    if rep.violations:
                        return
                    rec(program + [op])

        rec(program)

    rep.run(items(), fn)


# -- (4) refusals --------------------------------------------------------------------------------
def refusals(W, rep):
    g, h = W.base("g"), W.base("h")
    B = W.bn

    def x(v=3):
        return W.Secret(value=B(v))

    other = W.base("g", 2)
    p1 = W.base("g", "G1")

    def mixed(bases, how):
        if how == "wsum":
            return W.z.expr.wsum_secrets([x() for _ in bases], bases)
        return sum((x() * b for b in bases[1:]), x() * bases[0])

    def bad():
        E = W.z.expr.Expression
        for n, o in (("number", 3), ("big number", B(3)), ("point", g), ("none", None), ("text", "x"),
                     ("secret", W.Secret())):
            if n != "number":  # sum() starts with 0
                yield "expression + %s" % n, lambda o=o: x() * g + o
            yield "Expression(%s, point)" % n, (lambda o=o: E(o, g)) if n != "secret" else None
            yield "DLRep of %s" % n, lambda o=o: W.DLRep(3 * g, o)
            yield "DLRep of a list with %s" % n, lambda o=o: W.DLRep(3 * g, [o])
        yield "wsum with too few bases", lambda: W.z.expr.wsum_secrets([x(), x()], [g])
        yield "wsum with too few secrets", lambda: W.z.expr.wsum_secrets([x()], [g, h])
        for a, an in ((g, "curve"), (other, "other curve"), (p1, "G1")):
            for b, bn in ((g, "curve"), (other, "other curve"), (p1, "G1"), (W.base("g", "G2"), "G2")):
                if an != bn:
                    yield "bases of %s and %s" % (an, bn), \
                        lambda a=a, b=b: W.DLRep(3 * a, x() * a + x() * b)
                    for n in (3, 4, 5):
                        for k in range(n):
                            for how in ("sum", "wsum"):
                                yield "one of %s, number %d, among %d bases of %s, %s" % (bn, k, n, an, how), \
                                    lambda a=a, b=b, n=n, k=k, how=how: W.DLRep(3 * a, mixed(
                                        [b if i == k else a for i in range(n)], how))
        for k in (0, 1):
            for cls, cn in ((W.And, "and"), (W.Or, "or")):
                yield "%s of %d" % (cn, k), lambda cls=cls, k=k: cls(
                    *[W.DLRep(3 * g, x() * g)] * k)

    def lhs():
        """Left-hand sides of another kind: no proof may come out that is accepted."""
        for a, an in ((g, "curve"), (other, "other curve"), (p1, "G1"), (W.base("g", "G2"), "G2"),
                      (W.base("g", "GT"), "GT")):
            for b, bn in ((g, "curve"), (other, "other curve"), (p1, "G1"), (W.base("g", "G2"), "G2"),
                          (W.base("g", "GT"), "GT"), (None, "none"), (B(3), "number"), ([g], "list")):
                if an != bn:
                    for v in (3, 0):
                        yield "left-hand side of %s for %s, %d" % (bn, an, v), (a, b, v)

    def items():
        for name, f in bad():
            if f is not None:
                yield "refusal: " + name, ("raise", f)
        for name, f in lhs():
            yield "refusal: " + name, ("lhs", f)

    def fn(cid, item):
        kind, f = item
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        with quiet(), seams.use(None):
            if kind == "raise":
                try:
                    r = f()
                except Exception:
                    rep.outcome("refused")
                    return
                rep.violation(cid, "not refused: %r" % (r,))
                return
            a, b, v = f
            for zero in (False, True):
                for how in ("nizk", "interactive", "and"):
                    try:
                        left = b if zero or b is None or not hasattr(b, "group") else B(v) * b
                        if zero and hasattr(b, "group"):
                            left = 0 * b
                        st = W.DLRep(left, x(v) * a)
                        vs = W.DLRep(left, W.Secret() * a)
                        if how == "and":
                            st = st & W.DLRep(3 * g, x() * g)
                            vs = vs & W.DLRep(3 * g, W.Secret() * g)
                        if how == "interactive":
                            ok = W.SigmaProtocol(vs.get_verifier(), st.get_prover()).verify()
                        else:
                            ok = vs.verify(st.prove())
                    except Exception:
                        ok = False
                    rep.require(ok is not True, cid, "a proof is accepted (%s)" % how)
            rep.outcome("refused")

    rep.run(items(), fn)


# -- (5) arguments -------------------------------------------------------------------------------
def picture(o, depth=0):
    """What an argument looks like."""
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(picture(y, depth + 1) for y in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((id(k), picture(v, depth + 1)) for k, v in o.items())
    if type(o).__name__ == "Secret":
        return ("secret", id(o), o.name, None if o.value is None else int(o.value))
    if type(o).__name__ == "Bn":
        return int(o)
    if hasattr(o, "export"):
        return o.export()
    if type(o).__name__ in ("NIZK", "SimulationTranscript", "BBSPlusSignature",
                            "UserCommitmentMessage"):
        return (type(o).__name__,) + tuple((k, picture(v, depth + 1)) for k, v in sorted(
            vars(o).items()))
    return o if isinstance(o, (int, str, bytes, type(None))) else id(o)


def arguments(W, rep):
    B = W.bn
    g, h = W.base("g"), W.base("h")

    def scenarios():
        """name, arguments, the call that may not change them"""
        def nizks(spec):
            def make():
                st = S.Build(W, T, T.keys()).stmt(spec)
                p = st.prove()
                fresh = S.Build(W, T, ()).stmt(spec)
                return [p], lambda: [fresh.verify(p), fresh.verify(p, message="m"), p.serialize()]
            return make

        def sims(spec):
            def make():
                st = S.Build(W, T, ()).stmt(spec)
                t = st.simulate()
                return [t], lambda: st.verify_simulation_consistency(t)
            return make

        for name, ls in LEAVES.items():
            for spec in (ls[0], ("and", ls[0], ls[1]), ("or", ls[0], ls[1])):
                yield "verify leaves the proof: " + sid(spec), nizks(spec)
                yield "consistency leaves the transcript: " + sid(spec), sims(spec)

        def dicts(spec, early):
            def make():
                b = S.Build(W, T, early)
                st = b.stmt(spec)
                d = b.values([v for v in S.variables(spec) if v != "sig"])
                return [list(d.values()), [k.name for k in d]], lambda: [st.prove(d),
                                                                         st.get_prover(d)]
            return make

        for name, ls in LEAVES.items():
            for spec in (ls[0], ("and", ls[0], ls[1]), ("or", ls[0], ls[1])):
                yield "prove leaves the dictionary: " + sid(spec), dicts(
                    spec, {"sig"} | ({"z", "r"} if name in ("rg", "p2") else set()))

        def ints():
            a, b = W.Secret(), W.Secret()
            st = W.DLRep(3 * g + 5 * h, a * g + b * h)
            d = {a: 3, b: 5}
            return [d], lambda: [st.prove(d), st.get_prover(d)]

        # values are put into the secrets, which is what the dictionary is for
        def wsum():
            ss, bs = [W.Secret(value=B(1)), W.Secret(value=B(2))], [g, h]
            return [ss, bs], lambda: [W.z.expr.wsum_secrets(ss, bs).eval(), W.DLRep(
                g + 2 * h, W.z.expr.wsum_secrets(ss, bs)).prove()]
        yield "wsum leaves its lists", wsum

        def bbs(binding):
            def make():
                from mc.spec import bbs_fixture
                kp, sig = bbs_fixture(W, (1, 1))
                ms = [W.Secret(value=B(1)), W.Secret(value=B(1))]
                sv = ([W.Secret(value=sig.e), W.Secret(value=sig.s)] if binding else []) + ms
                return [sv, sig, kp.pk.generators], lambda: W.bbs.BBSPlusSignatureStmt(
                    sv, kp.pk, sig, binding=binding).prove()
            return make
        yield "possession leaves its arguments", bbs(True)
        yield "unbound possession leaves its arguments", bbs(False)

        def commit(zkp):
            def make():
                from mc.spec import bbs_fixture
                kp, sig = bbs_fixture(W, (1, 1))
                ms = [B(1), B(2)]
                cr = W.bbs.BBSPlusSignatureCreator(kp.pk)

                def call():
                    com = cr.commit(ms, zkp=zkp)
                    before = picture(com)
                    for _ in range(20):
                        try:
                            pre = kp.sk.sign(com.com_message)
                            break
                        except Exception:
                            continue
                    p = picture(pre)
                    s = cr.obtain_signature(pre)
                    if not s.verify_signature(kp.pk, ms):
                        raise Exception("not valid")
                    if zkp and not com.verify_blinding(kp.pk):
                        raise Exception("blinding not accepted")
                    if picture(com) != before or picture(pre) != p:
                        raise Exception("a message changed")
                return [ms, kp.pk.generators], call
            return make
        yield "issuance leaves its arguments", commit(True)
        yield "plain issuance leaves its arguments", commit(False)

        def sums():
            l = [B(5), B(7), B(1)]
            return [l], lambda: W.z.utils.sum_bn_array(l, B(8))
        yield "sum_bn_array", sums

        def range_args():
            v, r = W.Secret(value=B(2)), W.Secret(value=B(4))
            com = 2 * g + 4 * h
            return [v, r, com, g, h], lambda: W.Range(com, g, h, 0, 3, v, r).prove()
        yield "range leaves its arguments", range_args

        def ne_args():
            v = W.Secret(value=B(3))
            a, b = (3 * g, g), (4 * h, h)
            return [v, a, b], lambda: W.DLNE(a, b, v, bind=True).prove()
        yield "inequality leaves its arguments", ne_args

        def andlist(cls):
            def make():
                a, b = W.Secret(value=B(3)), W.Secret(value=B(5))
                l = [W.DLRep(3 * g, a * g), W.DLRep(5 * h, b * h)]
                return [l, a, b], lambda: cls(*l).prove()
            return make
        yield "and", andlist(W.And)
        yield "or", andlist(W.Or)

        def transcript():
            st = S.Build(W, T, T.keys()).stmt(("and", LEAVES["ne"][0], LEAVES["ne"][1]))
            vs = S.Build(W, T, ()).stmt(("and", LEAVES["ne"][0], LEAVES["ne"][1]))
            p = st.get_prover()
            v = vs.get_verifier()
            pre = p.precommit()
            a = [pre]

            def call():
                v.process_precommitment(pre)
                com = p.commit()
                one = picture(com)
                c = v.send_challenge(com)
                r = p.compute_response(c)
                two = picture(r)
                if v.verify(r) is not True:
                    raise Exception("not accepted")
                if picture(com) != one or picture(r) != two:
                    raise Exception("a message changed")
            return a, call
        yield "messages stay as they are", transcript

    def items():
        for name, make in scenarios():
            yield "arguments: " + name, make

    def fn(cid, make):
        with quiet(), seams.use(None):
            args, call = make()
            before = [picture(a) for a in args]
            call()
            after = [picture(a) for a in args]
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        for i, (a, b) in enumerate(zip(before, after)):
            rep.require(a == b, cid, "argument %d changed" % i, before=repr(a), after=repr(b))
        rep.outcome("unchanged")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    big = 2 ** 31 - 1
    r = ["real", {}]
    t = ["tiny", dict(q=big, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    both = ["add", "iadd"]
    add(t, "expressions", 4, depth=3, n=2)
    add(t, "expressions", 2, depth=4, n=2, kinds=both)
    add(t, "expressions", depth=2, n=4, ints=True)
    for grp in (0, "G1", "G2", "GT"):
        add(r, "expressions", depth=2, n=2, grp=grp)
    add(t, "meaning", 2, sizes=[1, 2, 3, 4, 5, 6])
    add(r, "meaning", 2, sizes=[1, 2, 3, 4], groups=[0, 2])
    add(r, "meaning", 2, sizes=[1, 2, 3], groups=["G1", "G2", "GT"])
    add(t, "statements", 6, depth=2, leaves="dl")
    add(t, "statements", 4, depth=3, leaves="dl", kinds=["&", "|"], unary=[], proofs=False)
    for l in ("ne", "neu", "rg", "p2", "eg", "bb"):
        add(t, "statements", 2, depth=2, leaves=l, kinds=["&", "|"], unary=["copy"])
    add(r, "statements", 4, depth=2, leaves="dl", kinds=["&", "|"])
    add(t, "refusals")
    add(r, "refusals")
    add(t, "arguments")
    add(r, "arguments")
    if tier == "thorough":
        add(t, "expressions", 8, depth=4, n=2)
        add(t, "expressions", 8, depth=5, n=2, kinds=both)
        add(t, "meaning", 2, sizes=[6], groups=[0, "G1"])
        add(t, "statements", 16, depth=3, leaves="dl", kinds=["&", "|"], unary=["prove"])
        add(t, "statements", 16, depth=3, leaves="dl3", kinds=["&", "|", "and"], unary=[],
            proofs=False)
        for l in ("ne", "rg", "p2", "eg", "bb"):
            add(t, "statements", 8, depth=2, leaves=l)
    return out
