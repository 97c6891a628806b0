"""
Binding.  All ordered pairs of enumerated statements (and of messages): a proof made for the first
and given to a verifier of the second is accepted iff the reference model says that they are the same
statement (same canonical form: public values, bases, order and sharing of secrets, structure, bounds)
and the same message.  Proofs with the statement hash of the other statement put in are tried as well,
and interactive runs.  The same statement written in other ways (names, objects, operators, points
computed differently) must be accepted.  The challenge of a non-interactive proof must be an injective
function of statement, message, precommitments and commitments: checked over all runs whose random
choices are enumerated.
"""
import itertools

from mc import alter, gen, seams, spec as S
from mc.explore import Chooser, spread
from mc.gen import dl, ext_leaf, sid
from mc.harness import HarnessError, flatten, has_infinite, quiet, shards

ASSUMPTIONS = ["SHA-256 does not collide on the enumerated inputs"]

# x and w have the same value, as have r and t
T = {"x": 1, "w": 1, "y": 2, "z": 3, "r": 3, "t": 3, "a": 2, "b": 1, "sig": 1}


def canon(s, ids=None):
    """The reference: what makes up a statement, free of names."""
    if ids is None:
        ids = {}
        s = S.flat(S.unsim(s))

    def vid(v):
        return ids.setdefault(v, len(ids))

    t = s[0]
    if t == "dl":
        lhs = s[2]
        if lhs is None:
            lhs = [(T[v], b) for v, b in s[1]]
        d = {}
        for c, b in lhs:
            d[b] = d.get(b, 0) + c
        return ("dl", s[3], tuple((vid(v), b) for v, b in s[1]),
                tuple(sorted((b, c) for b, c in d.items() if c)))
    if t == "ne":
        _, v, g, h, h1, bind, grp = s
        return ("ne", grp, g, h, T[v], h1, vid(v) if bind else None)
    if t == "p2":
        _, v, r, n, grp = s
        return ("p2", grp, T[v], T[r], n)
    if t == "rg":
        _, v, r, a, b, grp = s
        return ("rg", grp, vid(v), vid(r), T[v], T[r], a, b)
    if t == "bb":
        return ("bb",) + tuple(vid(v) for v in s[1])
    if t == "eg":
        return ("eg", s[3], vid(s[2]), vid(s[1]), T[s[1]], T[s[2]])
    return (t,) + tuple(canon(c, ids) for c in s[1:])


class Fresh:
    """The same world, with every point computed in another way."""

    def __init__(self, W):
        self.root = W

    def __getattr__(self, n):
        return getattr(self.root, n)

    def again(self, p):
        # a different computation of the same element
        g = p.group.generator()
        return ((p + g) + p) + (-1 * (p + g))

    def base(self, name, i=0):
        return self.again(self.root.base(name, i))

    def lin(self, coeffs, i=0):
        return self.again(self.root.lin(coeffs, i))


def prove(W, s, seed=0, message=None, **kw):
    for k in range(8):
        B = S.Build(W, T, T.keys(), **kw)
        ch = Chooser(default=lambda i, n: (7 * i + 3 * (k + seed) + i // 2 + 1) % n, seed=k + seed)
        seams.reset_names()
        with quiet(), seams.use(ch):
            st = B.stmt(s)
            args = {} if message is None else {"message": message}
            nizk = st.prove(**args)
            try:
                if st.verify(nizk, **args) is True:
                    return nizk
            except Exception:
                pass
        if not W.tiny:
            break
    raise HarnessError("no honest proof of %s" % sid(s))


def specs(which):
    x, y, xh, wh, yh = (dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("w", "h")),
                        dl(("y", "h")))
    if which == "leaf":
        out = []
        for n in (1, 2, 3):
            for vs in itertools.product("xwy" if n < 3 else "xw", repeat=n):
                for bs in itertools.product("ghk" if n < 3 else "gh", repeat=n):
                    out.append(dl(*zip(vs, bs)))
        out += [dl(("x", "g"), grp=g) for g in (2, "G1", "GT")]
        out += [dl(("w", "g"), ("x", "h"), grp=g) for g in (2, "G1")]
        return out
    if which == "two":
        L = [x, dl(("w", "g")), y, xh, wh, dl(("x", "g"), ("y", "h")), dl(("y", "h"), ("x", "g"))]
        out = []
        for a, b in itertools.product(L, repeat=2):
            for op in ("and", "or"):
                out.append((op, a, b))
        return out
    if which == "three":
        out = []
        for sh in gen.shapes(3):
            for ls in itertools.product([x, wh, y], repeat=3):
                out.append(gen.fill(sh, ls))
        for sh in gen.shapes(3):
            s = gen.to_operators(gen.fill(sh, (x, wh, y)))
            out.append(s)
        return [s for s in out if S.composition_ok(s)]
    if which == "four":
        out = []
        for sh in gen.shapes(4):
            for ls in ((x, yh, dl(("z", "k")), dl(("w", "g"))), (x, wh, x, wh), (x, xh, y, yh)):
                out.append(gen.fill(sh, ls))
        return [s for s in out if S.composition_ok(s)]
    if which == "ext":
        out = []
        for v, g, h, h1, bind in itertools.product("xwy", "g", "h", (0, 4), (False, True)):
            out.append(("ne", v, g, h, h1, bind, 0))
        out += [("ne", "x", "h", "g", 4, b, 0) for b in (False, True)]
        out += [("ne", "x", "g", "k", 4, b, 0) for b in (False, True)]
        out.append(("ne", "x", "g", "h", 4, True, 2))
        for v, r in ("xr", "wr", "xt", "yr", "xy"):
            for n in (2, 3):
                out.append(("p2", v, r, n, 0))
            for a, b in ((0, 3), (0, 4), (1, 3), (1, 4), (-1, 3), (0, 5)):
                out.append(("rg", v, r, a, b, 0))
            out.append(("eg", v, r, 0))
            out.append(("eg", r, v, 0))
        out += [("p2", "x", "r", 1, 0), ("rg", "x", "r", 1, 2, 0), ("p2", "x", "r", 2, 2)]
        return out
    if which == "bb":
        return [("bb", ms) for ms in (("x",), ("y",), ("x", "y"), ("y", "x"), ("x", "w"), ("x", "x"),
                                      ("w",))]
    if which == "extcomp":
        E = [("ne", "x", "g", "h", 4, False, 0), ("ne", "x", "g", "h", 4, True, 0),
             ("p2", "x", "r", 2, 0), ("rg", "x", "r", 0, 3, 0), ("eg", "x", "r", 0)]
        out = []
        for e in E:
            for l in (dl(("x", "k")), dl(("w", "k")), dl(("y", "k"))):
                out += [("and", e, l), ("and", l, e), ("or", e, l), ("or", l, e), ("and", e, l, l),
                        ("and", e, ("and", l, l))]
            out += [("and", e, e), ("or", e, e)]
        return [s for s in out if S.composition_ok(s)]
    raise ValueError(which)


def accepted(rep, W, f):
    rep.steps += 1
    if not W.tiny:
        rep.real_traces += 1
    try:
        return f() is True
    except Exception:
        return False


def pairs(W, rep, which, swap=True):
    ss = specs(which)

    def items():
        for s in ss:
            yield "proof of " + sid(s), s

    verifiers = {}

    def stmt(s):
        # one statement object per run of the job is enough, but not shared between proofs
        V = S.Build(W, T, ())
        return V.stmt(s)

    def fn(cid, s1):
        nizk = prove(W, s1)
        f = alter.as_dict(nizk)
        c1 = canon(s1)
        n_same = 0
        for s2 in ss:
            same = canon(s2) == c1
            n_same += same
            ok = accepted(rep, W, lambda: stmt(s2).verify(nizk))
            rep.outcome("accepted" if ok else "rejected")
            if ok != same:
                rep.violation(cid, "%s by a verifier of %s" % (
                    "rejected" if same else "accepted", sid(s2)))
            if same or not swap:
                continue
            # with the other statement's hash put in
            try:
                st = stmt(s2)
                if nizk.precommitment is not None:
                    st.get_verifier().process_precommitment(nizk.precommitment)
                h = st.prehash_statement().digest()
            except Exception:
                continue
            g = dict(f, stmt_hash=h)
            if accepted(rep, W, lambda: stmt(s2).verify(W.NIZK(**g))):
                rep.violation(cid, "accepted by a verifier of %s, with its hash put in" % sid(s2))
        rep.sample(case=cid, verifiers=len(ss), same=n_same)

    rep.run(items(), fn)


def interactive(W, rep, which):
    ss = specs(which)

    def run(s1, s2):
        B, V = S.Build(W, T, T.keys()), S.Build(W, T, ())
        prover, verifier = B.stmt(s1).get_prover(), V.stmt(s2).get_verifier()
        pre = prover.precommit()
        try:
            verifier.process_precommitment(pre)
            c = verifier.send_challenge(prover.commit())
            return verifier.verify(prover.compute_response(c))
        except Exception as e:
            if W.tiny and has_infinite(W, pre):
                return "excused"
            raise

    def fn(cid, s1):
        c1 = canon(s1)
        for s2 in ss:
            same = canon(s2) == c1
            seams.reset_names()
            with quiet(), seams.use(Chooser(default=spread)):
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                try:
                    ok = run(s1, s2)
                except Exception:
                    ok = False
            if ok == "excused":
                rep.excused += 1
                continue
            ok = ok is True
            rep.outcome("accepted" if ok else "rejected")
            if ok != same:
                rep.violation(cid, "%s by a verifier of %s" % (
                    "rejected" if same else "accepted", sid(s2)))

    rep.run((("run of " + sid(s), s) for s in ss), fn)


MESSAGES = ["", "a", "b", "A", "ab", "ba", "a\0", "\0", "\0a", " a", "a ", "a\n", "e\u0301", "\u00e9",
            "\u4e2d", "\U0001f600", "x" * 100, "x" * 101, "x" * 99 + "y", "y" + "x" * 99, "0", "00",
            "None", "x" * 70000 + "y", "x" * 70000 + "z", "y" + "x" * 70000, "\u212b", "\u00c5", "\t", " "]


def messages(W, rep):
    x, y, xh = dl(("x", "g")), dl(("y", "h")), dl(("x", "h"))
    ss = [x, ("and", x, xh), ("or", x, y), ("and", ("or", x, y), dl(("z", "k"))),
          ("or", ("and", x, xh), y), ("ne", "x", "g", "h", 4, True, 0), ("p2", "x", "r", 2, 0),
          ("eg", "x", "r", 0), ("or", ("ne", "x", "g", "h", 4, False, 0), y),
          ("and", ("eg", "x", "r", 0), y)]
    if W.tiny:
        ss += [("rg", "x", "r", 0, 3, 0), ("bb", ("x", "y"))]

    def fn(cid, s):
        proofs = [(m, prove(W, s, message=m)) for m in MESSAGES]
        proofs.append((None, prove(W, s)))
        chals = {}
        for m, p in proofs:
            if m is not None:
                o = chals.setdefault(int(p.challenge), m)
                if o != m:
                    rep.violation(cid, "the challenge does not depend on the message: %r %r" % (o, m))
            for m2 in MESSAGES + [None]:
                st = S.Build(W, T, ()).stmt(s)
                same = (m or "") == (m2 or "")
                ok = accepted(rep, W, lambda: st.verify(p) if m2 is None else
                              st.verify(p, message=m2))
                rep.outcome("accepted" if ok else "rejected")
                if ok != same:
                    rep.violation(cid, "proof for message %r %s with %r" % (
                        m and m[:12], "rejected" if same else "accepted", m2 and m2[:12]))

    rep.run((("messages " + sid(s), s) for s in ss), fn)


def writings(W, rep, which):
    """One statement written in several ways."""
    ss = specs(which)
    if which in ("two", "three"):
        ss = ss[::3]
    F = Fresh(W)

    def fn(cid, s):
        def secrets(named, order):
            vs = list(S.variables(s))
            if order:
                vs.reverse()
            out = {}
            for i, v in enumerate(v for v in vs if v != "sig"):
                out[v] = W.Secret(name=named[i] if named else None)
            return out

        ways = {"plain": lambda: S.Build(W, T, ()),
                "other points": lambda: S.Build(F, T, ()),
                "named": lambda: S.Build(W, T, (), named=True),
                "other names": lambda: S.Build(W, T, (), shared=secrets(
                    ["", "0", "x", "Secret()", "None", "\u00e9", "1"], False)),
                "reverse names": lambda: S.Build(W, T, (), shared=secrets(None, True)),
                "names exchanged": lambda: S.Build(W, T, (), shared=secrets(
                    ["name-" + v for v in reversed(S.variables(s))], False)),
                "shared objects": lambda: S.Build(W, T, (), share_leaves=True),
                "values known": lambda: S.Build(W, T, T.keys(), shared=None)}
        for named in (False, True):
            nizk = prove(W, s, named=named)
            for k, mk in ways.items():
                if k == "names exchanged" and "sig" in S.variables(s):
                    continue
                st = mk().stmt(s)
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                try:
                    ok = st.verify(nizk) is True
                except Exception as e:
                    ok = e
                if ok is not True:
                    rep.violation(cid, "the same statement, written in another way (%s), does not "
                                  "accept: %r" % (k, ok))
                rep.outcome("accepted" if ok is True else "rejected")
        # the operators
        if not S.is_leaf(s) and not any(l[0] == "rg" for l in S.leaves(s)):
            # (a range statement is itself a conjunction, into which the operator merges)
            o = gen.to_operators(S.unsim(S.flat(s)))
            if canon(o) == canon(s):
                nizk = prove(W, s)
                rep.require(accepted(rep, W, lambda: S.Build(W, T, ()).stmt(o).verify(nizk)), cid,
                            "written with operators, it does not accept")

    rep.run((("ways to write " + sid(s), s) for s in ss), fn)


def binary(ls):
    """All ways to bracket a list."""
    if len(ls) == 1:
        yield ls[0]
        return
    for i in range(1, len(ls)):
        for l in binary(ls[:i]):
            for r in binary(ls[i:]):
                yield (l, r)


def groupings(W, rep, big=5):
    """However a chain of one operator is bracketed (and accumulated), it is the one flat statement."""
    leaves = [dl(("x", "g")), dl(("y", "h")), dl(("z", "k")), dl(("w", "g"), ("w", "h")), dl(("r", "g"))]
    ext = ext_leaf("neb", "a")
    truth = dict(T, ax=2)

    def items():
        for op, word, other in (("&", "and", "or"), ("|", "or", "and")):
            for n in range(2, big + 1):
                for k, special in enumerate((None, (other, dl(("a", "g")), dl(("b", "h"))), ext)):
                    for at in range(n) if special else (0,):
                        ls = list(leaves[:n])
                        if special:
                            ls[at] = special
                        flat = (word,) + tuple(ls)
                        for i, tree in enumerate(binary(list(range(n)))):
                            yield "%s of %d, member %d special %d, bracketing %d" % (word, n, at, k, i), (
                                op, flat, ls, tree)

    def build(B, op, ls, tree):
        import operator

        f = {"&": operator.and_, "|": operator.or_}[op]

        def go(t):
            return B.stmt(ls[t]) if isinstance(t, int) else f(go(t[0]), go(t[1]))
        return go(tree)

    def fn(cid, item):
        op, flat, ls, tree = item

        def body():
            B, V = S.Build(W, truth, truth.keys()), S.Build(W, truth, ())
            a, b = build(B, op, ls, tree), B.stmt(flat)
            va, vb = build(V, op, ls, tree), V.stmt(flat)
            return vb.verify(a.prove()), va.verify(b.prove())

        def check(res, ch):
            if res[0] == "exc" and getattr(type(res[1]), "__name__", "") == "ValidationError" and W.tiny \
                    and "unity" in str(res[1]).lower():
                rep.excused += 1
                return
            rep.require(res == ("ok", (True, True)), cid, "another bracketing is another statement: %r" % (
                res[1],), path=ch.path)
            rep.outcome("accepted")

        rep.explore(cid, body, check, deviations=0)

    rep.run(items(), fn)


def key(x):
    return tuple(repr(y) for y in flatten(x))


def hashing(W, rep, deviations=1, which="few"):
    """Challenge -> (statement, message, precommitment, commitment) is a function, over all runs."""
    x, y, xh, w = dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("w", "g"))
    yh = dl(("y", "h"))
    ss = [x, w, y, xh, dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("w", "h")), dl(("x", "g"), ("x", "h")),
          ("and", x, xh), ("and", x, dl(("w", "h"))), ("and", x, y), ("and", y, x), ("or", x, yh),
          ("or", x, y), ("or", y, x), ("and", x, xh, y), ("and", ("and", x, xh), y),
          ("and", x, ("and", xh, y)), ("or", x, yh, y), ("or", ("or", x, yh), y),
          ("or", ("and", x, y), yh), ("and", ("or", x, yh), dl(("z", "k")))]
    for e in (("ne", "x", "g", "h", 4, False, 0), ("ne", "x", "g", "h", 4, True, 0),
              ("ne", "y", "g", "h", 4, True, 0), ("p2", "x", "r", 1, 0), ("p2", "x", "r", 2, 0),
              ("p2", "y", "r", 2, 0), ("rg", "x", "r", 0, 3, 0), ("rg", "x", "r", 1, 4, 0),
              ("eg", "x", "r", 0), ("eg", "r", "x", 0)):
        ss += [e, ("and", e, dl(("z", "k"))), ("or", dl(("z", "k")), e)]
    ss += [("bb", ("x", "y")), ("bb", ("y", "x"))]
    # x and w have one value: the same points, whatever the sharing.  With a constant tape the
    # commitments are the same as well, and only the statement can make a difference.
    alike = [(op, dl((a, "g"), (b, "h")), dl((c, "g"), (d, "h")))
             for op in ("and", "or") for a, b, c, d in itertools.product("xw", repeat=4)]
    alike += [(op, dl((a, "g")), (op2, dl((b, "h")), dl((c, "g"), (d, "h"))))
              for op, op2 in (("and", "and"), ("or", "or"), ("or", "and"))
              for a, b, c, d in itertools.product("xw", repeat=4)]
    alike += [("and", dl((a, "g")), ("ne", b, "g", "h", 4, True, 0), dl((c, "h")))
              for a, b, c in itertools.product("xw", repeat=3)]
    ss += alike

    seen = {}

    def one(cid, s, message, ch):
        seams.reset_names()
        B = S.Build(W, T, T.keys())
        with quiet(), seams.use(ch):
            st = B.stmt(s)
            nizk = st.prove(message=message)
        V = S.Build(W, T, ())
        vs = V.stmt(s)
        vs.get_verifier().process_precommitment(nizk.precommitment)
        com = vs.recompute_commitment(nizk.challenge, nizk.responses)
        k = (canon(s), message, key(nizk.precommitment), key(com))
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        o = seen.setdefault(int(nizk.challenge), (k, sid(s)))
        if o[0] != k:
            what = [n for n, a, b in zip(("statement", "message", "precommitment", "commitment"),
                                         o[0], k) if a != b]
            rep.violation(cid, "the challenge does not depend on: %s" % ", ".join(what), other=o[1])

    class Perturb:
        """Answers large and small draws from a fixed table, with one position changed."""

        def __init__(self, at):
            self.at, self.i, self.points, self.n = at, 0, [], 0

        def choose(self, n, kind="num"):
            n = int(n)
            i = self.i
            self.i += 1
            base = (5 * i + i // 3 + 2) % min(n, 1 << 60)
            if n > 1 << 60:
                base = n // 3 + 1000003 * i
            if kind == "branch":
                base = 0
            if self.at is not None and i == self.at[0]:
                base += self.at[1]
            return base % n

    class Constant:
        points = ()

        def __init__(self, c):
            self.c = c

        def choose(self, n, kind="num"):
            return 0 if kind == "branch" else self.c % int(n)

    def fn(cid, s):
        for c in (2, 5):
            one(cid, s, "", Constant(c))
        if s in alike:
            return
        for m in ("", "m", "n"):
            ch = Perturb(None)
            one(cid, s, m, ch)
        n = ch.i
        for i in range(min(n, 60)):
            for d in ((1, 2, 3) if W.tiny else (1,)):
                one(cid, s, "", Perturb((i, d)))
        if W.tiny and n <= 5:
            # all runs
            def body():
                one(cid, s, "all", seams.CUR)

            def check(res, ch):
                if res[0] == "exc":
                    raise res[1]

            rep.explore(cid, body, check, deviations=2)
        rep.outcome("challenges", n)

    # all in one shard: the table spans the statements
    rep.run((("hashing " + sid(s), s) for s in ss), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t = ["tiny", dict(q=13, d=3, bits=3, d1=4, d2=1)]
    r = ["real", {}]
    add(r, "pairs", 2, which="ext")
    add(r, "pairs", which="leaf")
    add(r, "pairs", 2, which="two")
    add(r, "pairs", which="extcomp")
    add(r, "pairs", which="bb")
    add(r, "hashing")
    add(r, "messages", 2)
    add(r, "interactive", which="ext")
    add(r, "interactive", which="leaf")
    add(r, "interactive", which="two")
    for k in ("leaf", "two", "three", "ext", "extcomp", "bb"):
        add(t, "pairs", 2 if k in ("leaf", "three", "ext") else 1, which=k)
        if k not in ("three",):
            add(t, "interactive", 1, which=k)
        add(t, "writings", which=k)
        if k not in ("three",):
            add(r, "writings", 2 if k == "ext" else 1, which=k)
    add(t, "groupings")
    add(r, "groupings", big=4)
    add(t, "messages")
    add(t, "hashing")
    if tier == "thorough":
        add(t, "pairs", 8, which="four")
        add(r, "pairs", 8, which="three")
        add(r, "pairs", 8, which="four")
        add(t, "interactive", 4, which="three")
        add(r, "writings", 4, which="three")
    return out
