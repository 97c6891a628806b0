"""
Sharing of secrets.  (1) rules: all trees over and/or with all ways to share secrets and to assign
groups, built by constructors and operators, with unnamed secrets, named ones, and separate objects of
the same name: prover and verifier refuse exactly the compositions that the reference model
(spec.composition_ok) calls unsupported.  The verifier meets proofs of its own protocol that satisfy
every equation: made by a reference prover that is written from the protocol alone and does not check
compositions.  The same where primitives of the user's construct one or two parts of the tree.  (2) values: all assignments of values to the occurrences of shared secrets: accepted
exactly if every secret has one value throughout each conjunction that is proven.  (3) the same with the
provided primitives that link their secrets to others.
"""
import itertools

from mc import alter, gen, seams, spec as S
from mc.explore import Scripted
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["cheating provers of (2) and (3) respond as the protocol says for the values they have; "
               "all responses are covered by P03 for small groups"]


class Copies(S.Build):
    """Every use of a secret is an object of its own, with the same name and value."""

    def sec(self, v):
        kw = {"name": "name-" + v}
        if v in self.known:
            kw["value"] = self.val(v)
        return self.W.Secret(**kw)


def builder(W, truth, known, naming):
    if naming == "copies":
        return Copies(W, truth, known, named=True)
    return S.Build(W, truth, known, named=naming == "named")


# -- a prover written from the protocol alone ----------------------------------------------------
class Ref:
    """
    Proves a tree over representations.  vals(leaf number, position) gives the values; picks: the
    branches of the disjunctions that are really proven, in order of the nodes; the others are simulated.
    """

    def __init__(self, W, spec, vals, picks, first=False):
        self.W, self.spec, self.vals = W, S.flat(spec), vals
        self.space = 1 << (W.bits if W.tiny else 128)
        self.n = 0
        self.leafs = {}
        i = 0
        self.first = first  # answer with the value of the first occurrence everywhere

        def number(s, path):
            nonlocal i
            if S.is_leaf(s):
                self.leafs[path] = i
                i += 1
            else:
                for j, c in enumerate(s[1:]):
                    number(c, path + (j,))

        number(self.spec, ())
        self.picks = {}
        it = iter(picks)
        self._choose(self.spec, (), it)
        self.picks_left = list(it)
        self.com = self._commit(self.spec, (), {})

    def _choose(self, s, path, it):
        if s[0] == "or":
            self.picks[path] = next(it, 0) % (len(s) - 1)
        if not S.is_leaf(s):
            for j, c in enumerate(s[1:]):
                self._choose(c, path + (j,), it)

    def draw(self, n):
        return seams._below(n, "num")

    def lhs(self, s, path):
        lhs = s[2]
        if lhs is None:
            n = self.leafs[path]
            lhs = [(self.vals(n, j), b) for j, (v, b) in enumerate(s[1])]
        return self.W.lin(lhs, s[3])

    def _commit(self, s, path, ks):
        W = self.W
        if S.is_leaf(s):
            out = []
            for v, b in s[1]:
                if v not in ks:
                    ks[v] = self.draw(self.space << 40 if not W.tiny else W.order(s[3]))
                out.append((ks[v], b))
            self._state = getattr(self, "_state", {})
            self._state[path] = [k for k, _ in out]
            return W.lin(out, s[3])
        if s[0] == "and":
            return [self._commit(c, path + (j,), ks) for j, c in enumerate(s[1:])]
        res = []
        self._state = getattr(self, "_state", {})
        sims = self._state[path] = {}
        for j, c in enumerate(s[1:]):
            if j == self.picks[path]:
                res.append(self._commit(c, path + (j,), {}))
            else:
                ch = self.draw(self.space)
                com, resp = self._simulate(c, path + (j,), {}, ch)
                sims[j] = (ch, resp)
                res.append(com)
        return res

    def _simulate(self, s, path, rs, ch):
        W = self.W
        if S.is_leaf(s):
            for v, _ in s[1]:
                if v not in rs:
                    rs[v] = self.draw(W.order(s[3]))
            com = W.lin([(rs[v], b) for v, b in s[1]], s[3]) + W.bn(-ch) * self.lhs(s, path)
            return com, [W.bn(rs[v]) for v, _ in s[1]]
        if s[0] == "and":
            pairs = [self._simulate(c, path + (j,), rs, ch) for j, c in enumerate(s[1:])]
            return [a for a, _ in pairs], [b for _, b in pairs]
        n = len(s) - 1
        chs = [self.draw(self.space) for _ in range(n - 1)]
        chs.append((ch - sum(chs)) % self.space)
        pairs = [self._simulate(c, path + (j,), {}, chs[j]) for j, c in enumerate(s[1:])]
        return [a for a, _ in pairs], ([W.bn(c) for c in chs], [b for _, b in pairs])

    def respond(self, ch):
        return self._respond(self.spec, (), int(ch), {})

    def _respond(self, s, path, ch, seen):
        W = self.W
        if S.is_leaf(s):
            out = []
            for j, ((v, b), k) in enumerate(zip(s[1], self._state[path])):
                x = self.vals(self.leafs[path], j)
                if self.first:
                    x = seen.setdefault(v, x)
                # unreduced: equal for bases of different orders
                out.append(W.bn(k + ch * x))
            return out
        if s[0] == "and":
            return [self._respond(c, path + (j,), ch, seen) for j, c in enumerate(s[1:])]
        sims = self._state[path]
        mine = (ch - sum(c for c, _ in sims.values())) % self.space
        chs, resp = [], []
        for j, c in enumerate(s[1:]):
            if j in sims:
                chs.append(W.bn(sims[j][0]))
                resp.append(sims[j][1])
            else:
                chs.append(W.bn(mine))
                resp.append(self._respond(c, path + (j,), mine, {}))
        return (chs, resp)


def ors(s):
    return [n for n in S.nodes(s) if n[0] == "or"]


def run_ref(W, vs, ref, how):
    """Does the verifier accept the reference prover?  True, False or the exception."""
    try:
        digest = vs.prehash_statement().digest()
        if how == "nizk":
            fs = W.z.base.build_fiat_shamir_challenge
            c = fs(vs.prehash_statement(), None, ref.com, message="")
            return vs.verify(W.NIZK(challenge=c, responses=ref.respond(c), precommitment=None,
                                    stmt_hash=digest))
        verifier = vs.get_verifier()
        verifier.process_precommitment(None)
        c = verifier.send_challenge((digest, ref.com))
        return verifier.verify(ref.respond(c))
    except Exception as e:
        return e


# -- (1) the rules -------------------------------------------------------------------------------
def growth(n, k):
    """Ways to name n things with at most k names, up to renaming."""
    def rec(pre):
        if len(pre) == n:
            yield tuple(pre)
            return
        for i in range(min(k, max(pre, default=-1) + 2)):
            yield from rec(pre + [i])
    yield from rec([])


NAMES = "xyzuv"
BASE = "ghkmnp"


def trees(n, groups, terms, maxvars):
    """All trees with n leaves of the given numbers of terms, all sharing patterns and groups."""
    for shape in gen.shapes(n):
        for sizes in itertools.product(terms, repeat=n):
            for pat in growth(sum(sizes), maxvars):
                for gs in itertools.product(groups, repeat=n):
                    if gs[0] != groups[0] and len(groups) > 1 and set(gs) == {gs[0]}:
                        continue
                    it = iter(pat)
                    leafs = []
                    for i, k in enumerate(sizes):
                        leafs.append(dl(*[(NAMES[next(it)], BASE[(i + j) % 6]) for j in range(k)],
                                        grp=gs[i]))
                    yield gen.fill(shape, leafs)


TRUTH = {"x": 3, "y": 5, "z": 7, "u": 11, "v": 13, "r": 4, "s": 9, "sig": 1}


def rules(W, rep, n, groups=(0,), terms=(1,), maxvars=5, namings=("plain", "copies"), ops=True,
          deep=False, hows=("nizk", "interactive")):
    def items():
        for s in trees(n, groups, terms, maxvars):
            for naming in namings:
                for form in (s, gen.to_operators(s)) if ops and n > 2 else (s,):
                    yield "rules: %s %s" % (sid(form), naming), (form, naming)

    def fn(cid, item):
        s, naming = item
        ok = S.composition_ok(s)
        flat = S.flat(s)
        known = S.variables(s)

        # the prover
        def body():
            st = builder(W, TRUTH, known, naming).stmt(s)
            return st.prove()

        def check(res, ch):
            if ok:
                if res[0] != "ok":
                    rep.violation(cid, "the prover refuses a supported composition: %r" % (res[1],))
                    return
                with quiet():
                    try:
                        good = builder(W, TRUTH, (), naming).stmt(s).verify(res[1])
                    except Exception as e:
                        good = e
                rep.require(good is True, cid, "the proof is not accepted: %r" % (good,))
            else:
                rep.require(res[0] == "exc", cid, "the prover does not refuse")
            rep.outcome("supported" if ok else "refused by the prover")

        st = rep.explore(cid, body, check, deviations=0, free_branches=deep)

        def body2():
            st = builder(W, TRUTH, known, naming).stmt(s)
            prover = st.get_prover()
            prover.precommit()
            return prover.commit()

        def check2(res, ch):
            if ok:
                rep.require(res[0] == "ok", cid, "the interactive prover refuses a supported "
                            "composition: %r" % (res[1],))
            else:
                rep.require(res[0] == "exc", cid, "the interactive prover does not refuse")

        rep.explore(cid, body2, check2, deviations=0, free_branches=deep)

        # the verifier
        order = {}
        i = 0
        for l in S.leaves(flat):
            order[i] = [TRUTH[v] for v, _ in l[1]]
            i += 1
        widths = [len(o) - 1 for o in ors(flat)]
        allpicks = list(itertools.product(*[range(w) for w in widths]))
        with quiet(), seams.use(None):
            for picks in allpicks if deep else allpicks[-1:] + allpicks[:1]:
                for how in hows:
                    ref = Ref(W, s, lambda a, b: order[a][b], picks)
                    vs = builder(W, TRUTH, (), naming).stmt(s)
                    got = run_ref(W, vs, ref, how)
                    rep.steps += 1
                    if not W.tiny:
                        rep.real_traces += 1
                    if ok:
                        rep.require(got is True, cid, "the verifier refuses a supported composition "
                                    "(%s): %r" % (how, got))
                    else:
                        rep.require(got is not True, cid, "the verifier does not refuse (%s)" % how)
                        rep.outcome("refused by the verifier")

    rep.run(items(), fn)


# -- (1b) user-defined primitives around parts of the tree ---------------------------------------
def paths(s, path=()):
    yield path
    if not S.is_leaf(s):
        for j, c in enumerate(s[1:]):
            yield from paths(c, path + (j,))


def wrapped(W, rep, n, groups=(0,), terms=(1,), maxvars=4, namings=("plain",)):
    """The rules again, where primitives of the user's construct parts of the tree."""
    class Wrap(W.Ext):
        def __init__(self, build):
            self.build = build

        def construct_stmt(self, precommitment):
            return self.build()

    def build(B, s, wraps, path=()):
        if path in wraps:
            # they are not nested
            return Wrap(lambda: build(B, s, (), path))
        if S.is_leaf(s):
            return B.stmt(s)
        return (W.And if s[0] == "and" else W.Or)(
            *[build(B, c, wraps, path + (j,)) for j, c in enumerate(s[1:])])

    def pre(s, wraps, path=()):
        if path in wraps:
            return []
        if S.is_leaf(s):
            return None
        out = [pre(c, wraps, path + (j,)) for j, c in enumerate(s[1:])]
        return None if all(x is None for x in out) else out

    def items():
        for s in trees(n, groups, terms, maxvars):
            every = list(paths(s))
            for wraps in [(p,) for p in every] + [tuple(p for p in every if len(p) == 1)] + [
                    (p, q) for p in every for q in every if p < q and q[:len(p)] != p]:
                for naming in namings:
                    yield "wrapped: %s at %s %s" % (sid(s), ",".join("".join(map(str, p)) or "root"
                                                                   for p in wraps), naming), (s, wraps, naming)

    def fn(cid, item):
        s, wraps, naming = item
        ok = S.composition_ok(s)
        known = S.variables(s)

        def party(known):
            return build(builder(W, TRUTH, known, naming), s, wraps)

        def body():
            return party(known).prove()

        def check(res, ch):
            if not ok:
                rep.require(res[0] == "exc", cid, "the prover does not refuse")
                rep.outcome("refused by the prover")
                return
            if not rep.require(res[0] == "ok", cid, "the prover refuses a supported composition: %r" % (res[1],)):
                return
            with quiet():
                try:
                    good = party(()).verify(res[1])
                except Exception as e:
                    good = e
            rep.require(good is True, cid, "the proof is not accepted: %r" % (good,))
            rep.outcome("supported")

        rep.explore(cid, body, check, deviations=0)

        vals = [[TRUTH[v] for v, _ in l[1]] for l in S.leaves(s)]
        widths = [len(o) - 1 for o in ors(S.flat(s))]
        p0 = pre(s, set(wraps))
        with quiet(), seams.use(None):
            for how in ("nizk", "interactive"):
                ref = Ref(W, s, lambda a, b: vals[a][b], [w - 1 for w in widths])
                vs = party(())
                try:
                    if how == "interactive":
                        verifier = vs.get_verifier()
                        verifier.process_precommitment(p0)
                        c = verifier.send_challenge((vs.prehash_statement().digest(), ref.com))
                        got = verifier.verify(ref.respond(c))
                    else:
                        h = party(())
                        h.get_verifier().process_precommitment(p0)
                        h = h.prehash_statement()
                        digest = h.digest()
                        c = W.z.base.build_fiat_shamir_challenge(h, p0, ref.com, message="")
                        got = vs.verify(W.NIZK(challenge=c, responses=ref.respond(c), precommitment=p0,
                                               stmt_hash=digest))
                except Exception as e:
                    got = e
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                if ok:
                    rep.require(got is True, cid, "the verifier refuses a supported composition "
                                "(%s): %r" % (how, got))
                else:
                    rep.require(got is not True, cid, "the verifier does not refuse (%s)" % how)
                    rep.outcome("refused by the verifier")

    rep.run(items(), fn)


# -- (2) values ----------------------------------------------------------------------------------
def consistent(s, number, vals, picks):
    """Is there one value for each secret throughout each proven conjunction?"""
    it = iter(picks)
    chosen = {}

    def choose(n, path):
        if n[0] == "or":
            chosen[path] = next(it, 0) % (len(n) - 1)
        if not S.is_leaf(n):
            for j, c in enumerate(n[1:]):
                choose(c, path + (j,))

    choose(s, ())
    count = [0]
    numbers = {}

    def num(n, path):
        if S.is_leaf(n):
            numbers[path] = count[0]
            count[0] += 1
        else:
            for j, c in enumerate(n[1:]):
                num(c, path + (j,))

    num(s, ())

    def rec(n, path, env):
        if S.is_leaf(n):
            return all(env.setdefault(v, vals[numbers[path]][j]) == vals[numbers[path]][j]
                       for j, (v, _) in enumerate(n[1]))
        if n[0] == "and":
            return all([rec(c, path + (j,), env) for j, c in enumerate(n[1:])])
        j = chosen[path]
        return rec(n[1 + j], path + (j,), {})

    return rec(s, (), {})


def values(W, rep, n, terms=(1,), maxvars=2, vals=(1, 2), namings=("plain", "copies")):
    def items():
        for s in trees(n, (0,), terms, maxvars):
            if not S.composition_ok(s) or s[0] != "and" and S.or_free(s):
                continue
            occ = [len(l[1]) for l in S.leaves(s)]
            for v in itertools.product(vals, repeat=sum(occ)):
                it = iter(v)
                per = [tuple(next(it) for _ in range(k)) for k in occ]
                if v[0] != vals[0]:
                    continue
                yield "values: %s %s" % (sid(s), per), (s, per)

    def fn(cid, item):
        s, per = item
        widths = [len(o) - 1 for o in ors(s)]
        i = [0]

        def with_lhs(n):
            if S.is_leaf(n):
                k = i[0]
                i[0] += 1
                return ("dl", n[1], tuple((x, b) for x, (_, b) in zip(per[k], n[1])), n[3])
            return (n[0],) + tuple(with_lhs(c) for c in n[1:])

        s2 = with_lhs(s)
        with quiet(), seams.use(None):
            for picks in itertools.product(*[range(w) for w in widths]):
                want = consistent(s, None, per, picks)
                for naming in namings:
                    for how in ("nizk", "interactive"):
                        for first in (False, True):
                            ref = Ref(W, s2, lambda a, b: per[a][b], picks, first)
                            got = run_ref(W, builder(W, {}, (), naming).stmt(s2), ref, how)
                            rep.steps += 1
                            if not W.tiny:
                                rep.real_traces += 1
                            if (got is True) != want:
                                rep.violation(cid, "branches %s, %s %s: %s" % (
                                    picks, how, naming, "different values accepted" if got is True
                                    else "equal values not accepted: %r" % (got,)))
                                return
                            rep.outcome("equal, accepted" if want else "different, rejected")

    rep.run(items(), fn)


# -- (3) primitives ------------------------------------------------------------------------------
def leaf(kind, x="x", r="r", p=""):
    return {
        "ne": ("ne", x, "g", "h", 4, False, 0),
        "neb": ("ne", x, "g", "h", 4, True, 0),
        "p2": ("p2", x, r, 3, 0),
        "rg": ("rg", x, r, 0, 6, 0),
        "rg1": ("rg", x, r, 3, 4, 0),
        "eg": ("eg", x, r, 0),
        "bb": ("bb", (x, r)),
    }[kind]


KINDS = ("ne", "neb", "p2", "rg", "rg1", "eg", "bb")


def scoped(s):
    """The same statement with a secret of its own for every or-branch."""
    def rec(n, suffix):
        if S.is_leaf(n):
            def f(v):
                return v if v == "sig" else v + suffix
            if n[0] == "dl":
                return ("dl", tuple((f(v), b) for v, b in n[1]), n[2], n[3])
            if n[0] == "bb":
                return ("bb", tuple(f(v) for v in n[1]))
            if n[0] == "ne":
                return n[:1] + (f(n[1]),) + n[2:]
            return n[:1] + (f(n[1]), f(n[2])) + n[3:]
        out = [n[0]]
        for j, c in enumerate(n[1:]):
            out.append(rec(c, suffix + "'%d" % j if n[0] == "or" else suffix))
        return tuple(out)

    return rec(s, "")


def linked(W, rep, kinds=KINDS):
    """Every primitive next to, or on another side of a disjunction from, a use of its secret."""
    def specs():
        for k in kinds:
            E = leaf(k)
            grp = "G1" if k == "bb" else 0
            d = dl(("x", "k"), grp=grp)
            o = dl(("y", "m"), grp=grp)
            dr = dl(("r", "k"), grp=grp)
            yield k, "and", ("and", E, d)
            yield k, "and reversed", ("and", d, E)
            yield k, "deep and", ("and", ("and", E, o), d)
            yield k, "deep and reversed", ("and", d, ("and", o, E))
            if k not in ("ne", "neb"):
                yield k, "second", ("and", E, dr)
                yield k, "second inside", ("and", ("or", E, o), dr)
                yield k, "second outside", ("and", ("or", dr, o), E)
            yield k, "or", ("or", E, d)
            yield k, "inside", ("and", ("or", E, o), d)
            yield k, "inside reversed", ("and", d, ("or", o, E))
            yield k, "outside", ("and", ("or", d, o), E)
            yield k, "outside reversed", ("and", E, ("or", o, d))
            yield k, "deep inside", ("and", ("or", ("and", E, o), o), ("and", d, d))
            yield k, "deep outside", ("and", ("and", o, ("or", d, d)), E)
            yield k, "both inside", ("and", ("or", ("and", E, d), o), dl(("z", "g"), grp=grp))
            yield k, "and in or", ("or", ("and", E, d), o)
            yield k, "or in and in or", ("or", o, ("and", ("or", E, o), d))
            # another group order
            yield k, "other order", ("and", E, dl(("x", "k"), grp=2))
            yield k, "other order in or", ("or", E, dl(("x", "k"), grp=2))
        for a, b in itertools.product(kinds, repeat=2):
            ga, gb = ("G1" if k == "bb" else 0 for k in (a, b))
            yield a + "," + b, "and", ("and", leaf(a), leaf(b, r="s"))
            yield a + "," + b, "inside", ("and", ("or", leaf(a), dl(("y", "m"), grp=ga)),
                                          leaf(b, r="s"))
            yield a + "," + b, "twice inside", ("and", ("or", leaf(a), dl(("y", "m"), grp=ga)),
                                                ("or", dl(("y2", "m"), grp=gb), leaf(b, r="s")))

    T = dict(TRUTH)
    T["y2"] = 5

    def items():
        for kind, name, s in specs():
            for naming in ("plain", "copies"):
                yield "linked: %s %s %s" % (kind, name, naming), (s, naming)

    def prover_like(s, naming):
        """An honest prover for the statement with or-branches that share nothing."""
        a = scoped(s)
        truth = dict(T)
        for v in S.variables(a):
            truth[v] = T[v.split("'")[0]]
        return builder(W, truth, S.variables(a), naming).stmt(a)

    def fn(cid, item):
        s, naming = item
        ok = S.composition_ok(s)
        known = S.variables(s)

        def body():
            return builder(W, T, known, naming).stmt(s).prove()

        def check(res, ch):
            if ok:
                if res[0] != "ok":
                    rep.violation(cid, "the prover refuses a supported composition: %r" % (res[1],))
                    return
                with quiet():
                    try:
                        good = builder(W, T, (), naming).stmt(s).verify(res[1])
                    except Exception as e:
                        good = e
                rep.require(good is True, cid, "the proof is not accepted: %r" % (good,))
                rep.outcome("supported")
            else:
                rep.require(res[0] == "exc", cid, "the prover does not refuse")
                rep.outcome("refused by the prover")

        rep.explore(cid, body, check, deviations=0)

        def attack():
            ps = prover_like(s, naming)
            vs = builder(W, T, (), naming).stmt(s)
            prover, verifier = ps.get_prover(), vs.get_verifier()
            pre = prover.precommit()
            verifier.process_precommitment(pre)
            _, com = prover.commit()
            c = verifier.send_challenge((vs.prehash_statement().digest(), com))
            return verifier.verify(prover.compute_response(c))

        def attack_nizk():
            ps = prover_like(s, naming)
            vs = builder(W, T, (), naming).stmt(s)
            prover = ps.get_prover()
            pre = prover.precommit()
            _, com = prover.commit()
            vs.get_verifier().process_precommitment(pre)
            h = vs.prehash_statement()
            digest = h.digest()
            c = W.z.base.build_fiat_shamir_challenge(h, pre, com, message="")
            vs = builder(W, T, (), naming).stmt(s)
            return vs.verify(W.NIZK(challenge=c, responses=prover.compute_response(c),
                                    precommitment=pre, stmt_hash=digest))

        def check2(res, ch):
            good = res == ("ok", True)
            if ok:
                rep.require(good, cid, "the verifier refuses a supported composition: %r" % (res[1],))
            else:
                rep.require(not good, cid, "the verifier does not refuse")
                rep.outcome("refused by the verifier")

        if S.composition_ok(scoped(s)):
            rep.explore(cid, attack, check2, deviations=0)
            rep.explore(cid, attack_nizk, check2, deviations=0)

    rep.run(items(), fn)


def differing(W, rep, kinds=("neb", "rg", "rg1", "eg", "bb")):
    """A primitive and a representation that should have the same secret, with different values."""
    def items():
        for k in kinds:
            for name in ("and", "reversed", "deep", "in or", "second"):
                if name == "second" and k == "neb":
                    continue
                for delta in (0, 1, -1):
                    for how in ("nizk", "interactive"):
                        for bel in ("first", "second", "each"):
                            yield "differing: %s %s %+d %s believes %s" % (k, name, delta, how, bel), (
                                k, name, delta, how, bel)

    def fn(cid, item):
        k, name, delta, how, bel = item
        grp = "G1" if k == "bb" else 0
        E = leaf(k)
        v = "r" if name == "second" else "x"
        lhs = ((TRUTH[v] + delta, "k"),)
        o = dl(("y", "m"), grp=grp)

        def make(d):
            return {"and": ("and", E, d), "second": ("and", E, d), "reversed": ("and", d, E),
                    "deep": ("and", ("and", o, E), ("and", d, o)),
                    "in or": ("or", dl(("z", "g"), lhs=((1, "h"),), grp=grp), ("and", d, E))}[name]

        s = make(dl((v, "k"), lhs=lhs, grp=grp))
        with quiet(), seams.use(None):
            T = dict(TRUTH)
            if bel == "each":
                # one statement with two secrets
                T["w"] = TRUTH[v] + delta
                a = make(dl(("w", "k"), lhs=lhs, grp=grp))
            else:
                a = s
            known = [x for x in S.variables(a) if x != "z"]
            b = S.Build(W, T, known)
            try:
                ps = b.stmt(a)
                if bel == "second":
                    b.secrets[v].value = W.bn(TRUTH[v] + delta)
                vs = S.Build(W, TRUTH, ()).stmt(s)
                prover = ps.get_prover()
                pre = prover.precommit()
                _, com = prover.commit()
                if how == "nizk":
                    vs.get_verifier().process_precommitment(pre)
                    h = vs.prehash_statement()
                    digest = h.digest()
                    c = W.z.base.build_fiat_shamir_challenge(h, pre, com, message="")
                    vs = S.Build(W, TRUTH, ()).stmt(s)
                    ok = vs.verify(W.NIZK(challenge=c, responses=prover.compute_response(c),
                                          precommitment=pre, stmt_hash=digest))
                else:
                    verifier = vs.get_verifier()
                    verifier.process_precommitment(pre)
                    c = verifier.send_challenge((vs.prehash_statement().digest(), com))
                    ok = verifier.verify(prover.compute_response(c))
            except Exception as e:
                ok = e
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        if delta == 0 and bel == "first":
            rep.require(ok is True, cid, "equal values not accepted: %r" % (ok,))
            rep.outcome("equal, accepted")
        elif delta != 0:
            rep.require(ok is not True, cid, "different values accepted")
            rep.outcome("different, rejected")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    big = 2 ** 31 - 1
    r = ["real", {}]
    # luck cannot matter here; two group orders
    t = ["tiny", dict(q=big, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    p2 = ("plain", "copies")
    add(t, "rules", n=2, groups=[0, 2, "G1"], terms=[1, 2], deep=True, namings=["plain", "named", "copies"])
    add(t, "rules", 2, n=3, groups=[0, 2], terms=[1], deep=True)
    add(t, "rules", 4, n=3, groups=[0], terms=[1, 2], maxvars=3)
    add(t, "rules", 6, n=4, groups=[0], terms=[1], maxvars=3, namings=["plain"])
    add(r, "rules", 2, n=2, groups=[0, 2, "G1", "GT"], terms=[1])
    add(r, "rules", 3, n=3, groups=[0], terms=[1], namings=["plain"])
    add(t, "values", n=2, terms=[1, 2], vals=[1, 2])
    add(t, "values", 2, n=3, terms=[1])
    add(t, "values", 4, n=4, terms=[1], namings=["plain"])
    add(r, "values", 2, n=2, terms=[1, 2], namings=["plain"])
    add(t, "linked", 2)
    add(t, "linked", flagged=True)
    add(t, "values", n=3, terms=[1], namings=["plain"], flagged=True)
    add(t, "rules", 2, n=3, groups=[0, 2], terms=[1], flagged=True)
    add(r, "linked", 6)
    add(t, "differing")
    add(r, "differing", 2)
    add(t, "wrapped", n=1, terms=[1, 2], namings=["plain", "copies"])
    add(t, "wrapped", n=2, groups=[0, 2], terms=[1], namings=["plain", "copies"])
    add(t, "wrapped", 4, n=3, groups=[0, 2], terms=[1], maxvars=3)
    add(t, "wrapped", 2, n=3, groups=[0], terms=[1, 2], maxvars=2)
    add(t, "wrapped", 4, n=4, groups=[0], terms=[1], maxvars=3)
    add(r, "wrapped", n=2, groups=[0, 2], terms=[1])
    add(r, "wrapped", 2, n=3, groups=[0], terms=[1], maxvars=3)
    if tier == "thorough":
        add(t, "rules", 16, n=4, groups=[0, 2], terms=[1], maxvars=4, deep=True)
        add(t, "rules", 16, n=5, groups=[0], terms=[1], maxvars=3, namings=["plain"])
        add(t, "rules", 8, n=3, groups=[0, 2], terms=[1, 2], maxvars=4)
        add(r, "rules", 8, n=4, groups=[0], terms=[1], maxvars=3, namings=["plain"], ops=False)
        add(r, "values", 8, n=3, terms=[1, 2], namings=["plain"])
        add(t, "values", 8, n=3, terms=[1, 2])
    return out
