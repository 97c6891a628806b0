"""
Disjunctions.  (1) hiding: over tiny groups all random choices are enumerated; the exact distributions
of interactive transcripts (for every challenge) and of non-interactive proofs must be the same for
every knowledge pattern, every marking and every witness.  (2) the draw: for every pattern of known,
unknown and marked branches, every path of choices is run twice with different challenges; the branch
whose subchallenge moves is the real one; its distribution must be uniform over exactly the provable,
unmarked branches, and no prover may exist if there are none.  (3) on the real libraries, the shapes and
the ranges of the numbers of a proof must be the same whichever branch is real.
"""
import itertools
from fractions import Fraction

from mc import gen, seams, spec as S
from mc.dist import difference, distribution, interactive, key
from mc.explore import Chooser, explore, spread
from mc.gen import dl, sid
from mc.harness import HarnessError, flatten, quiet, shards

ASSUMPTIONS = ["the coin that picks the branch is uniform; simulated and real members need not be "
               "told apart by timing"]

T = {"x": 1, "y": 2, "z": 1, "u": 3, "v": 0, "w": 2, "ax": 1, "ar": 1, "bx": 0, "br": 1, "sig": 1}


# -- which branches are provable -----------------------------------------------------------------
def can(s, known):
    if s[0] == "sim":
        return False
    if S.is_leaf(s):
        return all(v in known for v in S.leaf_vars(s))
    if s[0] in ("and", "&"):
        return all(can(c, known) for c in s[1:])
    return any(can(c, known) for c in s[1:])


def expected(s, known):
    """{real-branch pattern: probability}; a pattern nests like the responses."""
    if s[0] == "sim" or S.is_leaf(s):
        return {None: Fraction(1)}
    if s[0] == "and":
        out = {(): Fraction(1)}
        for c in s[1:]:
            e = expected(c, known)
            out = {p + (k,): w * v for p, w in out.items() for k, v in e.items()}
        return {("and",) + p: w for p, w in out.items()}
    live = [i for i, c in enumerate(s[1:]) if can(c, known)]
    out = {}
    for i in live:
        for k, w in expected(s[1 + i], known).items():
            kk = ("or", i, k)
            out[kk] = out.get(kk, 0) + w / len(live)
    return out


def observe(s, r1, r2):
    """The pattern of real branches, from the responses to two challenges."""
    s = S.unsim(s)
    if S.is_leaf(s):
        return None
    if s[0] == "and":
        return ("and",) + tuple(observe(c, a, b) for c, a, b in zip(s[1:], r1, r2))
    moved = [i for i, (a, b) in enumerate(zip(r1[0], r2[0])) if a != b]
    if len(moved) != 1:
        return ("or", "moved", tuple(moved))
    i = moved[0]
    return ("or", i, observe(s[1 + i], r1[1][i], r2[1][i]))


def draw(W, rep, n, kinds, how):
    """All patterns of branches; how: where the mark is put."""
    def branch(kind, i):
        v = "xyzuvw"[i]
        return {"leaf": dl((v, "ghkmnp"[i % 6] if not W.tiny or W.d > 3 else "ghk"[i % 3])),
                "two": dl((v, "g"), (v, "h")),
                "and": ("and", dl((v, "g")), dl((v + "2", "h"))),
                "or": ("or", dl((v, "g")), dl((v + "2", "h"))),
                "ne": ("ne", v, "g", "h", 4, False, 0), "neb": ("ne", v, "g", "h", 4, True, 0),
                "p2": ("p2", v, v + "2", 2, 0), "rg": ("rg", v, v + "2", 0, 4, 0),
                "bb": ("bb", (v,))}[kind]

    truth = dict(T)
    truth.update({v + "2": 2 for v in "xyzuvw"})

    def items():
        for ks in kinds:
            for op in ("flat", "nest", "in and"):
                if op == "nest" and n < 3:
                    continue
                for pat in itertools.product(("known", "unknown", "known marked", "unknown marked"),
                                             repeat=n):
                    s = [branch(k, i) for i, k in enumerate(ks)]
                    known = set()
                    for b, p in zip(s, pat):
                        if p.startswith("known"):
                            known |= set(S.variables(b))
                    # half-known conjunctions and disjunctions
                    for half in ([None] + [i for i, (k, p) in enumerate(zip(ks, pat))
                                           if k in ("and", "or") and p.startswith("unknown")]):
                        kn = set(known)
                        if half is not None:
                            kn.add("xyzuvw"[half])
                        m = [("sim", b) if "marked" in p else b for b, p in zip(s, pat)]
                        if op == "flat":
                            t = ("or",) + tuple(m)
                        elif op == "nest":
                            t = ("or", m[0], ("or",) + tuple(m[1:]))
                        else:
                            t = ("and", ("or",) + tuple(m), dl(("q", "k")))
                            kn.add("q")
                        yield "%s knows %s %s" % (sid(t), "".join(sorted(kn)), how), (t, kn)

    truth["q"] = 2
    c1, c2 = 0, 1

    def mark_later(st, s):
        """Put the marks on the members of the composed statement."""
        if s[0] == "sim":
            st.set_simulated()
            return
        if S.is_leaf(s) or s[0] == "sim":
            return
        for sub, c in zip(st.subproofs, s[1:]):
            mark_later(sub, c)

    def build(s, kn):
        B = S.Build(W, truth, kn if how != "dict" else
                    [v for v in kn if any(v in S.leaf_vars(l) and l[0] in ("p2", "rg", "bb")
                                          for l in S.leaves(s))] + ["sig"])
        if "sig" in kn and how != "dict" or how == "dict":
            pass
        if how == "later":
            st = B.stmt(S.unsim(s))
            mark_later(st, s)
        else:
            st = B.stmt(s)
        d = B.values([v for v in kn if v != "sig" and v in B.secrets]) if how == "dict" else {}
        return st, d

    def fn(cid, item):
        s, kn = item
        if how == "dict" and any(l[0] == "bb" for l in S.leaves(s)):
            return
        want = expected(s, kn) if can(s, kn) else None
        got = {}

        def run(c):
            def go(ch):
                with seams.use(ch), quiet():
                    st, d = build(s, kn)
                    try:
                        prover = st.get_prover(d) if d else st.get_prover()
                    except Exception as e:
                        return ("none", e)
                    if prover is None:
                        return ("none", None)
                    prover.precommit()
                    prover.commit()
                    return ("ok", key(prover.compute_response(W.bn(c))))
            return go

        def prepare():
            seams.reset()
            seams.reset_names()

        def check(res, ch):
            if res[0] == "none":
                got["none"] = got.get("none", 0) + Fraction(1, weight(ch))
                return
            # the same path again, with another challenge
            prepare()
            ch2 = Chooser(ch.path, seed=ch.seed, default=spread)
            r2 = run(c2)(ch2)
            p = observe(s, res[1], r2[1])
            got[p] = got.get(p, 0) + Fraction(1, weight(ch))
            rep.steps += 1
            if not W.tiny:
                rep.real_traces += 1

        def weight(ch):
            w = 1
            for n_, _, _, kind in ch.points:
                if kind == "branch" or n_ <= 4:
                    w *= n_
            return w

        st = explore(run(c1), check, deviations=0, default=spread, prepare=prepare, max_execs=3000,
                     free_small=4)
        rep.stats.add(st)
        if want is None:
            # and no proof comes out either
            try:
                with quiet(), seams.use(Chooser(default=spread)):
                    st_, d = build(s, kn)
                    out = st_.prove(d) if d else st_.prove()
            except Exception:
                out = None
            rep.require(out is None, cid, "a proof came out without any branch that can be proven")
            rep.require(set(got) == {"none"}, cid, "there is a prover although no branch can be proven",
                        got=got)
            rep.outcome("no prover")
            return
        rep.outcome("drawn")
        if got != want:
            rep.violation(cid, "real branches %s, expected %s" % (
                {str(k): str(v) for k, v in sorted(got.items(), key=str)},
                {str(k): str(v) for k, v in sorted(want.items(), key=str)}))

    rep.run(items(), fn)


# -- hiding --------------------------------------------------------------------------------------
def hiding_specs(which):
    x, y, xh, yh, z = (dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("y", "h")),
                       dl(("z", "h")))
    if which == "two":
        return [("or", x, yh), ("or", x, xh), ("or", x, x), ("or", dl(("x", "g"), ("y", "h")), z),
                ("or", x, dl(("x", "g"), ("z", "h"))), ("or", ("and", x, xh), yh),
                ("or", ("and", x, yh), ("and", xh, y)), ("and", ("or", x, yh), z)]
    if which == "three":
        return [("or", x, yh, z), ("or", ("or", x, yh), z), ("or", x, ("or", yh, z)),
                ("or", x, xh, yh), ("or", ("and", x, z), yh), ("and", ("or", x, xh), ("or", yh, z))]
    E = gen.ext_leaf(which, "a")
    if E[0] == "ne":
        E = E[:4] + (0,) + E[5:]
    if which == "p2":
        E = ("p2", "ax", "ar", 1, 0)
    if which == "bb":
        return [("or", ("bb", ("ax",)), x)]
    return [("or", E, z), ("or", z, E), ("or", ("and", E, x), z)] + (
        [("or", x, E, z)] if which in ("ne", "eg") else [])


def patterns(s, marks=True):
    """Knowledge and marks: sufficient ones."""
    vs = S.variables(s)
    branches = [n for n in S.nodes(s) if n[0] == "or"]
    out = []
    for k in gen.subsets(vs):
        k = set(k)
        if can(s, k):
            out.append((s, k))
    if marks and s[0] == "or":
        for m in itertools.product((False, True), repeat=len(s) - 1):
            if any(m):
                t = ("or",) + tuple(("sim", c) if b else c for c, b in zip(s[1:], m))
                if can(t, set(vs)):
                    out.append((t, set(vs)))
    return out


def eg_marked(s, known):
    from mc.checks.p01 import mark

    def rec(n):
        if n[0] == "sim":
            return n
        if S.is_leaf(n):
            return mark(n, known)
        return (n[0],) + tuple(rec(c) for c in n[1:])

    return rec(s)


def hiding(W, rep, which, nizk=False):
    space = 1 << W.bits

    def items():
        for s in hiding_specs(which):
            if not S.composition_ok(s):
                continue
            for c in range(space) if not nizk else (None,):
                yield "hiding %s challenge %s" % (sid(s), c), (s, c)

    def fn(cid, item):
        s, c = item
        first = None
        for t, known in patterns(s):
            m = eg_marked(t, known)

            def body():
                build = lambda: S.Build(W, T, known).stmt(m)
                if not nizk:
                    return interactive(W, build, c)
                n = build().prove()
                return key(n.precommitment), int(n.challenge), key(n.responses), n.stmt_hash

            d = distribution(rep, body)
            bad = [k for k in d if k[0] == "exception"]
            if bad:
                rep.violation(cid, "no proof with %s known, %s: %s" % (sorted(known), sid(m), bad[0]))
                return
            if first is None:
                first = (d, m, known)
                continue
            df = difference(first[0], d)
            if df:
                rep.violation(cid, "transcripts tell %s knowing %s from %s knowing %s: %s" % (
                    sid(first[1]), sorted(first[2]), sid(m), sorted(known), df))
                return
            rep.outcome("equal distributions")
        rep.sample(case=cid, transcripts=len(first[0]))

    rep.run(items(), fn)


def witness(W, rep):
    """The values behind the branches: other witnesses of the same public statement."""
    q = W.q
    space = 1 << W.bits
    base = dl(("x", "g"), ("y", "h"))
    ss = [("or", base, dl(("z", "h"))), ("or", dl(("z", "h")), base),
          ("or", base, dl(("x", "h"), ("y", "g"), lhs=((1, "g"), (1, "h"))))]

    def items():
        for s in ss[:2]:
            for c in range(space):
                yield "witness %s challenge %d" % (sid(s), c), (s, c)

    def fn(cid, item):
        s, c = item
        eg, eh = W.base("g").v[0], W.base("h").v[0]
        first = None
        tot = (1 * eg + 2 * eh) % q
        for a in range(q):
            for b in range(q):
                if (a * eg + b * eh) % q != tot:
                    continue
                t = dict(T, x=a, y=b)
                for known in (("x", "y"), ("x", "y", "z"), ("z",)):
                    d = distribution(rep, lambda: interactive(
                        W, lambda: S.Build(W, t, known).stmt(s), c))
                    if first is None:
                        first = d
                    df = difference(first, d)
                    if df:
                        rep.violation(cid, "transcripts depend on the witness: %s" % df)
                        return
                    rep.outcome("equal distributions")

    rep.run(items(), fn)


# -- shapes and ranges on the real libraries -----------------------------------------------------
def profile(W, x, path=()):
    """Types and size classes of everything in a proof."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(profile(W, y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, profile(W, y)) for k, y in x.items())
    if type(x).__name__ == "Bn":
        return "negative" if int(x) < 0 else "number"
    if isinstance(x, bytes):
        return "bytes%d" % len(x)
    return type(x).__name__


def bounds_ok(W, s, responses, space):
    s = S.flat(S.unsim(s))
    if s[0] == "dl":
        return all(0 <= int(r) < W.order(s[3]) for r in responses)
    if S.is_leaf(s):
        return all(0 <= int(r) < 2 ** 257 for r in flatten(responses))
    if s[0] == "and":
        return all(bounds_ok(W, c, r, space) for c, r in zip(s[1:], responses))
    return all(0 <= int(c) < space for c in responses[0]) and all(
        bounds_ok(W, c, r, space) for c, r in zip(s[1:], responses[1]))


def shapes(W, rep, which):
    """Whichever branch is real: the same shape, all numbers in range, several environments."""
    space = 1 << (W.bits if W.tiny else 128)
    l, m, k = dl(("x", "g")), dl(("y", "h")), dl(("z", "k"))
    if which == "algebra":
        ss = [("or", l, m), ("or", l, m, k), ("or", ("and", l, m), k), ("or", ("or", l, m), k),
              ("or", l, dl(("y", "h"), ("z", "k"))), ("and", ("or", l, m), k),
              ("or", l, m, k, dl(("w", "g"), ("w", "h"))),
              ("or", l, dl(("z", "g"), grp=2)), ("or", l, dl(("z", "g"), grp="G1"))]
    else:
        E, F = gen.ext_leaf(which, "a"), gen.ext_leaf(which, "b")
        ss = [("or", E, l), ("or", l, E), ("or", E, F), ("or", ("and", E, m), l),
              ("or", l, ("and", m, E)), ("or", l, ("or", E, m)), ("and", ("or", l, E), m)]
    truth = dict(T, ax=2, ar=3, bx=1, br=4)

    def fn(cid, s):
        seen = None
        orn = [n for n in S.nodes(s) if n[0] == "or"][0]
        for i, b in enumerate(orn[1:]):
            known = set(S.variables(b))
            for n in s[1:] if s[0] == "and" else ():
                if n is not orn:
                    known |= set(S.variables(n))
            mk = eg_marked(s, known)
            if which == "eg" and not can(mk, known):
                continue
            for seed in range(4):
                seams.reset_names()
                with quiet(), seams.use(Chooser(default=lambda i, n: (3 * i + seed) % n, seed=seed)):
                    nizk = S.Build(W, truth, known).stmt(mk).prove()
                rep.steps += 1
                if not W.tiny:
                    rep.real_traces += 1
                p = (profile(W, nizk.precommitment), profile(W, nizk.responses),
                     profile(W, nizk.challenge), nizk.stmt_hash is None)
                if seen is None:
                    seen = (p, i)
                elif seen[0] != p:
                    rep.violation(cid, "a proof with branch %d looks different from one with branch %d"
                                  % (i, seen[1]), a=seen[0], b=p)
                    return
                rep.require(bounds_ok(W, s, nizk.responses, space), cid,
                            "numbers out of range, with branch %d" % i)
                rep.outcome("same shape")

    rep.run((("shape " + sid(s), s) for s in ss if S.composition_ok(s)), fn)


def subchallenges(W, rep):
    """Real-size challenges: residual subchallenges for boundary values, through the interface."""
    space = 1 << 128
    l, m, k = dl(("x", "g")), dl(("y", "h")), dl(("z", "k"))
    vals = [0, 1, 2, space - 1, space - 2, space // 2, space // 2 + 1]
    ss = [("or", l, m), ("or", l, m, k), ("or", l, ("or", m, k))]

    class Fixed:
        """Answers draws of 128 bits from a list, others by position."""

        def __init__(self, vs):
            self.vs, self.i, self.points = list(vs), 0, []

        def choose(self, n, kind="num"):
            n = int(n)
            if n == space and self.vs:
                return self.vs.pop(0)
            self.i += 1
            if kind == "branch":
                return 0
            return (10 ** 30 * self.i + 17) % n

    def items():
        for s in ss:
            for c in vals + [2 ** 256 - 1, 2 ** 255 + 12345, space, space + 1]:
                for t in itertools.product(vals, repeat=1 if len(s) == 3 and s[2][0] == "dl" else 2):
                    for knows in ("x", "y"):
                        yield "%s challenge %d simulated %s knows %s" % (sid(s), c, t, knows), (
                            s, c, t, knows)

    def total(s, c, r):
        """Subchallenges sum up and are in range, at all levels."""
        if S.is_leaf(s):
            return True
        cs = [int(x) for x in r[0]]
        if any(not 0 <= x < space for x in cs) or (sum(cs) - c) % space:
            return False
        return all(total(b, cc, rr) for b, cc, rr in zip(s[1:], cs, r[1]))

    def fn(cid, item):
        s, c, t, knows = item
        seams.reset_names()
        with quiet(), seams.use(Fixed(t)):
            st = S.Build(W, T, (knows,)).stmt(s)
            prover = st.get_prover()
            prover.precommit()
            digest, com = prover.commit()
            r = prover.compute_response(W.bn(c))
        rep.steps += 1
        rep.real_traces += 1
        rep.require(total(s, c, r), cid, "subchallenges out of range or not summing up", r=r)
        # what the verifier computes from them
        v = S.Build(W, T, ()).stmt(s)
        rep.require(v.recompute_commitment(W.bn(c), r) == com, cid, "the responses do not fit")
        rep.outcome("in range")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    q2 = ["tiny", dict(unordered=True, q=2, d=1, bits=1, bpq=2)]
    q3 = ["tiny", dict(unordered=True, q=3, d=1, bits=1, bpq=3)]
    q5 = ["tiny", dict(unordered=True, q=5, d=1, bits=2, bpq=5)]
    t = ["tiny", dict(unordered=True, q=13, d=3, bits=3, d1=4, d2=1)]
    r = ["real", {}]
    ext = ["ne", "neb", "p2", "rg", "bb"]
    two = [["leaf", "leaf"], ["leaf", "two"], ["and", "leaf"], ["leaf", "and"], ["or", "leaf"],
           ["leaf", "or"], ["and", "and"]]
    for k in ext:
        two += [["leaf", k], [k, "leaf"]]
    three = [["leaf"] * 3, ["leaf", "and", "leaf"], ["leaf", "ne", "p2"], ["or", "leaf", "two"],
             ["rg", "leaf", "neb"]]
    for how in ("ctor", "later", "dict"):
        add(t, "draw", 2, n=2, kinds=two, how=how)
        add(t, "draw", 3, n=3, kinds=three if how == "ctor" else three[:2], how=how)
    add(t, "draw", 4, n=4, kinds=[["leaf"] * 4], how="ctor")
    add(r, "draw", 4, n=2, kinds=two, how="ctor")
    add(r, "subchallenges", 2)
    for k in ["algebra"] + list(gen.EXT_KINDS):
        add(r, "shapes", 3 if k in ("rg", "bb") else 1, which=k)
        add(t, "shapes", which=k)
    for nz in (False, True):
        add(q3, "hiding", 2, which="two", nizk=nz)
        add(q2, "hiding", 2, which="three", nizk=nz)
        for k in ("ne", "neb", "p2", "eg"):
            add(q2, "hiding", 2 if k == "p2" else 1, which=k, nizk=nz)
    add(q2, "hiding", which="bb")
    add(q3, "witness")
    add(q5, "witness", 2)
    if tier == "thorough":
        add(r, "draw", 8, n=3, kinds=three, how="ctor")
        add(t, "draw", 16, n=4, kinds=[["leaf", "and", "two", "leaf"], ["leaf", "ne", "leaf", "p2"]],
            how="ctor")
        add(t, "draw", 8, n=3, kinds=three, how="later")
        add(q3, "hiding", 8, which="three")
        add(q3, "hiding", 8, which="three", nizk=True)
        add(q5, "hiding", 8, which="two")
        for k in ("ne", "eg", "p2", "neb"):
            add(q3, "hiding", 4, which=k)
    return out
