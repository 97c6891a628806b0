"""
The three wrapped pairing groups against integer arithmetic on exponents.  (1) laws: all pairs of
exponents of a window that includes zero, negative numbers and numbers around multiples of the order:
sums, differences, multiples from either side, equality.  (2) sums and weighted sums of all short lists.
(3) the pairing of all pairs of a window.  (4) encoding: every element, in nested structures, decoded and
used on.  (5) programs: all sequences of operations on a pool of elements that starts with the generators
and neutral elements as the groups hand them out; after every step every element still has its exponent.
(6) all operations on elements of different kinds are refused.
"""
import itertools
import os

from mc import seams
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["the elements are multiples of the generators that the groups hand out (and of points "
               "hashed to in G1), which in groups of prime order are all elements"]
GROUPS = ("G1", "G2", "GT")


class World:
    def __init__(self, W):
        self.W = W
        self.q = W.order("G1")
        self.g = {k: getattr(W.bp, k) for k in GROUPS}
        self.cache = {}

    def el(self, grp, n, fresh=False):
        """n times the generator, by repeated addition of the library's own elements (no multiples)."""
        n %= self.q
        if (grp, n) not in self.cache:
            if n == 0:
                r = self.g[grp].infinite()
            elif n == 1:
                r = self.g[grp].generator()
            else:
                h = self.el(grp, n // 2)
                r = h + h
                if n % 2:
                    r = r + self.g[grp].generator()
            self.cache[(grp, n)] = r
        return self.cache[(grp, n)]


def window(q, n):
    small = list(range(-n, n + 1))
    return small + [q - 2, q - 1, q, q + 1, 2 * q, 2 * q + 1, -q, -q + 1, -q - 1, -2 * q - 2, q * q + 3,
                    (q + 1) // 2, (q - 1) // 2]


def is_(rep, cid, M, p, grp, n, what):
    """p is n times the generator of its group, and of nothing else."""
    rep.steps += 1
    if not M.W.tiny:
        rep.real_traces += 1
    want = M.el(grp, n)
    if type(p) is not type(want):
        return rep.violation(cid, "%s: a %s instead of a %s" % (what, type(p).__name__,
                                                             type(want).__name__))
    ok = (p == want) is True and (want == p) is True and p.export() == want.export()
    ok = ok and p.group == M.g[grp] and (p != want) is False
    ok = ok and ((p == M.el(grp, n + 1)) is False) and ((p != M.el(grp, n + 1)) is True)
    rep.require(ok, cid, "%s: another element" % what)


def laws(W, rep, n=3):
    M = World(W)
    q = M.q
    win = window(q, n)

    def items():
        for grp in GROUPS:
            for a in win:
                yield "laws: %s %d" % (grp, a), (grp, a)

    def fn(cid, item):
        grp, a = item
        bn = W.bn
        A = M.el(grp, a)
        gen = M.g[grp].generator()
        rep.outcome("laws")
        for form in ("bn*", "*bn", "int*", "*int"):
            if "int" in form and abs(a) >= 1 << 31:
                continue
            k = a if "int" in form else bn(a)
            p = k * gen if form.endswith("*") else gen * k
            is_(rep, cid, M, p, grp, a, "%s generator" % form)
        is_(rep, cid, M, M.g[grp].infinite() + A, grp, a, "0 + A")
        is_(rep, cid, M, A + M.g[grp].infinite(), grp, a, "A + 0")
        is_(rep, cid, M, A + bn(-1) * A, grp, 0, "A + -1 * A")
        is_(rep, cid, M, bn(q) * A, grp, 0, "q * A")
        is_(rep, cid, M, -1 * (-1 * A), grp, a, "-(-A)")
        if hasattr(A, "__sub__"):
            is_(rep, cid, M, A - A, grp, 0, "A - A")
        for b in win:
            Bp = M.el(grp, b)
            is_(rep, cid, M, A + Bp, grp, a + b, "A + B")
            if hasattr(A, "__sub__"):
                is_(rep, cid, M, A - Bp, grp, a - b, "A - B")
            is_(rep, cid, M, bn(b) * A, grp, a * b, "b * A")
            is_(rep, cid, M, A * bn(b), grp, a * b, "A * b")
            same = (a - b) % q == 0
            rep.require((A == Bp) is same and (A != Bp) is not same, cid, "equality with %d" % b)
            rep.require((A.export() == Bp.export()) is same, cid, "encoding compared with %d" % b)
            rep.require((repr(A) == repr(Bp)) is same, cid, "representation compared with %d" % b)
        for k in GROUPS:
            if k != grp:
                rep.require(repr(A) != repr(M.el(k, a)), cid, "same representation in %s" % k)
                rep.require((A.group == M.g[k]) is False, cid, "equal groups: %s" % k)
        rep.require(int(M.g[grp].order()) == q, cid, "another order")
        if grp == "G1":
            for s in (b"a", b"b", b""):
                h = M.g[grp].hash_to_point(s)
                rep.require((M.g[grp].hash_to_point(s) == h) is True, cid, "hashing is not a function")
                rep.require((bn(a) * h + A) - A == bn(a) * h, cid, "sums with a hashed point")
                rep.require((bn(a) * h + bn(-a) * h) == M.g[grp].infinite(), cid, "inverse of a "
                            "multiple of a hashed point")

    rep.run(items(), fn)


def sums(W, rep, n=2, length=3):
    M = World(W)
    q = M.q
    win = [0, 1, -1, 2, q - 1, q + 1][: n + 4]

    def items():
        for grp in GROUPS:
            for k in range(length + 1):
                for first in (win if k else [None]):
                    yield "sums: %s %d from %s" % (grp, k, first), (grp, k, first)

    def fn(cid, item):
        grp, k, first = item
        G = M.g[grp]
        rep.outcome("sums")
        for rest in itertools.product(win, repeat=max(0, k - 1)):
            xs = ([first] if k else []) + list(rest)
            for mk in (list, tuple):
                pts = mk(M.el(grp, x) for x in xs)
                is_(rep, cid, M, G.sum(pts), grp, sum(xs), "sum of %s" % xs)
            ws = [2, -1, q + 3, 0][:k]
            for w in (ws, ws[::-1]):
                r = G.wsum([W.bn(y) for y in w], [M.el(grp, x) for x in xs])
                is_(rep, cid, M, r, grp, sum(x * y for x, y in zip(xs, w)),
                    "weighted sum of %s by %s" % (xs, w))
            for bad in (k + 1, k - 1):
                if bad < 0:
                    continue
                try:
                    r = G.wsum([W.bn(1)] * bad, [M.el(grp, x) for x in xs])
                except Exception:
                    rep.outcome("refused")
                    continue
                rep.violation(cid, "%d weights for %d elements" % (bad, k))

    rep.run(items(), fn)


def pairings(W, rep, n=3):
    M = World(W)
    q = M.q
    win = window(q, n)
    if not W.tiny:
        win = [0, 1, -1, 2, 3, q - 1, q, q + 1, (q + 1) // 2]

    def items():
        for a in win:
            yield "pairing: %d" % a, a

    def fn(cid, a):
        for b in win:
            A, Bq = M.el("G1", a), M.el("G2", b)
            p = A.pair(Bq)
            is_(rep, cid, M, p, "GT", a * b, "pairing with %d" % b)
            if b in (0, 1, -1, 3):
                # linear in each argument, also away from multiples of the generator
                h = M.g["G1"].hash_to_point(b"other")
                rep.require((A + h).pair(Bq) == A.pair(Bq) + h.pair(Bq), cid, "not linear (left)")
                rep.require((W.bn(a) * h).pair(Bq) == h.pair(W.bn(a) * Bq), cid, "not linear (right)")
                rep.require((h.pair(Bq) == M.g["GT"].infinite()) is (b % q == 0), cid, "degenerate")
        rep.outcome("pairings")

    rep.run(items(), fn)


def codecs(W, rep, n=2):
    from petlib.pack import decode, encode

    M = World(W)
    win = window(M.q, n)

    def items():
        for grp in GROUPS:
            for a in win:
                yield "codec: %s %d" % (grp, a), (grp, a)

    def check(cid, grp, a, p):
        is_(rep, cid, M, p, grp, a, "decoded")
        # used on, alone and with elements that were not decoded
        is_(rep, cid, M, p + M.el(grp, 2), grp, a + 2, "decoded + A")
        is_(rep, cid, M, M.el(grp, 2) + p, grp, a + 2, "A + decoded")
        is_(rep, cid, M, W.bn(3) * p, grp, 3 * a, "3 * decoded")
        is_(rep, cid, M, p.group.generator() + p, grp, a + 1, "generator of the group of decoded")
        is_(rep, cid, M, p.group.wsum([W.bn(2)], [p]), grp, 2 * a, "weighted sum of decoded")
        is_(rep, cid, M, p.group.infinite() + p, grp, a, "neutral element of the group of decoded")
        if grp == "G1":
            is_(rep, cid, M, p.pair(M.el("G2", 2)), "GT", 2 * a, "pairing of decoded")
        if grp == "G2":
            is_(rep, cid, M, M.el("G1", 2).pair(p), "GT", 2 * a, "pairing with decoded")

    def fn(cid, item):
        grp, a = item
        A = M.el(grp, a)
        raw = encode(A)
        rep.require(raw == encode(W.bn(1) * A), cid, "the encoding is not a function of the element")
        check(cid, grp, a, decode(raw))
        rep.require(encode(decode(raw)) == raw, cid, "another encoding after decoding")
        other = [A, [M.el(k, 3) for k in GROUPS], W.bn(7), {"a": A}, None, "text"]
        back = decode(encode(other))
        check(cid, grp, a, back[0])
        for k, p in zip(GROUPS, back[1]):
            is_(rep, cid, M, p, k, 3, "decoded in a list")
        check(cid, grp, a, back[3]["a"])
        rep.require(int(back[2]) == 7 and back[4] is None and back[5] == "text", cid, "other contents")
        for b in win:
            if (a - b) % M.q:
                rep.require(encode(M.el(grp, b)) != raw, cid, "same encoding as %d" % b)
        rep.outcome("encoded")

    rep.run(items(), fn)


def programs(W, rep, depth=2, start="generators"):
    """All programs over a pool; nothing that was computed may change later."""
    M = World(W)
    q = M.q

    def begin(bp):
        g = {k: getattr(bp, k) for k in GROUPS}
        pool = [("G1", 1, g["G1"].generator()), ("G2", 1, g["G2"].generator())]
        if start == "all":
            pool += [("GT", 1, g["GT"].generator()), ("G1", 0, g["G1"].infinite()),
                     ("G2", 0, g["G2"].infinite()), ("GT", 0, g["GT"].infinite())]
        return g, pool

    def ops(kinds):
        for i, k in enumerate(kinds):
            for j, l in enumerate(kinds):
                if k == l:
                    yield "add", i, j
                    yield "iadd", i, j
                    if k != "GT":
                        yield "sub", i, j
                    yield "sum", i, j
                    yield "wsum", i, j
                if k == "G1" and l == "G2":
                    yield "pair", i, j
            for s in (0, 2, -1, q + 1):
                yield "mul", i, s
            yield "imul", i, 3
            yield "look", i, None
        for k in GROUPS:
            yield "gen", k, None
            yield "inf", k, None

    def apply(g, pool, op):
        t, i, j = op
        if t in ("gen", "inf"):
            p = g[i].generator() if t == "gen" else g[i].infinite()
            return i, 1 if t == "gen" else 0, p
        k, a, A = pool[i]
        if t == "look":
            A.export(), repr(A), A == A, A.group.order()
            return None
        if t == "mul":
            return k, a * j, (W.bn(j) * A if i % 2 else A * W.bn(j))
        if t == "imul":
            x = A
            x *= W.bn(j)
            return k, a * j, x
        l, b, Bp = pool[j]
        if t == "add":
            return k, a + b, A + Bp
        if t == "iadd":
            x = A
            x += Bp
            return k, a + b, x
        if t == "sub":
            return k, a - b, A - Bp
        if t == "sum":
            return k, a + b + a, g[k].sum([A, Bp, A])
        if t == "wsum":
            return k, 2 * a - b, g[k].wsum([W.bn(2), W.bn(-1)], [A, Bp])
        if t == "pair":
            return "GT", a * b, A.pair(Bp)

    def kinds_after(kinds, op):
        t, i, j = op
        if t == "look":
            return kinds
        return kinds + ["GT" if t == "pair" else i if t in ("gen", "inf") else kinds[i]]

    base = ["G1", "G2"] + (["GT", "G1", "G2", "GT"] if start == "all" else [])

    def items():
        for op in ops(base):
            yield "program: %s first" % (op,), op

    def judge(cid, prog):
        g, pool = begin(W.pairings.BilinearGroupPair() if W.tiny else W.bp)
        for op in prog:
            r = apply(g, pool, op)
            if r is not None:
                pool.append(r)
        for i, (k, a, p) in enumerate(pool):
            rep.steps += 1
            if not (type(p) is type(M.el(k, a)) and p == M.el(k, a)):
                rep.violation(cid, "after %s, element %d is not %d times the generator of %s" % (
                    list(prog), i, a, k))
                return False
        for k in GROUPS:
            if not (g[k].generator() == M.el(k, 1) and g[k].infinite() == M.el(k, 0)):
                rep.violation(cid, "after %s, the generator or neutral element of %s is another" % (
                    list(prog), k))
                return False
        if not W.tiny:
            rep.real_traces += 1
        return True

    def fn(cid, op):
        def rec(prog, kinds):
            rep.outcome("programs")
            if not judge(cid, prog):
                return False
            if len(prog) < depth:
                for o in ops(kinds):
                    if not rec(prog + [o], kinds_after(kinds, o)):
                        return False
            return True
        rec([op], kinds_after(base, op))

    rep.run(items(), fn)


def refusals(W, rep):
    """Elements of different kinds, and arguments that are no elements."""
    M = World(W)
    ec = W.base("g", 0)

    def things():
        for k in GROUPS:
            yield k, M.el(k, 3)
            yield k + " zero", M.el(k, 0)
        yield "curve point", ec
        yield "none", None
        yield "text", "x"
        yield "list", [1]
        yield "float", 2.0
        yield "bytes", b"ab"

    def items():
        for a, A in things():
            for b, Bp in things():
                if a[:2] in GROUPS and a[:2] != b[:2]:
                    yield "refusal: %s with %s" % (a, b), (a[:2], A, b, Bp)

    def fn(cid, item):
        k, A, b, Bp = item
        G = M.g[k]
        elem = b[:2] in GROUPS or b == "curve point"
        calls = {"+": lambda: A + Bp, "reversed +": lambda: Bp + A,
                 "sum": lambda: G.sum([A, Bp]), "sum of one": lambda: G.sum([Bp]),
                 "wsum": lambda: G.wsum([W.bn(1), W.bn(2)], [A, Bp]),
                 "wsum of one": lambda: G.wsum([W.bn(2)], [Bp]), "*": lambda: A * Bp,
                 "reversed *": lambda: Bp * A}
        if k != "GT":
            calls["-"] = lambda: A - Bp
        if not (k == "G1" and b[:2] == "G2"):
            calls["pair"] = lambda: A.pair(Bp)
        if b in ("float", "bytes", "text"):
            pass
        for name, f in calls.items():
            rep.steps += 1
            # a wrong pointer could kill the process: real calls go to a child
            r = child(f) if not W.tiny else attempt(f)
            if not W.tiny:
                rep.real_traces += 1
            if r == "value":
                rep.violation(cid, "not refused: %s" % name)
            else:
                rep.outcome("refused")
        for name, f in (("==", lambda: A == Bp), ("reversed ==", lambda: Bp == A),
                        ("not !=", lambda: not (A != Bp))):
            if not elem and name == "reversed ==":
                continue
            r = child(lambda: f() and True or fail()) if not W.tiny else attempt(
                lambda: f() and True or fail())
            rep.require(r != "value", cid, "equal: %s" % name)

    def fail():
        raise ValueError()

    def attempt(f):
        try:
            f()
            return "value"
        except Exception:
            return "refused"

    def child(f):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                code = 7 if attempt(f) == "value" else 3
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        return "value" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7 else "refused"

    with quiet():
        rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    r = ["real", {}]
    for bpq, d1 in ((3, 1), (5, 1), (7, 1), (2 ** 31 - 61, 1), (11, 2)):
        t = ["tiny", dict(q=3, bpq=bpq, d1=d1)]
        add(t, "laws", n=4)
        add(t, "sums", length=3)
        add(t, "pairings", n=4)
        add(t, "codecs", n=3)
    t = ["tiny", dict(q=3, bpq=2 ** 31 - 61)]
    add(t, "programs", 8, depth=3, start="all")
    add(t, "programs", 4, depth=3)
    add(t, "refusals")
    add(r, "laws", 8, n=4)
    add(r, "sums", 8, length=3)
    add(r, "pairings", 2)
    add(r, "codecs", 4, n=3)
    add(r, "programs", 4, depth=2)
    add(r, "programs", 4, depth=2, start="all")
    add(r, "refusals", 2)
    if tier == "thorough":
        add(r, "laws", 8, n=12)
        add(r, "sums", 8, length=4)
        add(r, "codecs", 4, n=8)
        add(t, "programs", 16, depth=4)
        add(r, "programs", 8, depth=3)
        for p in (13, 17, 101):
            add(["tiny", dict(q=3, bpq=p)], "laws", n=p)
            add(["tiny", dict(q=3, bpq=p)], "pairings", n=p)
    return out
