"""
Public parameters and helpers.  (1) generators: for every curve of the library and the pairing group, all
numbers of generators of a window, all seeds of a window (and seeds around powers of two) and several
sizes of the hashed string: points of the group, never neutral, pairwise different, the same for
every call and in other processes (other hash seeds, other histories of calls), a longer list beginning
with the shorter one; without a seed, different in every call and every process.  (2) keys: every number of
generators of a window; secret key, public key and pair agree.  (3) arithmetic: sum_bn_array over all lists
up to a length and all moduli of a window, ensure_bn around all powers of two up to 2^31, get_default_attr over
all kinds of values.  (4) names: all programs of a given length that create, copy, keep and drop
secrets; at every moment no two unnamed secrets are the same, in a pool filled up to many thousands as well.
"""
import gc
import hashlib
import itertools
import json
import os
import subprocess
import sys

from mc import seams
from mc.harness import quiet, shards

ASSUMPTIONS = ["hashing to a point does not collide on the enumerated inputs (other than by the finite "
               "number of points of tiny groups, which are not used here)"]

SEEDS = list(range(0, 12)) + [42, 43, 99, 100, 1000, 2 ** 16 - 1, 2 ** 16, 2 ** 32 - 1, 2 ** 32,
                              2 ** 64, 10 ** 30]
BITS = (64, 120, 128, 250, 256, 384, 512)


def curves():
    from petlib.ec import EcGroup

    out = []
    for nid in sorted(EcGroup.list_curves()):
        try:
            g = EcGroup(nid)
            g.hash_to_point(b"x")
        except Exception:
            continue  # binary curves: the library cannot hash to them
        if g.order().num_bits() >= 160:
            out.append(nid)
    return out


def group_of(W, which):
    from petlib.ec import EcGroup

    return W.bp.G1 if which == "G1" else EcGroup(which)


def raw(p):
    return p.export().hex()


def generators(W, rep, n=8, every=True):
    """Lists of generators."""
    groups = (curves() if every else [713, 415]) + ["G1"]

    def items():
        for g in groups:
            for seed in SEEDS if g in (713, 415, "G1") else SEEDS[:6] + [42]:
                yield "generators group %s seed %s" % (g, seed), (g, seed)

    def fn(cid, item):
        g, seed = item
        group = group_of(W, g)
        mk = W.z.make_generators
        long_ = mk(n, group, seed=seed)
        if g in (713, 415):
            rep.require([raw(p) for p in long_] == [raw(p) for p in mk(n, group=group, seed=seed)],
                        cid, "another list at the second call")
        lists = {}
        for k in range(n + 1):
            for bits in BITS if k in (2, n) else (256,):
                ps = mk(k, group, random_bits=bits, seed=seed)
                lists[k, bits] = [raw(p) for p in ps]
                rep.steps += 1
                rep.real_traces += 1
                rep.require(len(ps) == k, cid, "%d generators instead of %d" % (len(ps), k))
                for p in ps:
                    if not (p.group == group):
                        rep.violation(cid, "a generator of another group")
                    if p == group.infinite():
                        rep.violation(cid, "a generator is neutral")
                    if not group.check_point(p) if hasattr(group, "check_point") else False:
                        rep.violation(cid, "a generator is not on the curve")
                rep.require(len(set(lists[k, bits])) == k, cid, "generators repeat (%d bits)" % bits)
            rep.require(lists[k, 256] == [raw(p) for p in long_[:k]], cid,
                        "the list of %d is no beginning of the list of %d" % (k, n))
        base = raw(group.generator())
        rep.require(base not in lists[n, 256], cid, "a generator is the standard generator")
        rep.outcome("list of generators")

    rep.run(items(), fn)


def points(W, rep):
    """Single points: all pairs of seeds; the documented one; without seed."""
    from zksk.utils import get_random_point

    def items():
        for g in [713, 415, "G1"]:
            for bits in BITS:
                yield "points group %s bits %d" % (g, bits), (g, bits)
        yield "default group", None

    def fn(cid, item):
        if item is None:
            a, b = get_random_point(seed=1), W.z.make_generators(3, seed=1)
            rep.require(raw(a) == "037697679766c26bb7b76c65d2639fb983dea7c859c63b3047168dbc1b", cid,
                        "the documented point for seed 1 is another one")
            rep.require(a.group.nid() == 713 and all(p.group.nid() == 713 for p in b), cid,
                        "another default group")
            d = [raw(p) for p in W.z.make_generators(5)]
            rep.require(d == [raw(p) for p in W.z.make_generators(5)] and len(set(d)) == 5, cid,
                        "the default generators are not fixed and distinct")
            rep.steps += 1
            rep.real_traces += 1
            return
        g, bits = item
        group = group_of(W, g)
        seen = {}
        for s in SEEDS:
            p = raw(get_random_point(group, bits, s))
            rep.steps += 1
            rep.real_traces += 1
            if p in seen:
                rep.violation(cid, "seeds %s and %s give one point" % (seen[p], s))
            seen[p] = s
            rep.require(p == raw(get_random_point(group=group, random_bits=bits, seed=s)), cid,
                        "another point at the second call")
        # real randomness (scripted by nobody)
        with seams.use(None):
            free = [raw(get_random_point(group, bits)) for _ in range(6)]
            free += [raw(p) for p in W.z.make_generators(6, group, bits, None)]
            free += [raw(p) for p in W.z.make_generators(6, group, bits, None)]
        rep.require(len(set(free)) == len(free) and not set(free) & set(seen), cid,
                    "points without seed repeat")
        rep.outcome("points differ", len(free) + len(seen))

    rep.run(items(), fn)


def child(order):
    """In a process of its own: prints lists of generators, made in another order of calls."""
    sys.path.insert(0, os.environ.get("ZKSK_REPO", "/repo"))
    sys.dont_write_bytecode = True
    import zksk
    from petlib.ec import EcGroup
    from zksk.pairings import BilinearGroupPair

    import random
    random.seed(1)
    out = {}
    todo = [(g, n, s) for g in ("713", "415", "G1", "None") for n in (1, 4) for s in ("42", "7", "None")]
    if order:
        todo.reverse()
    bp = BilinearGroupPair()
    for g, n, s in todo:
        group = None if g == "None" else bp.G1 if g == "G1" else EcGroup(int(g))
        kw = {} if s == "42" else {"seed": None if s == "None" else int(s)}
        out["%s %s %s" % (g, n, s)] = [raw(p) for p in zksk.make_generators(n, group, **kw)]
    print(json.dumps(out))


def processes(W, rep):
    """The same lists in every process; fresh points in every process."""
    def items():
        yield "processes", None

    def fn(cid, _):
        results = []
        for k in range(4):
            env = dict(os.environ, PYTHONHASHSEED=str(k * 77), PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-B", "-m", "mc.checks.p20", str(k % 2)], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                                   os.path.abspath(__file__)))))
            if not rep.require(r.returncode == 0, cid, "making generators failed",
                               err=r.stderr.decode()[-500:]):
                return
            results.append(json.loads(r.stdout.decode().splitlines()[-1]))
            rep.real_traces += 1
            rep.steps += len(results[-1])
        for key in results[0]:
            lists = [r[key] for r in results]
            if key.endswith("None"):
                flat = [p for l in lists for p in l]
                rep.require(len(set(flat)) == len(flat), cid, "random points repeat (%s)" % key)
            else:
                rep.require(all(l == lists[0] for l in lists), cid,
                            "another process has other generators (%s)" % key)
            rep.outcome("lists compared")
        a, b = (results[0][k] for k in ("None 4 42", "713 4 42"))
        rep.require(a == b, cid, "the default group is not the default")

    rep.run(items(), fn)


def keys(W, rep, n=8):
    """Key pairs."""
    def items():
        for k in range(n + 1):
            yield "key with %d generators" % k, k

    def fn(cid, k):
        if W.tiny:
            with seams.use(None):
                kp = W.bbs.BBSPlusKeypair.generate(W.bp, k)
        else:
            kp = W.bbs.BBSPlusKeypair.generate(W.bp, k)
            rep.real_traces += 1
        rep.steps += 1
        gens = kp.generators
        rep.require(len(gens) >= k, cid, "too few generators")
        same = lambda a, b: len(a) == len(b) and all(x == y for x, y in zip(a, b))
        rep.require(same(gens, kp.pk.generators) and same(gens, kp.sk.generators), cid,
                    "the keys have different generators")
        rep.require(kp.h0 == kp.pk.h0 == kp.sk.h0 == W.bp.G2.generator(), cid, "another base in G2")
        rep.require(kp.pk.w == kp.sk.gamma * kp.h0, cid, "the public key is not that of the secret key")
        rep.require(len(kp.pk.gen_pairs) == len(gens) and
                    all(p == g.pair(kp.h0) for p, g in zip(kp.pk.gen_pairs, gens)), cid,
                    "wrong precomputed pairings")
        if not W.tiny:
            rep.require(len(set(raw(g) for g in gens)) == len(gens), cid, "generators repeat")
            other = W.bbs.BBSPlusKeypair.generate(W.bp, k)
            rep.require(other.pk.w != kp.pk.w, cid, "two keys are the same")
        rep.require(0 <= kp.sk.gamma < W.bp.G1.order(), cid, "the secret key is not reduced")
        rep.outcome("key pair")

    rep.run(items(), fn)


def arithmetic(W, rep, length=3):
    """Helpers."""
    from zksk.utils import ensure_bn, sum_bn_array
    from zksk.utils.misc import get_default_attr

    Bn = W.Bn

    def sums(cid, m):
        window = range(-2 * m, 2 * m + 2)
        for k in range(length + 1):
            for arr in itertools.product(window, repeat=k):
                want = sum(arr) % m
                for as_bn in (0, 1):
                    # numbers, big numbers, and both by turns
                    got = sum_bn_array([W.bn(x) if as_bn or (i + k) % 3 == 1 else x
                                        for i, x in enumerate(arr)], W.bn(m) if k % 2 else m)
                    rep.steps += 1
                    if not (isinstance(got, Bn) and int(got) == want):
                        rep.violation(cid, "sum of %s modulo %d is %s" % (list(arr), m, got))
        big = [(1 << 255) + 11, (1 << 256) - 1, -(1 << 200), 5]
        mod = (1 << 224) + 987654321
        for k in range(5):
            for arr in itertools.product(big, repeat=k):
                got = sum_bn_array([W.bn(x) for x in arr], W.bn(mod + m))
                rep.steps += 1
                rep.require(int(got) == sum(arr) % (mod + m), cid, "sum of %s" % (arr,))
        rep.outcome("sums")

    def numbers(cid, _):
        vals = set(range(-40, 41))
        for k in range(32):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    vals.add(s * ((1 << k) + d))
        for v in sorted(vals):
            got = ensure_bn(v)
            rep.steps += 1
            rep.require(isinstance(got, Bn) and int(got) == v, cid, "ensure_bn(%d) is %s" % (v, got))
        for v in sorted(vals) + [1 << 64, -(1 << 64), (1 << 256) - 1, 1 << 300]:
            b = W.bn(v)
            got = ensure_bn(b)
            rep.steps += 1
            rep.require(isinstance(got, Bn) and int(got) == v and int(b) == v, cid,
                        "ensure_bn(Bn(%d)) is %s" % (v, got))
        for v in (True, False):
            rep.require(int(ensure_bn(v)) == int(v), cid, "ensure_bn(%s)" % v)
        rep.outcome("numbers")

    def attributes(cid, _):
        vals = (None, 0, False, "", [], (), 1, "a", [1])

        class Obj:
            pass

        for has in (True, False):
            for v in vals:
                for d in vals:
                    o = Obj()
                    if has:
                        o.attr = v
                    got = get_default_attr(o, "attr", d)
                    rep.steps += 1
                    want = v if has else d
                    rep.require(got is want and o.attr is want, cid,
                                "attribute %r default %r gives %r" % (v if has else "missing", d, got))
        o = Obj()
        rep.require(get_default_attr(o, "x") is None and o.x is None, cid, "default of the default")
        rep.outcome("attributes")

    def items():
        for m in range(1, 6 if length > 2 else 9):
            yield "sums modulo %d" % m, (sums, m)
        yield "numbers", (numbers, None)
        yield "attributes", (attributes, None)

    rep.run(items(), lambda cid, it: it[0](cid, it[1]))


def names(W, rep, depth=5, many=100000):
    """
    Names of secrets.  Programs over: create, create with a value, drop the oldest, drop the newest,
    use the newest in an expression that is kept, deep copies of expressions.
    """
    ops = ("new", "value", "drop", "drop-last", "expr", "collect")

    def items():
        for p in itertools.product(ops, repeat=depth):
            yield "names " + " ".join(p), p
        yield "many", None

    def fn(cid, p):
        g = W.base("g")
        if p is None:
            pool = [W.Secret() for _ in range(many)] + [W.Secret(5) for _ in range(many)]
            rep.steps += len(pool)
            rep.require(len(set(s.name for s in pool)) == len(pool), cid, "two secrets share a name")
            rep.require(len({s: 1 for s in pool}) == len(pool), cid, "two secrets are the same")
            return
        live, kept = [W.Secret()], []
        for op in p:
            if op == "new":
                live.append(W.Secret())
            elif op == "value":
                live.append(W.Secret(value=3))
            elif op == "drop" and live:
                live.pop(0)
            elif op == "drop-last" and live:
                live.pop()
            elif op == "expr" and live:
                kept.append(live[-1] * g)
                del live[-1]
            elif op == "collect":
                gc.collect(0)
            rep.steps += 1
            all_ = live + [s for e in kept for s in e.secrets]
            hashes = set(hash(s) for s in all_)
            if len(set(s.name for s in all_)) != len(all_) or len(hashes) != len(all_):
                rep.violation(cid, "two secrets share a name")
            for i, a in enumerate(all_):
                for j, b in enumerate(all_):
                    if (a == b) != (i == j):
                        rep.violation(cid, "equality of different secrets")
        if not W.tiny:
            rep.real_traces += 1

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    r = ["real", {}]
    free = ["real", {"scripted": False}]
    deep = tier == "thorough"
    add(free, "generators", 6, n=24 if deep else 8)
    add(free, "points", 2)
    add(r, "processes")
    add(free, "keys", n=16 if deep else 6)
    for q in (3, 5, 101):
        add(["tiny", dict(q=3, bpq=q, d1=1)], "keys", n=6)
    add(r, "arithmetic", 4, length=3)
    add(r, "arithmetic", 4, length=2)
    add(free, "names", 2, depth=6 if deep else 5, many=1000000 if deep else 100000)
    if deep:
        add(r, "arithmetic", 5, length=4)
    return out


if __name__ == "__main__":
    child(int(sys.argv[1]))
