"""
Completeness.  Every statement program of the enumerated grammars x every set of known secrets that
suffices x every way to supply the values x every draw of an or-branch (and a bounded number of
deviations of the other draws), proven by the real prover and checked by a verifier that is built
separately from public values only.
"""
import itertools

from mc import gen, spec as S
from mc.harness import has_infinite, shards
from mc.gen import dl, ext_leaf, fill, sid

ASSUMPTIONS = [
    "tiny groups stand for the real ones (bound by the jobs that repeat the cases on the real "
    "libraries)",
    "the exceptional draw of an inequality proof (neutral precommitment, probability 1/q) is excused",
]

TRUTH = {"x": 1, "y": 2, "z": 3, "u": 0, "v": 2, "ax": 2, "ar": 3, "bx": 1, "br": 4, "cx": 0,
         "cr": 1, "sig": 1}


def transfer(W, B, spec, mode, known):
    """Returns (statement, secrets dictionary) of the prover."""
    st = B.stmt(spec)
    d = {}
    if mode in ("dict", "mixed", "strict"):
        d = B.values([v for v in known if v != "sig" and v in B.secrets and v not in B.known])
    return st, d


NEEDS_VALUE = ("p2", "rg")


def ctor_known(spec, known, mode):
    """Which values are given when the secrets are created."""
    if mode == "ctor":
        return set(known)
    early = {"sig"}
    for l in S.leaves(spec):
        if l[0] in NEEDS_VALUE:
            early |= set(S.leaf_vars(l))
    rest = [v for v in known if v not in early]
    if mode == "mixed":
        early |= set(rest[::2])
    return early & set(known)


def mark(spec, known):
    """A primitive that cannot tell whether it can be proven has to be marked as simulated."""
    if S.is_leaf(spec):
        if spec[0] == "eg" and not S.provable(spec, known):
            return ("sim", spec)
        return spec
    return (spec[0],) + tuple(mark(c, known) for c in spec[1:])


def one(W, rep, cid, spec, known, mode="ctor", truth=TRUTH, deviations=0, interactive=False,
        named=False, ints=False, message=None, share=False, max_execs=None, run=None):
    msg = () if message is None else (message,)
    spec = mark(spec, set(known))

    def body():
        B = S.Build(W, truth, ctor_known(spec, known, mode), named=named, ints=ints,
                    share_leaves=share)
        V = S.Build(W, truth, (), named=named, share_leaves=share)
        ps, d = transfer(W, B, spec, mode, known)
        vs = V.stmt(S.unsim(spec))
        if interactive:
            return run_interactive(W, ps, vs, d, interactive)
        if msg:
            nizk = ps.prove(d, message=message) if d else ps.prove(message=message)
            return vs.verify(nizk, message=message), ps.verify(nizk, message=message), \
                nizk.precommitment
        nizk = ps.prove(d) if d else ps.prove()
        return vs.verify(nizk), ps.verify(nizk), nizk.precommitment

    has_ne = any(l[0] == "ne" for l in S.leaves(spec))

    def check(res, ch):
        if res[0] == "ok" and res[1][0] is True and res[1][1] is True:
            rep.outcome("accepted")
            return
        if has_ne and W.tiny and exceptional(W, res):
            rep.excused += 1
            return
        rep.violation(cid, "an honest proof was not accepted: %s" % (
            res[1] if res[0] == "exc" else res[1][:2],), spec=spec, known=list(known), mode=mode,
            path=ch.path)

    return rep.explore(cid, body, check, deviations=deviations, max_execs=max_execs)


def exceptional(W, res):
    if res[0] == "ok":
        return has_infinite(W, res[1][2])
    e = res[1]
    return type(e).__name__ == "ValidationError" and "unity" in str(e).lower() or \
        getattr(e, "_precom_infinite", False)


def run_interactive(W, ps, vs, d, how):
    prover = ps.get_prover(d) if d else ps.get_prover()
    verifier = vs.get_verifier()
    if how == "helper":
        ok = W.SigmaProtocol(verifier, prover).verify()
        return ok, True, None
    pre = prover.precommit()
    try:
        verifier.process_precommitment(pre)
        com = prover.commit()
        chal = verifier.send_challenge(com)
        resp = prover.compute_response(chal)
        return verifier.verify(resp), True, pre
    except Exception as e:
        if has_infinite(W, pre):
            e._precom_infinite = True
        raise


# -- the programs --------------------------------------------------------------------------------
A1 = [dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("x", "g"), ("y", "h")),
      dl(("x", "g"), ("x", "h")), dl(("u", "g"), ("y", "h"), ("z", "k")), dl(("z", "g"), grp=2),
      dl(("z", "g"), grp="G1"), dl(("z", "g"), grp="GT")]
A2 = A1[:4] + [dl(("z", "h"), ("y", "g"))]
A3 = [dl(("x", "g")), dl(("y", "h")), dl(("z", "g"), ("x", "k"))]


def suff(spec):
    """The sets of known variables that suffice, over the variables of the spec."""
    vs = S.variables(spec)
    for k in gen.subsets(vs):
        if S.provable(spec, set(k)):
            yield k


def programs(n, alphabet, ops=False):
    for shape in gen.shapes(n):
        for ls in itertools.product(alphabet, repeat=n):
            s = fill(shape, ls)
            if not S.composition_ok(s):
                continue
            yield s
            if ops and n > 1:
                o = gen.to_operators(s)
                if S.composition_ok(o):
                    yield o


def algebra(W, rep, n, alpha, modes, ops=False, deviations=0, interactive=False, all_known=True):
    alphabet = {"A1": A1, "A2": A2, "A3": A3}[alpha]

    def items():
        for s in programs(n, alphabet, ops):
            ks = list(suff(s))
            if not all_known:
                ks = [k for k in ks if len(k) == len(S.variables(s)) or
                      not any(S.provable(s, set(k) - {v}) for v in k)]
            for k in ks:
                for m in modes:
                    yield "%s knows %s %s%s" % (sid(s), "".join(k), m,
                                               " " + interactive if interactive else ""), (s, k, m)

    def fn(cid, item):
        s, k, m = item
        st = one(W, rep, cid, s, k, m, deviations=deviations, interactive=interactive)
        rep.sample(case=cid, executions=st.executions)

    rep.run(items(), fn)


def values(W, rep, interactive=False):
    """All small values, representatives that need reduction, all ways to write them."""
    q = W.order() if W.tiny else None
    vals = list(range(-3, 9)) + [10 ** 6, -10 ** 6, 2 ** 200, -2 ** 200 - 1]
    if q is None:
        q = W.order()
        vals += [q - 1, q, q + 1, -q, 2 * q, 2 ** 256 + 5]
    specs = [dl(("x", "g")), dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h")),
             ("and", dl(("x", "g")), dl(("x", "h"))),
             ("or", dl(("x", "g")), dl(("y", "h"))),
             ("and", dl(("x", "g"), ("y", "h")), dl(("y", "k"))),
             ("eg", "x", "y", 0), ("ne", "x", "g", "h", None, True, 0),
             ("ne", "x", "g", "h", None, False, 0)]

    def items():
        for s in specs:
            for x in vals:
                for y in (0, 2, -1) if "y" in S.variables(s) else (0,):
                    for m in ("ctor", "dict"):
                        for ints in (False, True):
                            if ints and abs(x) > 1 << 62:
                                continue  # plain integers of that size are not accepted by petlib
                            yield "%s x=%d y=%d %s %s" % (sid(s), x, y, m, "int" if ints else "Bn"), (
                                s, x, y, m, ints)

    def fn(cid, item):
        s, x, y, m, ints = item
        if s[0] == "ne":
            # the other logarithm differs modulo the order
            s = s[:4] + (x + 1,) + s[5:]
            if ints:
                return
        one(W, rep, cid, s, tuple(S.variables(s)), m, truth={"x": x, "y": y}, ints=ints,
            interactive=interactive)

    rep.run(items(), fn)


def wide(W, rep, interactive=False, big=9):
    """Wide and deep compositions."""
    def items():
        for n in range(4, big):
            ls = [dl(("w%d" % i, "ghkm"[i % 4])) for i in range(n)]
            vs = ["w%d" % i for i in range(n)]
            yield "and%d" % n, (("and",) + tuple(ls), vs)
            yield "and%d same" % n, (("and",) + tuple(dl(("w0", "ghkm"[i % 4])) for i in range(n)), ["w0"])
            for i in range(n):
                yield "or%d knows %d" % (n, i), (("or",) + tuple(ls), [vs[i]])
            yield "or%d knows all" % n, (("or",) + tuple(ls), vs)
            for op, other in (("and", "or"), ("or", "and")):
                s = ls[0]
                for i, l in enumerate(ls[1:]):
                    s = ((op, other)[i % 2], s, l)
                yield "deep %s%d" % (op, n), (s, vs)
                s = ls[0]
                for i, l in enumerate(ls[1:]):
                    s = ((op, other)[i % 2], l, s)
                yield "rdeep %s%d" % (op, n), (s, vs)
            yield "terms%d" % n, (dl(*[("w%d" % i, "ghkmn"[i % 5]) for i in range(n)]), vs)
            yield "terms%d rep" % n, (dl(*[("w%d" % (i % 2), "ghkmn"[i % 5]) for i in range(n)]), vs[:2])
        # conjunctions of disjunctions and the reverse
        for a, b in itertools.product((2, 3), repeat=2):
            vs = ["w%d" % i for i in range(a * b)]
            cnf = ("and",) + tuple(("or",) + tuple(dl((vs[i * b + j], "g")) for j in range(b))
                                   for i in range(a))
            dnf = ("or",) + tuple(("and",) + tuple(dl((vs[i * b + j], "g")) for j in range(b))
                                  for i in range(a))
            yield "cnf %d %d all" % (a, b), (cnf, vs)
            yield "cnf %d %d one" % (a, b), (cnf, [vs[i * b + i % b] for i in range(a)])
            yield "dnf %d %d all" % (a, b), (dnf, vs)
            yield "dnf %d %d last" % (a, b), (dnf, vs[-b:])
            # or in and in or, and in or in and
            l1, l2 = dl(("p", "g")), dl(("q", "h"))
            yield "or cnf %d %d" % (a, b), (("or", l1, cnf), vs)
            yield "or cnf %d %d first" % (a, b), (("or", l1, cnf), ["p"])
            yield "and dnf %d %d" % (a, b), (("and", l1, dnf, l2), vs + ["p", "q"])

    truth = {"w%d" % i: (3 * i + 1) % 7 for i in range(20)}
    truth.update(p=3, q=2)

    def fn(cid, item):
        s, k = item
        one(W, rep, cid, s, tuple(k), "ctor", truth=truth, interactive=interactive,
            max_execs=300)
        if len(k) > 1:
            one(W, rep, cid, s, tuple(k), "mixed", truth=truth, interactive=interactive,
                max_execs=60)

    rep.run(items(), fn)


def ext_contexts(kind, kind2=None):
    E, F = ext_leaf(kind, "a"), ext_leaf(kind2 or kind, "b")
    l, m = dl(("y", "k")), dl(("z", "g"))
    yield E
    yield ("and", E, l)
    yield ("and", l, E)
    yield ("&", E, l)
    yield ("or", E, l)
    yield ("or", l, E)
    yield ("|", l, E)
    yield ("and", E, F)
    yield ("or", E, F)
    yield ("or", ("and", E, m), l)
    yield ("or", l, ("and", m, E))
    yield ("and", ("or", E, m), l)
    yield ("and", l, ("or", m, E))
    yield ("or", l, ("or", E, m))
    yield ("and", ("or", E, l), ("or", m, F))
    yield ("or", ("and", E, l), ("and", F, m))
    yield ("and", ("and", E, l), m)
    yield ("or", E, l, F)
    if kind != "p2":
        # the secret of the extended statement linked with a conjunct
        yield ("and", E, dl(("ax", "k")))
        yield ("and", dl(("ax", "k"), ("y", "g")), E)
        yield ("or", ("and", dl(("ax", "k")), E), l)
        yield ("and", E, E)
    if kind == "p2":
        yield ("and", E, E)
    yield ("or", E, E)


def extended(W, rep, kind, kind2=None, interactive=False, modes=("ctor", "dict"), contexts=None):
    truth = dict(TRUTH)

    def items():
        for i, s in enumerate(ext_contexts(kind, kind2)):
            if not S.composition_ok(s):
                continue
            vs = S.variables(s)
            # which leaves are known: all subsets of leaves that suffice, minimal or complete
            ls = []
            for l in S.leaves(s):
                if l not in ls:
                    ls.append(l)
            seen = set()
            for sub in gen.subsets(range(len(ls))):
                k = set()
                for j in sub:
                    k |= set(S.leaf_vars(ls[j]))
                if not S.provable(s, k) or frozenset(k) in seen:
                    continue
                seen.add(frozenset(k))
                for m in modes:
                    if m == "dict" and all(l[0] in NEEDS_VALUE for l in ls):
                        continue
                    yield "%s knows %s %s%s" % (
                        sid(s), "".join(sorted(k)), m,
                        " " + interactive if interactive else ""), (s, tuple(sorted(k)), m)

    def fn(cid, item):
        s, k, m = item
        st = one(W, rep, cid, s, k, m, truth=truth, interactive=interactive, max_execs=400)
        rep.sample(case=cid, executions=st.executions)

    rep.run(items(), fn)


def shared_objects(W, rep, interactive=False):
    """One statement object at several places; secrets with names; messages."""
    def items():
        leaves = [dl(("x", "g")), dl(("x", "g"), ("y", "h"))] + [
            ext_leaf(k, "a") for k in ("ne", "neb", "p2", "rg", "bb", "eg")]
        for l in leaves:
            m = dl(("z", "k"))
            for s in (("and", l, l), ("or", l, l), ("or", ("and", l, m), l), ("and", m, l, l),
                      ("or", l, m, l), ("&", ("&", l, m), l), ("|", l, ("|", m, l))):
                if not S.composition_ok(s):
                    continue
                yield "shared %s" % sid(s), (s, dict(share=True))
                yield "named %s" % sid(s), (s, dict(named=True))
        if not interactive:
            for msg in ("", "m", "\u00e9\u4e2d\U0001f600", "a" * 1000, "\x00", "msg\n"):
                for l in (dl(("x", "g")), ("and", dl(("x", "g")), dl(("x", "h"))),
                          ("or", dl(("x", "g")), dl(("y", "h"))), ext_leaf("neb", "a"),
                          ext_leaf("eg", "a"), ext_leaf("rg", "a")):
                    yield "message %r %s" % (msg[:8], sid(l)), (l, dict(message=msg))

    def fn(cid, item):
        s, kw = item
        one(W, rep, cid, s, tuple(S.variables(s)), "ctor", interactive=interactive, max_execs=200,
            **kw)

    rep.run(items(), fn)


def jobs(tier, interactive=False):
    out = []
    t5 = ["tiny", dict(q=5, d=1, bits=2)]
    t7 = ["tiny", dict(q=7, d=1, bits=3)]
    t11 = ["tiny", dict(q=11, d=1, bits=2)]
    big = ["tiny", dict(q=101, d=1, bits=16)]
    real = ["real", {}]
    ia = dict(interactive=interactive) if interactive else {}

    def add(world, fn, cut_=1, **params):
        for j in shards(cut_, world=world, fn=fn, params=dict(params, **ia)):
            out.append(j)

    deep = tier == "thorough"
    add(t5, "algebra", n=1, alpha="A1", modes=["ctor", "dict"], deviations=None)
    add(t5, "algebra", 2, n=2, alpha="A1", modes=["ctor", "dict", "mixed"], ops=True, deviations=1)
    add(t5, "algebra", 6, n=3, alpha="A2", modes=["ctor", "dict"], ops=True)
    add(t7, "algebra", 4, n=4, alpha="A3", modes=["mixed"], all_known=False)
    add(t7, "values")
    add(t5, "algebra", 2, n=2, alpha="A1", modes=["ctor"], deviations=0, flagged=True)
    add(big, "wide", 2)
    for k in gen.EXT_KINDS:
        add(t11, "extended", 2 if k in ("rg", "bb") else 1, kind=k)
    add(t11, "shared_objects")
    for k in gen.EXT_KINDS:
        add(t11, "extended", kind=k, modes=["ctor"], flagged=True)
    add(t11, "extended", kind="rg", kind2="ne")
    add(t11, "extended", kind="bb", kind2="rg")
    add(t11, "extended", kind="neb", kind2="bb")
    # the same programs on the real libraries
    add(real, "algebra", n=1, alpha="A1", modes=["ctor", "dict"])
    add(real, "algebra", 2, n=2, alpha="A1", modes=["mixed"], ops=True, all_known=False)
    add(real, "values", 2)
    add(real, "wide", 2, big=6)
    add(real, "shared_objects", 3)
    for k in gen.EXT_KINDS:
        add(real, "extended", 4 if k in ("rg", "bb") else 2, kind=k, modes=["ctor"])
    if deep:
        add(t5, "algebra", 8, n=3, alpha="A1", modes=["ctor", "dict", "mixed"], ops=True)
        add(t5, "algebra", 8, n=3, alpha="A3", modes=["ctor"], deviations=1)
        add(t7, "algebra", 16, n=5, alpha="A3", modes=["mixed"], all_known=False)
        for a in gen.EXT_KINDS:
            for b in gen.EXT_KINDS:
                if a != b:
                    add(t11, "extended", 2, kind=a, kind2=b)
                    add(real, "extended", 4, kind=a, kind2=b, modes=["mixed"])
        add(real, "algebra", 8, n=3, alpha="A3", modes=["ctor", "dict"], ops=True)
        add(big, "wide", 8, big=15)
    out.sort(key=lambda j: j["world"][0] != "real")
    return out
