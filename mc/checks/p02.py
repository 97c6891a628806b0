"""
Completeness of interactive runs: the programs of P01, run message by message between a prover and a
verifier that share public values only, over every challenge (tiny challenge space) and every draw
of an or-branch, and through the protocol helper.  Provers whose caller chooses some of the randomizers
(commit(randomizers_dict)): every subset of the secrets, every draw of the others and of the challenge: accepted,
the response of a chosen secret is its randomizer plus challenge times value, the others are exactly
uniform.
"""
from mc import gen, spec as S
from mc.checks import p01
from mc.checks.p01 import ASSUMPTIONS, TRUTH, algebra, extended, shared_objects, values, wide  # noqa: F401
from mc.gen import dl, ext_leaf, sid
from mc.harness import has_infinite


def leaf_places(spec, resp):
    """(secret, response) at every place of a tree without disjunctions."""
    if S.is_leaf(spec):
        for (v, _), r in zip(spec[1], resp):
            yield v, r
    else:
        for c, r in zip(spec[1:], resp):
            for x in leaf_places(c, r):
                yield x


PLAIN = [
    dl(("x", "g")), dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h")),
    ("and", dl(("x", "g")), dl(("y", "h"))), ("and", dl(("x", "g")), dl(("x", "h"))),
    ("&", dl(("x", "g"), ("y", "h")), dl(("y", "k"))),
    ("and", dl(("x", "g")), ("and", dl(("y", "h")), dl(("x", "k")))),
    ("and", ("and", dl(("x", "g")), dl(("y", "h"))), ("and", dl(("x", "h")), dl(("y", "g")))),
]
OTHERS = [
    ("or", dl(("x", "g")), dl(("y", "h"))),
    ("and", dl(("z", "g")), ("or", dl(("x", "g")), dl(("y", "h")))),
    ("or", ("and", dl(("x", "g")), dl(("y", "h"))), dl(("z", "k"))),
] + [e for k in ("ne", "neb", "eg") for e in (
    ext_leaf(k, "a"), ("and", ext_leaf(k, "a"), dl(("ax", "k"))), ("or", ext_leaf(k, "a"), dl(("y", "g"))))]


def chosen(W, rep, plain=True, values=(0, 1)):
    """Randomizers chosen by the caller."""
    q = int(W.order())

    def items():
        for s in PLAIN if plain else OTHERS:
            if not S.composition_ok(s):
                continue
            vs = S.variables(s)
            for sub in gen.subsets(vs):
                for r in values:
                    for strange in (False, True):
                        if not sub and not strange:
                            continue  # an empty dictionary: below, with one foreign secret
                        yield "%s chooses %s as %d%s" % (sid(s), "".join(sub) or "nothing", r,
                                                         " and a foreign one" if strange else ""), (
                            s, sub, r, strange)

    def fn(cid, item):
        s, sub, r, strange = item
        seen = {}

        def body():
            B = S.Build(W, TRUTH, set(S.variables(s)))
            V = S.Build(W, TRUTH, ())
            prover, verifier = B.stmt(s).get_prover(), V.stmt(s).get_verifier()
            pre = prover.precommit()
            try:
                verifier.process_precommitment(pre)
                d = {B.sec(v): W.bn(r + i) for i, v in enumerate(sub)}
                if strange:
                    d[W.Secret(value=W.bn(3), name="foreign")] = W.bn(4)
                com = prover.commit(d) if rep.n_cases % 2 else prover.commit(randomizers_dict=d)
                c = verifier.send_challenge(com)
                resp = prover.compute_response(c)
                return verifier.verify(resp), int(c), resp
            except Exception as e:
                if has_infinite(W, pre):
                    e._precom_infinite = True
                raise

        def check(res, ch):
            if W.tiny and res[0] == "exc" and p01.exceptional(W, res):
                rep.excused += 1
                return
            if res[0] == "exc" or res[1][0] is not True:
                rep.violation(cid, "a run with chosen randomizers was not accepted: %r" % (
                    res[1] if res[0] == "exc" else res[1][0],), path=ch.path)
                return
            _, c, resp = res[1]
            rep.outcome("accepted")
            if not plain:
                return
            rest = {}
            for v, x in leaf_places(s, resp):
                if v in sub:
                    want = (r + sub.index(v) + c * TRUTH[v]) % q
                    rep.require(int(x) % q == want, cid, "the chosen randomizer of %s was not used" % v,
                                got=int(x), want=want, path=ch.path)
                else:
                    rest[v] = int(x) % q
            k = (c, tuple(sorted(rest.items())))
            seen[k] = seen.get(k, 0) + 1

        rep.explore(cid, body, check, deviations=None if W.tiny else 0,
                    max_execs=None if plain and W.tiny else 60)
        if plain and W.tiny and not rep.violations:
            free = len(set(S.variables(s)) - set(sub))
            cs = {k[0] for k in seen}
            rep.require(len(seen) == len(cs) * q ** free and len(set(seen.values())) == 1, cid,
                        "the randomizers that were not chosen are not uniform", counts=len(seen),
                        of=len(cs) * q ** free)

    rep.run(items(), fn)


def enforced(W, rep):
    """Simulations whose caller enforces the responses and the challenge."""
    q = int(W.order())

    def items():
        for s in PLAIN:
            vs = S.variables(s)
            for r in (0, 1, q - 1):
                for c in (0, 1, 3):
                    yield "%s responses %d challenge %d" % (sid(s), r % 7, c), (s, vs, r, c)

    def fn(cid, item):
        s, vs, r, c = item

        def body():
            B, V = S.Build(W, TRUTH, ()), S.Build(W, TRUTH, ())
            st = B.stmt(s)
            d = {B.sec(v): W.bn((r + i) % q) for i, v in enumerate(vs)}
            tr = st.simulate_proof(responses_dict=d, challenge=W.bn(c))
            tr.stmt_hash = st.prehash_statement().digest()
            ok = V.stmt(s).verify_simulation_consistency(tr)
            return ok, int(tr.challenge), [(v, int(x)) for v, x in leaf_places(s, tr.responses)]

        def check(res, ch):
            want = dict((v, (r + i) % q) for i, v in enumerate(vs))
            rep.require(res[0] == "ok" and res[1][0] is True and res[1][1] == c and
                        all(want[v] == x for v, x in res[1][2]), cid,
                        "a simulation does not use the given responses and challenge", res=res)
            rep.outcome("enforced")

        rep.explore(cid, body, check)

    rep.run(items(), fn)


def jobs(tier):
    out = [j for j in p01.jobs(tier, "steps")]
    # the helper on a part of them
    for j in p01.jobs("quick", "helper"):
        if j["fn"] in ("algebra", "extended") and j["params"].get("n", 1) < 3 and \
                j["world"][0] == "tiny":
            j["params"] = {k: v for k, v in j["params"].items() if k != "deviations"}
            out.append(j)
    t5, real = ["tiny", dict(q=5, d=1, bits=2)], ["real", {}]
    t101 = ["tiny", dict(q=101, d=1, bits=2)]
    for w in (t5, real):
        out.append(dict(world=w, fn="chosen", params=dict(plain=True)))
    for w in (t101, real):
        out.append(dict(world=w, fn="chosen", params=dict(plain=False, values=(1,))))
    return out
