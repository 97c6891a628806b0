"""
The two worlds a scenario can run in.

* RealWorld: the real zksk on the real petlib/bplib (P-224, P-256, fp254bnb).
* TinyWorld: the real zksk on the stand-ins of tiny.py.

Both give named points, so that a scenario is written once and runs in both: a conformance check of
the stand-ins against the real libraries.
"""
import math
import os
import sys
import warnings

REPO = os.environ.get("ZKSK_REPO", "/repo")


def _common():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def sort_dictionaries():
    from petlib import pack

    def rec(x):
        if isinstance(x, dict):
            return {k: rec(x[k]) for k in sorted(x)}
        if isinstance(x, list):
            return [rec(y) for y in x]
        if type(x) is tuple:
            return tuple(map(rec, x))
        return x

    inner = pack.encode
    pack.encode = lambda structure, *args, **kw: inner(rec(structure), *args, **kw)


BASES = "g h k m n p".split()


class World:
    tiny = False

    def __init__(self, auto_names=False):
        from petlib.bn import Bn

        self.Bn = Bn
        import zksk
        import zksk.base, zksk.composition, zksk.consts, zksk.exceptions, zksk.expr, zksk.extended
        import zksk.pairings, zksk.primitives.bbsplus, zksk.primitives.dl_notequal
        import zksk.primitives.dlrep, zksk.primitives.rangeproof, zksk.utils, zksk.utils.debug

        self.z = zksk
        self.Secret = zksk.Secret
        self.DLRep = zksk.DLRep
        self.And = zksk.composition.AndProofStmt
        self.Or = zksk.composition.OrProofStmt
        self.DLNE = zksk.primitives.dl_notequal.DLNotEqual
        self.P2 = zksk.primitives.rangeproof.PowerTwoRangeStmt
        self.Range = zksk.primitives.rangeproof.RangeStmt
        self.RangeOnly = zksk.primitives.rangeproof.RangeOnlyStmt
        self.NIZK = zksk.base.NIZK
        self.Ext = zksk.extended.ExtendedProofStmt
        self.bbs = zksk.primitives.bbsplus
        self.pairings = zksk.pairings
        self.SigmaProtocol = zksk.utils.debug.SigmaProtocol
        assert zksk.__file__.startswith(REPO), zksk.__file__
        self._pts = {}
        self._groups = {}
        self._bp = None
        if not auto_names:
            from mc import seams

            seams.deterministic_names(self.Secret)

        world = self

        class ElGamalStmt(self.Ext):
            """As examples/primitive_knowledge_elgamal.py: only overrides construct_stmt."""

            def __init__(self, c1, c2, g, h, m, r):
                self.c1, self.c2, self.g, self.h, self.m, self.r = c1, c2, g, h, m, r

            def construct_stmt(self, precommitment):
                return world.DLRep(self.c1, self.r * self.g) & world.DLRep(
                    self.c2, self.m * self.g + self.r * self.h
                )

        self.ElGamal = ElGamalStmt

    def bn(self, x):
        from mc import seams

        return seams.to_bn(x)

    # -- groups and points -------------------------------------------------------------------
    def group(self, i=0):
        if i not in self._groups:
            self._groups[i] = self._make_group(i)
        return self._groups[i]

    def order(self, i=0):
        return int(self.group(i).order())

    def base(self, name, i=0):
        key = (name, i)
        if key not in self._pts:
            self._pts[key] = self._make_base(name, i)
        return self._pts[key]

    def lin(self, coeffs, i=0):
        """Sum of coef * base over (coef, base) pairs."""
        res = self.group(i).infinite()
        for c, b in coeffs:
            res = res + self.bn(c) * self.base(b, i)
        return res

    def flag_verifiers(self):
        """Every statement that a verifier is made from is marked as to be simulated."""
        base = self.z.composition.ComposableProofStmt

        def wrap(cls):
            inner = cls.__dict__["get_verifier"]

            def get_verifier(stmt, *args, **kw):
                stmt.set_simulated()
                return inner(stmt, *args, **kw)

            cls.get_verifier = get_verifier

        todo = [base]
        while todo:
            cls = todo.pop()
            todo.extend(cls.__subclasses__())
            if "get_verifier" in cls.__dict__:
                wrap(cls)

    @property
    def bp(self):
        if self._bp is None:
            self._bp = self.pairings.BilinearGroupPair()
        return self._bp


# group indices: 0 and 1: the same order; 2: another order; "G1": the pairing source group
class RealWorld(World):
    def __init__(self, scripted=True, auto_names=False):
        _common()
        from mc import seams

        if scripted:
            seams.install()
        super().__init__(auto_names or not scripted)

    def _make_group(self, i):
        from petlib.ec import EcGroup

        if i == "G1":
            return self.bp.G1
        if i == "G2":
            return self.bp.G2
        if i == "GT":
            return self.bp.GT
        return EcGroup({0: 713, 1: 713, 2: 415}[i])

    def _make_base(self, name, i):
        grp = self.group(i)
        if i in ("G2", "GT"):
            return (BASES.index(name) * 7 + 3) * grp.generator()
        return grp.hash_to_point(b"verif base " + name.encode())


# the orders of the other two groups
NEXT = {2: (3, 5), 3: (5, 7), 5: (7, 3), 7: (11, 5), 11: (13, 7), 13: (17, 7)}


class TinyWorld(World):
    tiny = True

    def __init__(self, q=3, d=1, bits=1, q2=None, bpq=None, d1=1, d2=1, auto_names=False,
                 unordered=False):
        _common()
        from mc import seams, tiny


        tiny.install(
            {713: (q, d), 415: (q2 or NEXT.get(q, (103, 107))[0], d)},
            pairing=(1, bpq or NEXT.get(q, (103, 107))[1], d1, d2),
            challenge_bits=bits,
        )
        if unordered:
            # hashes do not see the order of the entries of dictionaries
            sort_dictionaries()
        seams.install()
        self.q, self.d, self.bits = q, d, bits
        super().__init__(auto_names)
        for n in (q, self.order(2), self.order("G1"), 1 << bits):
            seams.NUMBERS |= {n, n - 1}
        self.fold = math.lcm(q, self.order(2), self.order("G1"), 1 << bits)

    def _make_group(self, i):
        from petlib.ec import EcGroup

        if i in ("G1", "G2", "GT"):
            return getattr(self.bp, i)
        return EcGroup({0: 713, 1: 713, 2: 415}[i])

    def _make_base(self, name, i):
        from petlib.ec import EcPt
        from bplib.bp import G1Elem

        grp = self.group(i)
        idx = BASES.index(name)
        if i == "G1":
            d, q = self.bp.bpgp.d1, self.bp.bpgp.q
        elif i in ("G2", "GT"):
            return ((idx * 2 + 1) % (int(grp.order()) - 1) + 1) * grp.generator()
        else:
            d, q = grp.d, grp.q
        if d > 1:
            if idx >= d:
                raise IndexError("not enough independent bases")
            v = tuple(1 if j == idx else 0 for j in range(d))
        else:
            v = (idx % (q - 1) + 1,)
        if i == "G1":
            return self.pairings.G1Point(G1Elem(self.bp.bpgp, v), self.bp)
        return EcPt(grp, v)

    def point(self, v, i=0):
        from petlib.ec import EcPt
        from bplib.bp import G1Elem

        if i == "G1":
            return self.pairings.G1Point(G1Elem(self.bp.bpgp, tuple(v)), self.bp)
        return EcPt(self.group(i), tuple(v))

    def all_points(self, i=0):
        import itertools

        if i == "G1":
            d, q = self.bp.bpgp.d1, self.bp.bpgp.q
        else:
            d, q = self.group(i).d, self.group(i).q
        for v in itertools.product(range(q), repeat=d):
            yield self.point(v, i)


def make(kind, **kw):
    return RealWorld(**kw) if kind == "real" else TinyWorld(**kw)
