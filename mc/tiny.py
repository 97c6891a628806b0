"""
Stand-ins for the two cryptographic libraries below zksk, with groups small enough to enumerate.

* petlib.ec: EcGroup(nid) is the vector space Z_q^d.  d = 1 is a cyclic group of prime order q
  (Pedersen commitments are then perfectly hiding); d > 1 has d independent generators (Pedersen
  commitments are then perfectly binding, so that the truth of a statement can be decided).
* bplib.bp: G1 = Z_q^d1, G2 = Z_q^d2, GT = Z_q^(d1*d2) (written multiplicatively) and the pairing is
  the tensor product, which is bilinear and non-degenerate.

The rest (petlib.bn, petlib.pack, zksk itself) is the real code.  The stand-ins keep the strictness
of the originals: operands of other types or groups raise, weighted sums need matching lengths and
big-number weights.
"""
import hashlib
import sys
import types

CONF = {}  # nid -> (q, d)
BP_CONF = {}  # nid -> (q, d1, d2)
CHALLENGE_BITS = None


def _fail(msg="EC exception"):
    raise Exception(msg)


def _vec_bytes(v):
    return b"".join(x.to_bytes(4, "big") for x in v)


class _Registry:
    """hash_to_point: the first d inputs get the basis vectors, later ones pseudo-random vectors."""

    def __init__(self):
        self.known = {}

    def point(self, key, data, q, d):
        data = bytes(data)
        tab = self.known.setdefault(key, {})
        if data not in tab:
            if len(tab) < d and d > 1:
                v = tuple(1 if i == len(tab) else 0 for i in range(d))
            else:
                i = 0
                while True:
                    h = hashlib.sha512(data + b"%d" % i).digest()
                    v = tuple(h[j] % q for j in range(d))
                    if any(v):
                        break
                    i += 1
            tab[data] = v
        return tab[data]


REG = _Registry()


def make_ec():
    from petlib.bn import Bn

    m = types.ModuleType("petlib.ec")

    class EcGroup(object):
        def __init__(self, nid=713, optimize_mult=True):
            if nid not in CONF:
                _fail("unknown curve %r" % nid)
            self._nid = nid
            self.q, self.d = CONF[nid]
            self.ecg = nid
            self._ord = Bn(self.q)
            self.inf = None
            self.gen = None

        @staticmethod
        def list_curves():
            return {n: "tiny" for n in CONF}

        def parameters(self):
            return {"p": Bn(self.q), "a": Bn(0), "b": Bn(0)}

        def generator(self):
            if self.gen is None:
                self.gen = EcPt(self, (1,) + (0,) * (self.d - 1))
            return self.gen

        def infinite(self):
            if self.inf is None:
                self.inf = EcPt(self, (0,) * self.d)
            return self.inf

        def order(self):
            return self._ord

        def sum(self, elems):
            res = elems[0]
            for e in elems[1:]:
                res = res + e
            return EcPt(self, res.v)

        def wsum(self, weights, elems):
            assert len(weights) == len(elems)
            assert all(isinstance(e, Bn) for e in weights)
            assert all(isinstance(e, EcPt) for e in elems)
            q, d = self.q, self.d
            acc = [0] * d
            for w, e in zip(weights, elems):
                if e.group._nid != self._nid:
                    _fail()
                w = int(w) % q
                v = e.v
                for i in range(d):
                    acc[i] += w * v[i]
            return EcPt(self, tuple(a % q for a in acc))

        def __eq__(self, other):
            return self.ecg == other.ecg

        def __ne__(self, other):
            return not self.__eq__(other)

        def __repr__(self):
            return "EcGroup(%s)" % self.nid()

        def nid(self):
            return self._nid

        def check_point(self, pt):
            return pt.group._nid == self._nid

        def hash_to_point(self, hinput):
            return EcPt(self, REG.point(("ec", self._nid), hinput, self.q, self.d))

    class EcPt(object):
        __slots__ = ["v", "group"]

        @staticmethod
        def from_binary(sbin, group):
            sbin = bytes(sbin)
            if sbin == b"\x00":
                return EcPt(group, (0,) * group.d)
            if len(sbin) != 1 + 4 * group.d or sbin[0] != 2:
                _fail()
            v = tuple(
                int.from_bytes(sbin[1 + 4 * i:5 + 4 * i], "big") for i in range(group.d)
            )
            if any(x >= group.q for x in v) or not any(v):
                _fail()
            return EcPt(group, v)

        def __init__(self, group, v=None):
            self.group = group
            self.v = v if v is not None else (0,) * group.d

        def __copy__(self):
            return EcPt(self.group, self.v)

        def _chk(self, other):
            if not isinstance(other, EcPt) or other.group._nid != self.group._nid:
                _fail()

        def __add__(self, other):
            self._chk(other)
            q = self.group.q
            return EcPt(self.group, tuple([(a + b) % q for a, b in zip(self.v, other.v)]))

        pt_add = __add__

        def pt_add_inplace(self, other):
            self.v = (self + other).v
            return self

        def pt_double(self):
            return self + self

        def pt_double_inplace(self):
            self.v = (self + self).v
            return self

        def pt_neg_inplace(self):
            self.v = (-self).v
            return self

        def pt_mul_inplace(self, scalar):
            self.v = (scalar * self).v
            return self

        def __neg__(self):
            q = self.group.q
            return EcPt(self.group, tuple([(-a) % q for a in self.v]))

        pt_neg = __neg__

        def __sub__(self, other):
            return self + (-other)

        def __rmul__(self, other):
            if not isinstance(other, (Bn, int)):
                other = Bn.from_num(other)
            w = int(other)
            q = self.group.q
            return EcPt(self.group, tuple([(a * w) % q for a in self.v]))

        pt_mul = __rmul__

        def __eq__(self, other):
            self._chk(other)
            return self.v == other.v

        pt_eq = __eq__

        def __ne__(self, other):
            return not self.__eq__(other)

        def __hash__(self):
            return self.export().__hash__()

        def export(self, form=None):
            if not any(self.v):
                return b"\x00"
            return b"\x02" + _vec_bytes(self.v)

        def is_infinite(self):
            return not any(self.v)

        def get_affine(self):
            if not any(self.v):
                _fail("EC Infinity")
            return Bn(self.v[0]), Bn(0)

        def __str__(self):
            return self.export().hex()

        def __repr__(self):
            return "EcPt(%s)" % self.__str__()

    m.EcGroup, m.EcPt = EcGroup, EcPt
    m.POINT_CONVERSION_COMPRESSED, m.POINT_CONVERSION_UNCOMPRESSED = 2, 4
    return m


def make_bp():
    from petlib.bn import Bn

    m = types.ModuleType("bplib.bp")

    class BpGroup(object):
        def __init__(self, nid=1, optimize_mult=True):
            if nid not in BP_CONF:
                _fail("unknown pairing %r" % nid)
            self.nid = nid
            self.q, self.d1, self.d2 = BP_CONF[nid]
            self._ord = Bn(self.q)
            self.g1 = G1Elem(self, (1,) + (0,) * (self.d1 - 1))
            self.g2 = G2Elem(self, (1,) + (0,) * (self.d2 - 1))

        def order(self):
            return self._ord

        def gen1(self):
            return self.g1

        def gen2(self):
            return self.g2

        def hashG1(self, sbin):
            return G1Elem(self, REG.point(("bp", self.nid), sbin, self.q, self.d1))

        def pair(self, g1, g2):
            if not isinstance(g1, G1Elem) or not isinstance(g2, G2Elem):
                raise TypeError("pair")
            q = self.q
            return GTElem(self, tuple([(a * b) % q for a in g1.v for b in g2.v]))

        def __copy__(self):
            return BpGroup(self.nid)

        def __eq__(self, G):
            return G.nid == self.nid

    class _Elem(object):
        tag = 0

        def __init__(self, group, v=None):
            self.group = group
            self.v = v if v is not None else (0,) * self.dim(group)

        def __copy__(self):
            return type(self)(self.group, self.v)

        def _chk(self, other):
            if type(other) is not type(self) or other.group.nid != self.group.nid:
                raise TypeError("element of another group")

        def eq(self, other):
            self._chk(other)
            return self.v == other.v

        def __eq__(self, other):
            return self.eq(other)

        def __ne__(self, other):
            return not self.eq(other)

        def __hash__(self):
            return hash(self.export())

        def _plus(self, other):
            self._chk(other)
            q = self.group.q
            return type(self)(self.group, tuple([(a + b) % q for a, b in zip(self.v, other.v)]))

        def _minus(self):
            q = self.group.q
            return type(self)(self.group, tuple([(-a) % q for a in self.v]))

        def _times(self, w):
            if not isinstance(w, (Bn, int)):
                return NotImplemented
            w = int(w)
            q = self.group.q
            return type(self)(self.group, tuple([(a * w) % q for a in self.v]))

        def _zero(self):
            return not any(self.v)

        def export(self, form=None):
            return bytes([self.tag]) + _vec_bytes(self.v)

        @classmethod
        def from_bytes(cls, sbin, group):
            sbin = bytes(sbin)
            d = cls.dim(group)
            if len(sbin) != 1 + 4 * d or sbin[0] != cls.tag:
                _fail()
            v = tuple(int.from_bytes(sbin[1 + 4 * i:5 + 4 * i], "big") for i in range(d))
            if any(x >= group.q for x in v):
                _fail()
            return cls(group, v)

    class _Add(_Elem):
        @classmethod
        def inf(cls, group):
            return cls(group)

        def add(self, other):
            return self._plus(other)

        __add__ = add

        def __sub__(self, other):
            return self._plus(other._minus())

        def double(self):
            return self._plus(self)

        def neg(self):
            return self._minus()

        __neg__ = neg

        def mul(self, w):
            return self._times(w)

        __mul__ = __rmul__ = mul

        def isinf(self):
            return self._zero()

    class G1Elem(_Add):
        tag = 3

        @staticmethod
        def dim(group):
            return group.d1

    class G2Elem(_Add):
        tag = 4

        @staticmethod
        def dim(group):
            return group.d2

    class GTElem(_Elem):
        tag = 5

        @staticmethod
        def dim(group):
            return group.d1 * group.d2

        @classmethod
        def one(cls, group):
            return cls(group)

        def isone(self):
            return self._zero()

        def mul(self, other):
            return self._plus(other)

        __mul__ = mul

        def inv(self):
            return self._minus()

        def sqr(self):
            return self._plus(self)

        def exp(self, w):
            return self._times(w)

        def __pow__(self, w, modulo=None):
            return self._times(w)

        def export(self):
            return bytes([self.tag]) + _vec_bytes(self.v)

    m.BpGroup, m.G1Elem, m.G2Elem, m.GTElem = BpGroup, G1Elem, G2Elem, GTElem
    return m


class _ConstsHook:
    """Shrinks the challenge space when zksk.consts is imported."""

    def find_spec(self, name, path=None, target=None):
        if name != "zksk.consts":
            return None
        import importlib.machinery

        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None:
            return None
        loader = spec.loader
        orig = loader.exec_module

        def exec_module(module):
            import ast

            if CHALLENGE_BITS is None:
                return orig(module)
            tree = ast.parse(loader.get_data(spec.origin), spec.origin)
            for node in tree.body:
                # shrink the constant where it is defined, so that what is derived from it follows
                targets = getattr(node, "targets", None) or [getattr(node, "target", None)]
                if any(isinstance(t, ast.Name) and t.id == "CHALLENGE_LENGTH" for t in targets):
                    node.value = ast.parse("Bn(%d)" % CHALLENGE_BITS, mode="eval").body
                    ast.fix_missing_locations(tree)
            exec(compile(tree, spec.origin, "exec"), module.__dict__)

        loader.exec_module = exec_module
        return spec


def install(groups, pairing=(1, 5, 1, 1), challenge_bits=1):
    """
    groups: {nid: (q, d)}; pairing: (nid, q, d1, d2).
    Must run before anything imports petlib.ec, bplib or zksk.
    """
    global CHALLENGE_BITS
    assert "zksk" not in sys.modules and "petlib.ec" not in sys.modules
    CONF.update(groups)
    BP_CONF[pairing[0]] = tuple(pairing[1:])
    CHALLENGE_BITS = challenge_bits
    import petlib

    sys.modules["petlib.ec"] = ec = make_ec()
    petlib.ec = ec
    pkg = types.ModuleType("bplib")
    pkg.__path__ = []
    sys.modules["bplib"] = pkg
    sys.modules["bplib.bp"] = bp = make_bp()
    pkg.bp = bp
    for n in ("BpGroup", "G1Elem", "G2Elem", "GTElem"):
        setattr(pkg, n, getattr(bp, n))
    sys.meta_path.insert(0, _ConstsHook())
