"""Enumerations of statement programs."""
import itertools

from mc import spec as S


def compositions(n, minparts=2):
    """Ordered ways to write n as a sum of at least `minparts` positive parts."""
    if minparts <= 1:
        yield (n,)
    for first in range(1, n):
        for rest in compositions(n - first, max(1, minparts - 1)):
            yield (first,) + rest


_SH = {}


def shapes(n):
    """All and/or trees over n leaf slots (integers 0..n-1 in order)."""
    if n in _SH:
        return _SH[n]
    out = []
    if n == 1:
        out.append(None)
    else:
        for parts in compositions(n, 2):
            for kids in itertools.product(*[shapes(p) for p in parts]):
                for op in ("and", "or"):
                    out.append((op,) + kids)
    _SH[n] = out
    return out


def fill(shape, leaves):
    it = iter(leaves)

    def rec(s):
        if s is None:
            return next(it)
        return (s[0],) + tuple(rec(c) for c in s[1:])

    return rec(shape)


def to_operators(s):
    """The same tree written with the binary operators (left-associated)."""
    if S.is_leaf(s):
        return s
    kids = [to_operators(c) for c in s[1:]]
    op = {"and": "&", "or": "|"}[s[0]]
    res = kids[0]
    for k in kids[1:]:
        res = (op, res, k)
    return res


def dl(*terms, lhs=None, grp=0):
    return ("dl", tuple(terms), lhs, grp)


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)


def sid(s):
    """A short, stable description of a spec."""
    if isinstance(s, tuple) and s and isinstance(s[0], str):
        t = s[0]
        if t == "dl":
            r = "+".join("%s%s" % (v, b) for v, b in s[1])
            if s[2] is not None:
                r += "=" + "+".join("%s%s" % (c, b) for c, b in s[2])
            if s[3] != 0:
                r += "@%s" % s[3]
            return r
        if t in ("and", "or", "&", "|", "sim"):
            return "%s(%s)" % (t, ",".join(sid(c) for c in s[1:]))
        return "%s[%s]" % (t, ",".join(str(x) for x in s[1:]))
    return str(s)


# one leaf of every other kind, over variables made from a prefix
def ext_leaf(kind, p, bind=True):
    x, r = p + "x", p + "r"
    return {
        "ne": ("ne", x, "g", "h", 4, False, 0),
        "neb": ("ne", x, "g", "h", 4, True, 0),
        "p2": ("p2", x, r, 2, 0),
        "p1": ("p2", x, r, 1, 0),
        "rg": ("rg", x, r, 0, 3, 0),
        "rgw": ("rg", x, r, 1, 3, 0),
        "bb": ("bb", (x, r)),
        "eg": ("eg", x, r, 0),
    }[kind]


EXT_KINDS = ("ne", "neb", "p2", "rg", "bb", "eg")
