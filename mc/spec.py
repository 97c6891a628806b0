"""
Statement programs: an abstract syntax for zksk statements, a builder, and the reference model.

A spec is a nested tuple.  Leaves:
  ('dl', ((var, base), ...), lhs, grp)     PK{vars: lhs = sum var*base}; lhs None: the honest value,
                                           else a tuple of (coef, base)
  ('ne', var, g, h, H1, bind, grp)         DLNotEqual((val*g, g), (H1*h, h), var, bind)
  ('p2', var, rvar, nbits, grp)            power-two range of the commitment val*g + r*h
  ('rg', var, rvar, a, b, grp)             range [a, b) of the commitment val*g + r*h
  ('bb', (mvar, ...))                      BBS+ signature on the values of the message variables
  ('eg', mvar, rvar, grp)                  a user-defined primitive (ElGamal)
Nodes:
  ('and', c...), ('or', c...)              constructors
  ('&', l, r), ('|', l, r)                 operators
  ('sim', c)                               c marked as to be simulated

The public values are computed from `truth` (var -> int); the Secret objects have a value for the
variables in `known` only.  The reference model works on specs alone, never on zksk objects.
"""
import itertools

LEAVES = ("dl", "ne", "p2", "rg", "bb", "eg")


def is_leaf(s):
    return s[0] in LEAVES


def children(s):
    if is_leaf(s):
        return ()
    return s[1:]


def flat(s):
    """The tree that the operators build: nested uses of one operator are flattened."""
    if is_leaf(s):
        return s
    if s[0] == "sim":
        return ("sim", flat(s[1]))
    if s[0] in ("and", "or"):
        return (s[0],) + tuple(flat(c) for c in s[1:])
    kind = {"&": "and", "|": "or"}[s[0]]
    out = []
    for c in s[1:]:
        f = flat(c)
        if f[0] == kind:
            out.extend(f[1:])
        elif c[0] == "rg" and kind == "and":
            # a range statement is itself a conjunction
            out.append(f)
        else:
            out.append(f)
    return (kind,) + tuple(out)


def unsim(s):
    if is_leaf(s):
        return s
    if s[0] == "sim":
        return unsim(s[1])
    return (s[0],) + tuple(unsim(c) for c in s[1:])


def leaves(s):
    if is_leaf(s):
        yield s
    else:
        for c in children(s):
            yield from leaves(c)


def leaf_vars(s):
    """Variables a leaf needs the values of."""
    t = s[0]
    if t == "dl":
        return tuple(v for v, _ in s[1])
    if t == "ne":
        return (s[1],)
    if t in ("p2", "rg"):
        return (s[1], s[2])
    if t == "bb":
        return tuple(s[1]) + ("sig",)
    if t == "eg":
        return (s[1], s[2])
    raise ValueError(t)


def variables(s):
    out = []
    for l in leaves(s):
        for v in leaf_vars(l):
            if v not in out:
                out.append(v)
    return out


def linked_vars(s):
    """Occurrences (var, grp) through which a leaf links its secrets to other leaves."""
    t = s[0]
    if t == "dl":
        return [(v, s[3]) for v, _ in s[1]]
    if t == "ne":
        return [(s[1], s[6])] if s[5] else []
    if t == "p2":
        return []
    if t == "rg":
        return [(s[1], s[5]), (s[2], s[5])]
    if t == "bb":
        return [(v, "G1") for v in s[1]]
    if t == "eg":
        return [(s[2], s[3]), (s[1], s[3]), (s[2], s[3])]
    raise ValueError(t)


def subtree_links(s):
    out = []
    for l in leaves(s):
        out.extend(linked_vars(l))
    return out


ORDER_CLASS = {0: 0, 1: 0, 2: 2, "G1": 3, "G2": 3, "GT": 3}


def composition_ok(s):
    """
    Reference for supported compositions: within a conjunction, no secret occurs both inside and
    outside of one of its disjunctions, and all bases of one secret have the same group order.
    """
    s = flat(unsim(s))

    def ors_below(n):
        for c in children(n):
            if c[0] == "or":
                yield c
            elif c[0] == "and":
                yield from ors_below(c)

    def rec(n):
        if is_leaf(n):
            return True
        orders = {}
        for v, g in subtree_links(n):
            if orders.setdefault(v, ORDER_CLASS[g]) != ORDER_CLASS[g]:
                return False
        if n[0] == "and":
            total = [v for v, _ in subtree_links(n)]
            for o in ors_below(n):
                inside = [v for v, _ in subtree_links(o)]
                for v in set(inside):
                    if total.count(v) > inside.count(v):
                        return False
        return all(rec(c) for c in children(n))

    return rec(s)


def provable(s, known):
    t = s[0]
    if is_leaf(s):
        return all(v in known for v in leaf_vars(s))
    if t == "sim":
        return False
    if t in ("and", "&"):
        return all(provable(c, known) for c in children(s))
    return any(provable(c, known) for c in children(s))


def or_free(s):
    return all(n[0] not in ("or", "|") for n in nodes(s))


def nodes(s):
    yield s
    for c in children(s):
        yield from nodes(c)


class Build:
    """The zksk objects of one party."""

    def __init__(self, W, truth, known=(), named=False, shared=None, ints=False, share_leaves=False):
        self.W = W
        self.truth = truth
        self.known = set(known)
        self.named = named
        self.secrets = shared if shared is not None else {}
        self.ints = ints
        self.cache = {} if share_leaves else None

    def val(self, v):
        x = self.truth[v]
        return x if self.ints else self.W.bn(x)

    def sec(self, v):
        if v not in self.secrets:
            kw = {}
            if self.named:
                kw["name"] = "name-" + v
            if v in self.known:
                kw["value"] = self.val(v)
            self.secrets[v] = self.W.Secret(**kw)
        return self.secrets[v]

    def values(self, vs):
        """A secrets dictionary for prove()."""
        return {self.sec(v): self.val(v) for v in vs}

    def stmt(self, s):
        if self.cache is not None and is_leaf(s):
            if s not in self.cache:
                self.cache[s] = self._stmt(s)
            return self.cache[s]
        return self._stmt(s)

    def _stmt(self, s):
        W, t, T = self.W, s[0], self.truth
        if t == "dl":
            grp = s[3]
            lhs = s[2]
            if lhs is None:
                lhs = tuple((T[v], b) for v, b in s[1])
            expr = None
            for v, b in s[1]:
                term = self.sec(v) * W.base(b, grp)
                expr = term if expr is None else expr + term
            return W.DLRep(W.lin(lhs, grp), expr)
        if t == "ne":
            _, v, g, h, h1, bind, grp = s
            return W.DLNE(
                (W.lin([(T[v], g)], grp), W.base(g, grp)),
                (W.lin([(h1, h)], grp), W.base(h, grp)),
                self.sec(v),
                bind=bind,
            )
        if t == "p2":
            _, v, r, n, grp = s
            return W.P2(
                W.lin([(T[v], "g"), (T[r], "h")], grp),
                W.base("g", grp), W.base("h", grp), n, self.sec(v), self.sec(r),
            )
        if t == "rg":
            _, v, r, a, b, grp = s
            return W.Range(
                W.lin([(T[v], "g"), (T[r], "h")], grp),
                W.base("g", grp), W.base("h", grp), a, b, self.sec(v), self.sec(r),
            )
        if t == "eg":
            _, m, r, grp = s
            return W.ElGamal(
                W.lin([(T[r], "g")], grp), W.lin([(T[m], "g"), (T[r], "h")], grp),
                W.base("g", grp), W.base("h", grp), self.sec(m), self.sec(r),
            )
        if t == "bb":
            kp, sig = bbs_fixture(W, tuple(T[v] for v in s[1]))
            e, sg = W.Secret(), W.Secret()
            ms = [self.sec(v) for v in s[1]]
            return W.bbs.BBSPlusSignatureStmt(
                [e, sg] + ms, kp.pk, sig if "sig" in self.known else None
            )
        if t == "sim":
            st = self.stmt(s[1])
            st.set_simulated()
            return st
        cs = [self.stmt(c) for c in s[1:]]
        if t == "and":
            return W.And(*cs)
        if t == "or":
            return W.Or(*cs)
        if t == "&":
            return cs[0] & cs[1]
        if t == "|":
            return cs[0] | cs[1]
        raise ValueError(t)


_BBS = {}


def bbs_keypair(W, n):
    key = (id(getattr(W, "root", W)), "kp", n)
    if key not in _BBS:
        from mc import seams

        with seams.use(None):
            _BBS[key] = W.bbs.BBSPlusKeypair.generate(W.bp, n)
    return _BBS[key]


def bbs_fixture(W, msgs):
    """A key pair and a signature on the messages, made by the library itself."""
    key = (id(getattr(W, "root", W)), "sig", msgs)
    if key not in _BBS:
        from mc import seams

        kp = bbs_keypair(W, 3)
        ms = [W.bn(m) for m in msgs]
        with seams.use(None):
            for _ in range(50):
                try:
                    cr = W.bbs.BBSPlusSignatureCreator(kp.pk)
                    com = cr.commit(ms, zkp=False)
                    sig = cr.obtain_signature(kp.sk.sign(com.com_message))
                    break
                except Exception:
                    # e + gamma = 0: probability 1/q, only visible in a tiny group
                    continue
        _BBS[key] = (kp, sig)
    return _BBS[key]
