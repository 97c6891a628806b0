"""Enumerates the alterations of a proof: a nested structure of lists, dicts, numbers and points."""
import copy


def is_num(x):
    return type(x).__name__ == "Bn"


def is_point(x):
    return hasattr(x, "group") and not is_num(x)


def sites(x, path=()):
    """All positions: (path, value)."""
    yield path, x
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from sites(y, path + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from sites(x[k], path + (k,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    """A copy of x with the value at path replaced."""
    if not path:
        return v
    if isinstance(x, dict):
        r = dict(x)
        r[path[0]] = put(x[path[0]], path[1:], v)
        return r
    r = list(x)
    r[path[0]] = put(x[path[0]], path[1:], v)
    return tuple(r) if isinstance(x, tuple) else r


def alterations(W, v, orders, space):
    """(name, new value, same) for one site; `same`: equal modulo the group order."""
    if is_num(v):
        n = int(v)
        cand = [("+1", n + 1), ("-1", n - 1), ("neg", -n), ("zero", 0), ("one", 1),
                ("double", 2 * n), ("+space", n + space), ("-space", n - space)]
        cand += [("+q%d" % i, n + q) for i, q in enumerate(orders)]
        cand += [("-q%d" % i, n - q) for i, q in enumerate(orders)]
        seen = {n}
        for name, m in cand:
            if m in seen:
                continue
            seen.add(m)
            yield name, W.bn(m), any((m - n) % q == 0 for q in orders)
    elif is_point(v):
        g = v.group
        try:
            inf = g.infinite()
        except Exception:
            inf = v + (-1 * v)
        cand = [("neg", -1 * v), ("inf", inf), ("double", v + v), ("gen", g.generator()),
                ("+gen", v + g.generator())]
        for name, p in cand:
            if p != v:
                yield name, p, False
    elif isinstance(v, (list, tuple)):
        l = list(v)
        mk = tuple if isinstance(v, tuple) else list
        for i in range(len(l)):
            yield "drop%d" % i, mk(l[:i] + l[i + 1:]), False
            yield "dup%d" % i, mk(l[:i + 1] + l[i:]), False
        if l:
            yield "empty", mk([]), False
            yield "append", mk(l + [l[0]]), False
        yield "append none", mk(l + [None]), False
        for i in range(len(l)):
            for j in range(i):
                if not same(l[i], l[j]):
                    m = list(l)
                    m[i], m[j] = m[j], m[i]
                    yield "swap%d-%d" % (j, i), mk(m), False
    elif isinstance(v, dict):
        for k in sorted(v):
            r = dict(v)
            del r[k]
            yield "del %s" % k, r, False
        yield "extra", dict(v, zzz=W.bn(0)), False
    elif isinstance(v, bytes):
        for i in (0, len(v) // 2, len(v) - 1):
            if 0 <= i < len(v):
                yield "flip%d" % i, v[:i] + bytes([v[i] ^ 1]) + v[i + 1:], False
        yield "cut", v[:-1], False
        yield "empty", b"", False
        yield "ext", v + b"\0", False
    if v is not None:
        yield "none", None, False
    else:
        yield "zero for none", W.bn(0), False
        yield "list for none", [], False
        yield "nones", [None, None], False


def same(a, b):
    """Structural equality that does not raise."""
    if type(a).__name__ != type(b).__name__:
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b)
    except Exception:
        return False


FIELDS = ("challenge", "responses", "precommitment", "stmt_hash")


def as_dict(nizk):
    return {f: getattr(nizk, f) for f in FIELDS}
