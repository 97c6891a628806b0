"""
Serialization.  Proofs of all statement kinds in all contexts are serialized, deserialized, compared and
verified; made in one process and verified in others with other hash seeds, addresses, names and creation
orders of secrets; and their bytes are altered: every truncation, every position with a fixed alphabet of
changes, every exchange of fields, and byte strings that were never a proof.  An altered proof may only
be accepted if it decodes to the very same contents.
"""
import itertools
import os

from mc import alter, gen, peer, seams, spec as S
from mc.checks.p01 import ext_contexts, programs
from mc.checks.p04 import build_proof
from mc.explore import Chooser, spread
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["the processes run on one machine, with the same versions of the libraries"]

T = {"x": 1, "y": 2, "z": 3, "u": 0, "v": 2, "ax": 2, "ar": 3, "bx": 1, "br": 4, "cx": 0, "cr": 1,
     "sig": 1}


def specs(which):
    if which == "algebra":
        out = [dl(("x", "g")), dl(("u", "g")), dl(("x", "g"), ("y", "h")), dl(("x", "g"), ("x", "h")),
               dl(("z", "g"), grp=2), dl(("z", "g"), grp="G1"), dl(("z", "g"), grp="G2"),
               dl(("z", "g"), grp="GT"), dl(("x", "g"), ("y", "h"), ("z", "k"))]
        A = [dl(("x", "g")), dl(("y", "h")), dl(("x", "k"), ("y", "g"))]
        out += list(programs(2, A)) + list(programs(3, A[:2]))
        out += [("and", dl(("x", "g")), dl(("z", "g"), grp=2)),
                ("and", dl(("x", "g")), dl(("z", "g"), grp="G1")),
                ("or", dl(("x", "g")), dl(("z", "g"), grp="GT"))]
        return out
    if which == "few":
        return [dl(("x", "g")), dl(("z", "g"), grp="G1"), ("and", dl(("x", "g")), dl(("x", "h"))),
                ("or", dl(("x", "g")), dl(("y", "h"))),
                ("and", ("or", dl(("x", "g")), dl(("y", "h"))), dl(("z", "k")))]
    return [s for s in ext_contexts(which) if S.composition_ok(s)]


def roundtrip(W, rep, which, cross=True):
    ss = specs(which)
    k, n = rep.job.get("shard", (0, 1))
    mine = [s for i, s in enumerate(ss) if i % n == k]
    rep.job["shard"] = (0, 1)
    proofs = {}

    def fn(cid, s):
        nizk = build_proof(W, s)
        raw = nizk.serialize()
        rep.require(isinstance(raw, bytes), cid, "the serialized proof is no byte string")
        back = W.NIZK.deserialize(raw)
        for f in alter.FIELDS:
            rep.require(alter.same(getattr(back, f), getattr(nizk, f)), cid,
                        "%s changed on the way" % f, a=getattr(nizk, f), b=getattr(back, f))
        rep.require(back.serialize() == raw, cid, "serializing again gives other bytes")
        rep.require(W.NIZK.deserialize(raw).serialize() == raw, cid, "deserializing is not repeatable")
        ok = S.Build(W, T, ()).stmt(s).verify(back)
        rep.require(ok is True, cid, "the deserialized proof is not accepted")
        # what was invalid stays invalid
        for other in (dict(challenge=nizk.challenge + 1), dict(stmt_hash=b"x" * 32),
                      dict(responses=alter.put(nizk.responses, first_number(nizk.responses),
                                               alter.get(nizk.responses, first_number(
                                                   nizk.responses)) + 1))):
            bad = W.NIZK(**dict(alter.as_dict(nizk), **other))
            try:
                ok = S.Build(W, T, ()).stmt(s).verify(W.NIZK.deserialize(bad.serialize()))
            except Exception:
                ok = False
            rep.require(ok is not True, cid, "an invalid proof became valid on the way (%s)"
                        % list(other))
        proofs[s] = raw
        rep.steps += 4
        if not W.tiny:
            rep.real_traces += 4
        rep.outcome("round trip")
        rep.sample(case=cid, bytes=len(raw))

    rep.run((("round trip " + sid(s), s) for s in mine), fn)
    if not cross or rep.violations:
        return
    world = rep.job["world"]
    keys = peer.keys_out(W)
    done = [s for s in mine if s in proofs]
    for seed, reverse, named in ((1, False, False), (12345, True, False), (7, True, True)):
        ans = peer.call({"world": world, "mode": "verify", "keys": keys, "ballast": seed % 50,
                         "items": [{"spec": s, "truth": T, "named": named, "message": "",
                                    "proof": proofs[s], "reverse": reverse} for s in done]}, seed)
        for s, (what, res) in zip(done, ans["out"]):
            rep.steps += 1
            if not W.tiny:
                rep.real_traces += 1
            cid = "other process (hash seed %d) %s" % (seed, sid(s))
            rep.require(what == "result" and res is True, cid,
                        "a proof is not accepted in another process: %s" % (res,))
            rep.outcome("accepted elsewhere")
    # and the other way round: made elsewhere, verified here
    ans = peer.call({"world": world, "mode": "prove", "ballast": 21, "items": [
        {"spec": s, "truth": T, "named": i % 2 == 0, "message": "m"} for i, s in enumerate(done)]}, 99)
    peer.keys_in(W, ans["keys"])
    for i, (s, (what, raw)) in enumerate(zip(done, ans["out"])):
        cid = "made elsewhere %s" % sid(s)
        if not rep.require(what == "proof", cid, "no proof in another process: %s" % (raw,)):
            continue
        seams.reset_names()
        try:
            ok = S.Build(W, T, ()).stmt(s).verify(W.NIZK.deserialize(raw), message="m")
        except Exception as e:
            ok = e
        rep.steps += 1
        if not W.tiny:
            rep.real_traces += 1
        rep.require(ok is True, cid, "a proof of another process is not accepted: %r" % (ok,))
        rep.outcome("accepted from elsewhere")


def first_number(x):
    for p, v in alter.sites(x):
        if alter.is_num(v):
            return p
    raise HarnessError("no number")


def congruent(p, fields, orders):
    """Equal but for responses that are the same modulo a group order."""
    def rec(a, b):
        if alter.is_num(a) and alter.is_num(b):
            return any((int(a) - int(b)) % q == 0 for q in orders)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(rec(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return sorted(a) == sorted(b) and all(rec(a[k], b[k]) for k in a)
        return alter.same(a, b)

    return rec(p.responses, fields["responses"]) and all(
        alter.same(getattr(p, f), fields[f]) for f in alter.FIELDS if f != "responses")


def in_child(fn, items, fork):
    """fn of every item, in forked children; an item that kills its child is a 'crash'."""
    if not fork:
        return [fn(x) for x in items]
    out = []
    while len(out) < len(items):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    for x in items[len(out):]:
                        f.write(fn(x) + "\n")
                        f.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            got = f.read().split("\n")[:-1]
        _, st = os.waitpid(pid, 0)
        out += got
        if len(out) < len(items):
            if not os.WIFSIGNALED(st):
                raise HarnessError("a child failed")
            out.append("crash in the C library")
    return out


def corrupt(W, rep, which, stride=1, only=None):
    """Alterations of the bytes."""
    import msgpack

    ss = specs(which)
    if only:
        ss = [ss[i] for i in only if i < len(ss)]

    def fn(cid, s):
        nizk = build_proof(W, s)
        raw = nizk.serialize()
        fields = alter.as_dict(nizk)
        orders = sorted({W.order(i) for i in (0, 2, "G1")})
        todo = []

        def try_(data, what):
            todo.append((data, what))

        def judge(data):
            """The verdict on altered bytes."""
            try:
                p = W.NIZK.deserialize(data)
                ok = S.Build(W, T, ()).stmt(s).verify(p) is True
            except Exception:
                return "rejected"
            if not ok:
                return "rejected"
            same = all(alter.same(getattr(p, f), fields[f]) for f in alter.FIELDS)
            if not same and congruent(p, fields, orders):
                return "same numbers"
            return "same contents" if same else "ACCEPTED"

        for i in range(0, len(raw), stride):
            try_(raw[:i], "cut at %d" % i)
            for x in (1, 2, 0x10, 0x80, 0xff):
                try_(raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:], "byte %d ^ %#x" % (i, x))
            try_(raw[:i] + raw[i + 1:], "byte %d removed" % i)
            try_(raw[:i] + b"\0" + raw[i:], "zero at %d" % i)
        for t in (b"\0", b"\xc0", raw):
            try_(raw + t, "followed by %r" % t[:4])
            try_(t + raw, "preceded by %r" % t[:4])
        # the fields of the outer list
        parts = msgpack.unpackb(raw)
        k = len(parts)
        for perm in itertools.permutations(range(k)):
            if perm != tuple(range(k)):
                try_(msgpack.packb([parts[i] for i in perm]), "fields %s" % (perm,))
        for m in range(k):
            try_(msgpack.packb(parts[:m]), "%d fields" % m)
            try_(msgpack.packb(parts[:m] + parts[m + 1:]), "field %d missing" % m)
            for v in (None, b"", 0, [], b"\xc0", b"\x00", b"\x90", "x", {}, True):
                try_(msgpack.packb(parts[:m] + [v] + parts[m + 1:]), "field %d is %r" % (m, v))
        try_(msgpack.packb(parts + [parts[0]]), "surplus field")
        for junk in (b"", b"\0", b"\xc0", b"junk", msgpack.packb([]), msgpack.packb(None),
                     msgpack.packb([1, 2, 3, 4]), msgpack.packb({"challenge": 1}),
                     msgpack.packb([b"\xc0"] * 4), msgpack.packb([b"\x90"] * 4),
                     msgpack.packb([b"\x00", b"\x90", b"\xc0", parts[3]]), raw[::-1]):
            try_(junk, "junk %r" % junk[:10])
        # The C libraries crash on some encodings of points, so this happens in a child.
        for (data, what), verdict in zip(todo, in_child(judge, [d for d, _ in todo], rep.real)):
            rep.steps += 1
            if not W.tiny:
                rep.real_traces += 1
            rep.outcome(verdict)
            if verdict == "ACCEPTED":
                rep.violation(cid, "accepted altered bytes: %s" % what)
        rep.sample(case=cid, alterations=len(todo))

    rep.run((("bytes of " + sid(s), s) for s in ss), fn)


def values(W, rep):
    """Every kind of element that a proof can hold, at its boundaries."""
    def items():
        nums = [0, 1, -1, 127, 128, 255, 256, 2 ** 31, 2 ** 63 - 1, 2 ** 64, -2 ** 64, 2 ** 128 - 1,
                2 ** 128, 2 ** 255, 2 ** 256 - 1, -2 ** 256, 10 ** 100]
        for x in nums:
            yield "number %d" % x, W.bn(x)
        for i in (0, 2, "G1", "G2", "GT"):
            g = W.group(i)
            if W.tiny and i in (0, "G1"):
                for p in W.all_points(i):
                    yield "point %s of %s" % (p.export().hex(), i), p
            else:
                q = W.order(i)
                for k in (0, 1, 2, 3, q - 1, q // 2, 2 ** 64 % q):
                    yield "point %d of %s" % (k, i), W.bn(k) * g.generator() if k else g.infinite()

    def fn(cid, v):
        for wrap in (lambda v: v, lambda v: [v, v], lambda v: {"a": v, "b": [v]},
                     lambda v: [None, [v], []]):
            n = W.NIZK(challenge=W.bn(5), responses=wrap(v), precommitment=wrap(v), stmt_hash=b"\0")
            m = W.NIZK.deserialize(n.serialize())
            rep.steps += 1
            if not W.tiny:
                rep.real_traces += 1
            for f in alter.FIELDS:
                rep.require(alter.same(getattr(n, f), getattr(m, f)), cid, "%s changed" % f,
                            a=getattr(n, f), b=getattr(m, f))
            # the element can be used as before
            p = m.responses
            while not (alter.is_num(p) or alter.is_point(p)):
                p = p["a"] if isinstance(p, dict) else [x for x in p if not (x is None or isinstance(x, list) and not x)][0]
            if alter.is_point(v):
                rep.require(p.group == v.group, cid, "another group")
                rep.require(p + v == v + v, cid, "cannot be used like the original")
                rep.require(W.bn(3) * p == W.bn(3) * v, cid, "multiples differ")
            else:
                rep.require(int(p) == int(v), cid, "another number")
            rep.outcome("same")

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t = ["tiny", dict(q=13, d=3, bits=3, d1=4, d2=1)]
    # large numbers: altered bytes are not accepted by chance
    big = ["tiny", dict(q=2 ** 31 - 1, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    r = ["real", {}]
    for k in gen.EXT_KINDS:
        add(r, "roundtrip", 4 if k in ("rg", "bb") else 1, which=k)
        add(t, "roundtrip", which=k)
        add(big, "corrupt", 2 if k == "rg" else 1, which=k, only=(0, 5))
    add(r, "roundtrip", 2, which="algebra")
    add(t, "roundtrip", which="algebra")
    add(big, "corrupt", 2, which="few")
    add(r, "corrupt", 5, which="few")
    for k in ("ne", "p2", "eg"):
        add(r, "corrupt", which=k, only=(0,), stride=3)
    add(r, "corrupt", which="rg", only=(0,), stride=29)
    add(r, "corrupt", which="bb", only=(0,), stride=37)
    add(t, "values")
    add(r, "values")
    if tier == "thorough":
        for k in gen.EXT_KINDS:
            add(big, "corrupt", 8, which=k)
            add(r, "corrupt", 8, which=k, stride=5)
        add(r, "corrupt", 16, which="algebra")
    return out
