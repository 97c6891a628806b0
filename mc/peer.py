"""
Another process: makes or checks proofs of the given statements with its own addresses, hash seed and
names of secrets.  stdin: pickled request; stdout: pickled answer (bytes, numbers and tuples only).
"""
import pickle
import sys


def keys_out(W):
    """Public keys and signatures of the fixtures, as bytes."""
    from mc import spec as S
    from petlib.pack import encode

    out = {}
    for k, v in S._BBS.items():
        if k[1] == "sig":
            kp, sig = v
            out[k[2]] = encode([kp.pk.w, kp.pk.h0, list(kp.pk.generators), sig.A, sig.e, sig.s])
    return out


class _KP:
    pass


def keys_in(W, keys):
    from mc import spec as S
    from petlib.pack import decode

    for msgs, data in keys.items():
        w, h0, gens, A, e, s = decode(data)
        kp = _KP()
        kp.pk = W.bbs.BBSPlusPublicKey(w=w, h0=h0, generators=gens)
        S._BBS[(id(W), "sig", msgs)] = (kp, W.bbs.BBSPlusSignature(A=A, e=e, s=s))


def serve(req):
    from mc import seams, spec as S, world
    from mc.harness import quiet

    kind, kw = req["world"]
    # addresses and import-time state that differ from those of the other process
    ballast = [object() for _ in range(1000 + 37 * req.get("ballast", 0))]
    W = world.make(kind, auto_names=True, **kw)
    if req["mode"] == "verify":
        keys_in(W, req["keys"])
    junk = [W.Secret() for _ in range(req.get("ballast", 0))]
    out = []
    for item in req["items"]:
        spec, T, named, message = item["spec"], item["truth"], item["named"], item["message"]
        try:
            with quiet(), seams.use(None):
                if req["mode"] == "prove":
                    for attempt in range(6):
                        st = S.Build(W, T, T.keys(), named=named).stmt(spec)
                        nizk = st.prove(message=message)
                        raw = nizk.serialize()
                        try:
                            ok = st.verify(nizk, message=message) is True
                        except Exception:
                            ok = False
                        if ok or kind == "real":
                            break
                    out.append(("proof", raw))
                else:
                    vs = list(S.variables(spec))
                    shared = {}
                    if item.get("reverse"):
                        vs.reverse()
                    for v in vs:
                        if v != "sig":
                            shared[v] = W.Secret(name="name-" + v if named else None)
                    st = S.Build(W, T, (), shared=shared).stmt(spec)
                    nizk = W.NIZK.deserialize(item["proof"])
                    out.append(("result", st.verify(nizk, message=message) is True))
        except Exception as e:
            out.append(("exception", "%s: %s" % (type(e).__name__, e)))
    return {"out": out, "keys": keys_out(W)}


def call(req, hashseed):
    """Run a request in a process of its own."""
    import os
    import subprocess

    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-B", "-m", "mc.peer"], input=pickle.dumps(req), env=env,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        from mc.harness import HarnessError

        raise HarnessError("peer failed: %s" % p.stderr.decode()[-2000:])
    return pickle.loads(p.stdout)


if __name__ == "__main__":
    data = sys.stdin.buffer.read()
    answer = serve(pickle.loads(data))
    sys.stdout.buffer.write(pickle.dumps(answer))
    sys.stdout.buffer.flush()
