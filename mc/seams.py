"""
Owns every source of randomness that zksk (or a rewrite of it) could use.

After `install()`, draws go to the current Chooser; outside of an exploration (CUR is None) they are
answered by a fixed pseudo-random function, so that every run of a check is deterministic.
"""
import hashlib
import os
import random
import secrets
import sys

CUR = None
_ctr = 0
# development only: other fixed answers, to see that no verdict depends on luck
SALT = os.environ.get("MC_SALT", "").encode()


def _below(n, kind):
    global _ctr
    n = int(n)
    if CUR is not None:
        return CUR.choose(n, kind)
    _ctr += 1
    d = hashlib.sha512(b"env|%d|%d" % (_ctr, n) + SALT).digest()
    d += hashlib.sha512(d).digest()
    return int.from_bytes(d, "big") % n


def _bytes(k):
    global _ctr
    _ctr += 1
    out = b""
    i = 0
    while len(out) < k:
        out += hashlib.sha512(b"bytes|%d|%d" % (_ctr, i) + SALT).digest()
        i += 1
    return out[:k]


def to_bn(x):
    from petlib.bn import Bn

    x = int(x)
    return Bn(x) if abs(x) < 1 << 31 else Bn.from_decimal(str(x))


class use:
    """with use(chooser): ..."""

    def __init__(self, ch):
        self.ch = ch

    def __enter__(self):
        global CUR
        self.old = CUR
        CUR = self.ch
        return self.ch

    def __exit__(self, *a):
        global CUR
        CUR = self.old
        return False


# sizes of the groups and of the challenge space of a tiny world
NUMBERS = set()


def kind_of(n, frame=None):
    """Is a draw below n that of a branch, or that of a number?"""
    if frame is not None and frame.f_code.co_name in ("choice", "shuffle", "sample", "choices"):
        return "branch"
    return "num" if n > 64 or n in NUMBERS else "branch"


def reset():
    global _ctr
    _ctr = 0


def install():
    from petlib.bn import Bn

    def bn_random(self):
        return to_bn(_below(int(self), kind_of(int(self))))

    Bn.random = bn_random

    def randbelow(self, n):
        return _below(n, kind_of(n, sys._getframe(1)))

    def getrandbits(self, k):
        return _below(1 << k, kind_of(1 << k)) if k else 0

    def rnd(self):
        return _below(1 << 53, "branch") / float(1 << 53)

    def randbytes(self, n):
        return _bytes(n)

    for cls in (random.Random, random.SystemRandom):
        cls._randbelow = randbelow
        cls.randbytes = randbytes
    random.SystemRandom.getrandbits = getrandbits
    random.SystemRandom.random = rnd
    # module-level aliases bound to the hidden instance
    random.getrandbits = lambda k: getrandbits(None, k)
    random.random = lambda: rnd(None)
    random.randbytes = _bytes
    random._urandom = _bytes
    os.urandom = _bytes
    secrets.token_bytes = lambda nbytes=None: _bytes(32 if nbytes is None else nbytes)
    secrets.token_hex = lambda nbytes=None: _bytes(32 if nbytes is None else nbytes).hex()
    secrets.randbits = lambda k: getrandbits(None, k)


_names = 0


def reset_names():
    global _names
    _names = 0


def deterministic_names(Secret):
    """
    Secrets without a name get one from a counter instead of from their address in memory, so that
    the iteration order of sets of secrets, hence the order of draws, is the same in every run.
    """
    orig = Secret.__init__

    def init(self, value=None, name=None):
        global _names
        if name is None:
            _names += 1
            name = hashlib.sha256(b"auto|%d" % _names).hexdigest()[:32]
        orig(self, value=value, name=name)

    Secret.__init__ = init
