"""
Concurrent sessions.  Sessions (interactive runs with construction, non-interactive proofs through their
serialization, simulations, runs with a wrong answer, runs against another statement, issuance of
signatures) are cut in steps.  (1) All interleavings of the steps of two sessions, and of three sessions
with coarser steps, in every sharing arrangement: separate objects, the same Secret objects, the same
leaf objects, the same statement objects.  (2) Sessions in threads under a controlled scheduler, which
can switch at every line of the library: all schedules with one preemption, and all with two preemptions
for the smaller sessions.  Every session has a random tape of its own; every message and verdict of every
session must be what it is when the session runs alone.
"""
import itertools
import sys
import threading

from mc import gen, seams, spec as S, world
from mc.checks.p01 import mark
from mc.dist import key
from mc.explore import Chooser
from mc.gen import dl, sid
from mc.harness import HarnessError, quiet, shards

ASSUMPTIONS = ["switches between threads happen between lines of the library (the interpreter can also "
               "switch within a line)", "the wrapped libraries are called by one thread at a time"]

T = {"x": 11, "y": 22, "z": 33, "ax": 2, "ar": 55, "bx": 1, "br": 66, "sig": 1}
T2 = dict(T, x=12, ar=56, z=34)


def spread_for(k):
    return lambda i, n: (5 * i + i // 3 + 2 + 7 * k) % n


class Tape:
    """The environment of one session: its random answers, and its names for secrets."""

    def __init__(self, k):
        self.ch = Chooser(default=spread_for(k), seed=1000 + k)
        self.names = 1000 * (k + 1)

    def enter(self):
        self.old = seams.CUR, seams._names
        seams.CUR, seams._names = self.ch, self.names

    def leave(self):
        self.names = seams._names
        seams.CUR, seams._names = self.old


def outcome(f):
    try:
        return f()
    except Exception as e:
        return ("exception", type(e).__name__)


class Shared:
    """What sessions may have in common."""

    def __init__(self, W, sharing, specs):
        self.W = W
        self.sharing = sharing
        self.truth = T
        seams._names = 0
        self.secrets = {} if sharing in ("secrets", "leaves") else None
        self.vsecrets = {} if sharing in ("secrets", "leaves") else None
        self.builds = {}
        self.stmts = {}
        for s in specs:
            if sharing in ("stmt", "single"):
                for side in ("P", "V"):
                    self.stmts[(side, s)] = self.build(side, s)
                if sharing == "single":
                    self.stmts[("V", s)] = self.stmts[("P", s)]
        if sharing == "leaves":
            self.leaf_p = S.Build(W, T, T.keys(), shared=self.secrets, share_leaves=True)
            self.leaf_v = S.Build(W, T, (), shared=self.vsecrets, share_leaves=True)
            for s in specs:
                for l in S.leaves(s):
                    self.leaf_p.stmt(l)
                    self.leaf_v.stmt(l)

    def build(self, side, s, truth=T):
        W = self.W
        if side == "P":
            B = S.Build(W, truth, truth.keys(), shared=self.secrets if truth is T else None)
        else:
            B = S.Build(W, truth, (), shared=self.vsecrets if truth is T else None)
        return B.stmt(s)

    def stmt(self, side, s):
        if (side, s) in self.stmts:
            return self.stmts[(side, s)]
        if self.sharing == "leaves":
            return (self.leaf_p if side == "P" else self.leaf_v).stmt(s)
        return self.build(side, s)


# -- sessions: lists of steps over a state ------------------------------------------------------
def interactive(sh, s, tamper=None):
    W, st, log = sh.W, {}, []

    def construct():
        st["P"], st["V"] = sh.stmt("P", s), sh.stmt("V", s)
        if tamper == "statement":
            st["V"] = sh.build("V", s, T2)

    def parties():
        st["p"], st["v"] = st["P"].get_prover(), st["V"].get_verifier()

    def pre():
        st["pre"] = st["p"].precommit()
        log.append(key(st["pre"]))

    def process():
        st["v"].process_precommitment(st["pre"])

    def commit():
        st["com"] = st["p"].commit()
        log.append(key(st["com"]))

    def challenge():
        st["c"] = st["v"].send_challenge(st["com"])
        log.append(key(st["c"]))

    def respond():
        st["r"] = st["p"].compute_response(st["c"])
        if tamper == "response":
            st["r"] = bump(W, st["r"])
        log.append(key(st["r"]))

    def verify():
        log.append(st["v"].verify(st["r"]))

    return [construct, parties, pre, process, commit, challenge, respond, verify], log


def bump(W, r):
    """Another first response."""
    if isinstance(r, tuple):
        return (r[0], bump(W, r[1]))
    if isinstance(r, list):
        return [bump(W, r[0])] + r[1:]
    return r + W.bn(1)


def nizk(sh, s, tamper=None):
    W, st, log = sh.W, {}, []

    def construct():
        st["P"], st["V"] = sh.stmt("P", s), sh.stmt("V", s)

    def prove():
        st["z"] = st["P"].prove(message="m")
        log.append((key(st["z"].challenge), key(st["z"].responses), key(st["z"].precommitment),
                    st["z"].stmt_hash))

    def ship():
        raw = st["z"].serialize()
        log.append(raw)
        st["z2"] = W.NIZK.deserialize(raw)

    def verify():
        log.append(st["V"].verify(st["z2"], message="m" if tamper is None else "n"))

    return [construct, prove, ship, verify], log


def simulation(sh, s, tamper=None):
    st, log = {}, []

    def construct():
        st["P"], st["V"] = sh.stmt("P", s), sh.stmt("V", s)

    def simulate():
        tr = st["P"].simulate()
        st["tr"] = tr
        log.append((key(tr.precommitment), key(tr.commitment), key(tr.challenge), key(tr.responses)))

    def verify():
        log.append(st["V"].verify_simulation_consistency(st["tr"]))

    return [construct, simulate, verify], log


def issuance(sh, s, tamper=None):
    """Of a signature, with one key pair for all."""
    W, st, log = sh.W, {}, []
    kp = S.bbs_keypair(W, 3)
    ms = [W.bn(T["ax"]), W.bn(7)]

    def create():
        st["cr"] = W.bbs.BBSPlusSignatureCreator(kp.pk)

    def commit():
        st["com"] = st["cr"].commit(ms, zkp=True)
        log.append((key(st["com"].com_message), key(st["com"].com_nizk_proof.responses)))

    def check():
        log.append(st["com"].verify_blinding(kp.pk))

    def sign():
        st["sig"] = kp.sk.sign(st["com"].com_message)
        log.append((key(st["sig"].A), key(st["sig"].e), key(st["sig"].s)))

    def obtain():
        st["full"] = st["cr"].obtain_signature(st["sig"])
        log.append(key(st["full"].s))

    def verify():
        log.append(st["full"].verify_signature(kp.pk, ms))

    return [create, commit, check, sign, obtain, verify], log


KINDS = {"interactive": interactive, "nizk": nizk, "simulation": simulation, "issuance": issuance}
EXPECT = {None: True, "response": False, "message": False, "statement": ("exception",
                                                                         "StatementMismatch")}


class Session:
    def __init__(self, sh, k, kind, s, tamper, cut=None):
        self.steps, self.log = KINDS[kind](sh, s, tamper)
        if cut:
            # coarser steps
            n = len(self.steps)
            bounds = [round(i * n / cut) for i in range(cut + 1)]
            parts = [self.steps[a:b] for a, b in zip(bounds, bounds[1:]) if b > a]
            self.steps = [lambda p=p: [f() for f in p] and None for p in parts]
        self.tape = Tape(k)
        self.dead = False

    def step(self, i):
        if self.dead:
            return
        self.tape.enter()
        try:
            self.steps[i]()
        except Exception as e:
            self.log.append(("exception", type(e).__name__))
            self.dead = True
        finally:
            self.tape.leave()

    def all(self):
        for i in range(len(self.steps)):
            self.step(i)


def interleavings(ns):
    if all(n == 0 for n in ns):
        yield ()
        return
    for i, n in enumerate(ns):
        if n:
            for rest in interleavings(ns[:i] + (n - 1,) + ns[i + 1:]):
                yield (i,) + rest


def alone(W, sharing, cfg, k, cut=None):
    """The log of session k when the others do not exist (its statements are the same objects)."""
    with quiet():
        sh = Shared(W, sharing, [c[1] for c in cfg if c[1]])
        ss = Session(sh, k, *cfg[k], cut=cut)
        ss.all()
    return ss.log


def expected(rep, cid, cfg, logs):
    for (kind, s, tamper), log in zip(cfg, logs):
        want = EXPECT[tamper]
        # a wrong answer for a secret that occurs twice is reported as inconsistent
        if tamper == "response" and log[-1:] == [("exception", "ValidationError")]:
            continue
        if not rep.require(log[-1:] == [want], cid, "alone, a session (%s %s) ends with %r instead of "
                           "%r" % (kind, tamper, log[-1:], want)):
            return False
    return True


def configs(which):
    x, y, xh, yh, z = (dl(("x", "g")), dl(("y", "g")), dl(("x", "h")), dl(("y", "h")),
                       dl(("z", "h"), ("x", "g")))
    A, O, AO = ("and", x, yh), ("or", x, yh), ("and", ("or", x, xh), yh)
    I, N, M = "interactive", "nizk", "simulation"
    if which == "same":
        # for every sharing arrangement
        return [[(I, s, None), (I, s, None)] for s in (x, A, O, AO)] + \
            [[(I, s, None), (k, s, t)] for s in (A, O) for k, t in
             ((N, None), (M, None), (I, "response"), (N, "message"), (I, "statement"))] + \
            [[(N, s, None), (N, s, "message")] for s in (x, O)] + [[(M, O, None), (M, O, None)]]
    if which == "other":
        return [[(I, a, None), (I, b, None)] for a, b in ((x, A), (A, O), (O, AO), (z, x))] + \
            [[(I, A, None), (N, O, None)], [(I, O, "response"), (I, A, None)]]
    if which == "issuance":
        return [[("issuance", None, None), ("issuance", None, None)],
                [("issuance", None, None), (N, ("bb", ("ax",)), None)]]
    if which in gen.EXT_KINDS:
        E = gen.ext_leaf(which, "a")
        C = ("and", E, dl(("z", "h")))
        D = ("or", E, dl(("z", "h")))
        return [[(I, E, None), (I, E, None)], [(I, C, None), (N, E, None)], [(I, D, None), (M, E, None)],
                [(I, D, None), (I, E, "response")]]
    raise ValueError(which)


def applicable(cfg, sharing):
    """Statement objects of primitives with a precommitment are not shared by concurrent sessions."""
    return sharing != "leaves" or not any(
        c[1] and c[1][0] in ("ne", "p2", "rg", "bb", "eg") for c in cfg)


def name(cfg):
    return " || ".join("%s%s %s" % (k, "" if t is None else " with another %s" % t, sid(s) if s else "")
                       for k, s, t in cfg)


def steps(W, rep, which, sharings, sessions=2, cut=None, only=None):
    def items():
        for cfg in configs(which)[slice(*(only or (None,)))]:
            if sessions == 3:
                cfg = cfg + [cfg[0]]
            for sharing in sharings:
                if not applicable(cfg, sharing):
                    continue
                yield "steps of %s, %s objects" % (name(cfg), sharing), (cfg, sharing)

    def fn(cid, item):
        cfg, sharing = item
        ref = [alone(W, sharing, cfg, k, cut) for k in range(len(cfg))]
        if not expected(rep, cid, cfg, ref):
            return
        ns = None
        count = 0
        with quiet():
            sh0 = Shared(W, sharing, [c[1] for c in cfg if c[1]])
            ns = tuple(len(Session(sh0, k, *c, cut=cut).steps) for k, c in enumerate(cfg))
            for order in interleavings(ns):
                sh = Shared(W, sharing, [c[1] for c in cfg if c[1]])
                ss = [Session(sh, k, *c, cut=cut) for k, c in enumerate(cfg)]
                at = [0] * len(ss)
                for i in order:
                    ss[i].step(at[i])
                    at[i] += 1
                count += 1
                rep.steps += len(order)
                for k, (s, want) in enumerate(zip(ss, ref)):
                    if s.log != want:
                        bad = [i for i, (a, b) in enumerate(zip(s.log + [None] * 20, want)) if a != b]
                        return rep.violation(
                            cid, "session %d is disturbed: its message %s differs from when it runs "
                            "alone" % (k, bad[:1]), schedule=list(order), got=s.log[-1:],
                            alone=want[-1:])
        rep.outcome("undisturbed", count)
        rep.stats.executions += count
        rep.stats.nodes += count
        if not W.tiny:
            rep.real_traces += count

    rep.run(items(), fn)


# -- threads -------------------------------------------------------------------------------------
class Scheduler:
    """Runs sessions in threads, one at a time; switches when the running one reaches a point."""

    def __init__(self, sessions, points, gran):
        self.sessions = sessions
        self.points = list(points)  # event counts of the running thread at which it is preempted
        self.gran = gran
        self.count = [0] * len(sessions)
        self.done = [False] * len(sessions)
        self.go = [threading.Semaphore(0) for _ in sessions]
        self.end = threading.Semaphore(0)
        self.prefix = world.REPO + "/zksk"
        self.errors = []
        self.switches = 0

    def event(self, k):
        self.count[k] += 1
        if self.points and self.count[k] >= self.points[0]:
            self.points.pop(0)
            o = 1 - k
            if not self.done[o]:
                self.switches += 1
                self.hand(k, o)
                self.go[k].acquire()
                self.sessions[k].tape.enter()

    def hand(self, k, o):
        if k is not None:
            self.sessions[k].tape.leave()
        self.go[o].release()

    def trace(self, k):
        def local(frame, event, arg):
            if event == "line" and self.gran == "line":
                self.event(k)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.prefix):
                if self.gran == "call":
                    self.event(k)
                    return None
                return local
            return None

        return glob

    def body(self, k):
        s = self.sessions[k]
        self.go[k].acquire()
        s.tape.enter()
        sys.settrace(self.trace(k))
        try:
            for f in s.steps:
                f()
        except Exception as e:
            s.log.append(("exception", type(e).__name__))
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            s.tape.leave()
            self.done[k] = True
            o = 1 - k
            if not self.done[o]:
                self.go[o].release()
            else:
                self.end.release()

    def run(self, first):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True)
              for k in range(len(self.sessions))]
        for t in ts:
            t.start()
        self.go[first].release()
        if not self.end.acquire(timeout=60):
            raise HarnessError("the threads do not end")
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0]


def threads(W, rep, which, sharings, preemptions=1, gran="line", only=None):
    def items():
        for cfg in configs(which)[slice(*(only or (None,)))]:
            for sharing in sharings:
                if not applicable(cfg, sharing):
                    continue
                if sharing in ("stmt", "single") and any(c[0] == "simulation" for c in cfg):
                    # while it is simulated, a statement object is marked as such
                    continue
                yield "%d preemptions at %ss of %s, %s objects" % (preemptions, gran, name(cfg),
                                                                   sharing), (cfg, sharing)

    def fn(cid, item):
        cfg, sharing = item
        ref = [alone(W, sharing, cfg, k) for k in range(2)]
        if not expected(rep, cid, cfg, ref):
            return

        def run(first, points):
            with quiet():
                sh = Shared(W, sharing, [c[1] for c in cfg if c[1]])
                ss = [Session(sh, k, *c) for k, c in enumerate(cfg)]
                sch = Scheduler(ss, points, gran)
                sch.run(first)
            rep.stats.executions += 1
            rep.stats.nodes += 1
            rep.steps += sum(sch.count)
            if not W.tiny:
                rep.real_traces += 1
            for k in range(2):
                if ss[k].log != ref[k]:
                    rep.violation(cid, "session %d is disturbed by a thread switch" % k,
                                  schedule=[first] + list(points), got=ss[k].log[-1:],
                                  alone=ref[k][-1:])
                    return None
            return sch

        total = 0
        for first in (0, 1):
            base = run(first, ())
            if base is None:
                return
            n = list(base.count)
            for i in range(1, n[first] + 1):
                seconds = [()] if preemptions == 1 else [(j,) for j in range(1, n[1 - first] + 1)]
                for sec in seconds:
                    if run(first, (i,) + sec) is None:
                        return
                    total += 1
        rep.outcome("undisturbed", total)
        rep.sample(case=cid, schedules=total, events=n)

    rep.run(items(), fn)


def jobs(tier):
    out = []

    def add(world, fn, cut_=1, **params):
        out.extend(shards(cut_, world=world, fn=fn, params=params))

    t = ["tiny", dict(q=2 ** 31 - 1, d=6, bits=30, q2=2 ** 31 - 19, bpq=2 ** 31 - 61, d1=6)]
    r = ["real", {}]
    every = ["separate", "secrets", "leaves", "stmt", "single"]
    apart = ["separate", "secrets", "leaves"]
    add(t, "steps", 6, which="same", sharings=every, cut=6)
    add(t, "steps", 2, which="other", sharings=every, cut=6)
    add(t, "steps", 3, which="same", sharings=["leaves", "single"], sessions=3, cut=3)
    add(t, "steps", which="issuance", sharings=["separate"])
    add(t, "threads", 6, which="same", sharings=["single"])
    add(t, "threads", 2, which="same", sharings=["leaves"], only=[0, 4])
    add(t, "threads", 2, which="other", sharings=["leaves"])
    add(t, "threads", which="issuance", sharings=["separate"], only=[0, 1])
    add(t, "threads", 2, which="same", sharings=["secrets", "single"], preemptions=2, gran="call",
        only=[0, 1])
    add(r, "steps", which="same", sharings=["leaves", "single"], cut=4)
    add(r, "threads", which="same", sharings=["single"], gran="call", only=[0, 3])
    for k in gen.EXT_KINDS:
        add(t, "steps", 3, which=k, sharings=apart, cut=5)
        if k != "rg":
            add(t, "threads", 2, which=k, sharings=["secrets"], gran="call",
                only=[0, 2] if k in ("p2", "bb") else None)
        add(r, "steps", which=k, sharings=["leaves"], cut=3, only=[0, 2])
    if tier == "thorough":
        add(t, "steps", 8, which="same", sharings=every)
        add(t, "steps", 8, which="other", sharings=every)
        add(t, "steps", 8, which="same", sharings=every, sessions=3, cut=4)
        add(t, "threads", 8, which="same", sharings=every)
        add(t, "threads", 8, which="other", sharings=every)
        add(t, "threads", 8, which="same", sharings=every, preemptions=2, gran="call")
        add(t, "threads", 8, which="same", sharings=["single"], preemptions=2, only=[0, 3])
        for k in gen.EXT_KINDS:
            add(t, "steps", 8, which=k, sharings=apart)
            add(t, "threads", 8, which=k, sharings=apart)
            add(r, "steps", 4, which=k, sharings=apart, cut=4)
            add(r, "threads", 4, which=k, sharings=["leaves"], gran="call")
    return out
