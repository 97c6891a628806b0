"""
Adversaries against statements with precommitments.

Everything is derived from what honest parties send: the messages of an adversary have the shape of an
honest message (taken from a simulated transcript), or a wrong one, with every point of the group and
every number in the places of points and numbers.
"""
import itertools

from mc import alter, seams
from mc.explore import Scripted


def slots(x):
    """The leaf positions of a message."""
    return [(p, v) for p, v in alter.sites(x)
            if not isinstance(v, (list, tuple, dict))]


def fillings(x, points, numbers):
    """All messages of the shape of x."""
    ps = slots(x)
    choices = []
    for _, v in ps:
        if alter.is_num(v):
            choices.append(numbers)
        elif alter.is_point(v):
            choices.append(points)
        else:
            choices.append([v])
    for t in itertools.product(*choices):
        y = x
        for (p, _), v in zip(ps, t):
            y = alter.put(y, p, v)
        yield y


def reshaped(x):
    """Messages of other shapes: every list one shorter, one longer, empty; entries missing; None."""
    for p, v in alter.sites(x):
        if isinstance(v, (list, tuple)):
            mk = tuple if isinstance(v, tuple) else list
            l = list(v)
            for i in range(len(l)):
                yield alter.put(x, p, mk(l[:i] + l[i + 1:]))
            if l:
                yield alter.put(x, p, mk(l + [l[-1]]))
                yield alter.put(x, p, mk(l + [l[-1], l[-1]]))
            yield alter.put(x, p, mk([]))
            yield alter.put(x, p, mk(l + [None]))
        elif isinstance(v, dict):
            for k in v:
                d = dict(v)
                del d[k]
                yield alter.put(x, p, d)
        if p or v is not None:
            yield alter.put(x, p, None)


def response_space(x, numbers, challenges):
    """All responses of the shape of x; a pair of lists is (subchallenges, responses)."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], list) and isinstance(x[1], list) \
            and all(alter.is_num(c) for c in x[0]) and len(x[0]) == len(x[1]):
        rs = [list(response_space(y, numbers, challenges)) for y in x[1]]
        for cs in itertools.product(challenges, repeat=len(x[0])):
            for t in itertools.product(*rs):
                yield (list(cs), list(t))
    elif isinstance(x, (list, tuple)):
        for t in itertools.product(*[list(response_space(y, numbers, challenges)) for y in x]):
            yield list(t)
    elif alter.is_num(x):
        yield from numbers
    else:
        yield x


def key(com):
    from mc.harness import flatten

    return tuple(x.export() if hasattr(x, "export") else repr(x) for x in flatten(com))


def accepts(W, stmt, precommitment):
    """
    A verifier that received the precommitment, or None if it refuses it at any point before it looks
    at responses.  Its validation comes with the final decision, so it is tried here with the answers
    that a simulator gives.
    """
    verifier = stmt.get_verifier()
    verifier.process_precommitment(precommitment)
    return verifier


def answer(W, stmt, precommitment, challenge, responses, com=None):
    """The decision of a fresh interactive run; com None: the only commitment that can fit."""
    try:
        verifier = stmt.get_verifier()
        verifier.process_precommitment(precommitment)
        digest = stmt.prehash_statement().digest()
        if com is None:
            com = stmt.recompute_commitment(W.bn(challenge), responses)
        with seams.use(Scripted([challenge])):
            c = verifier.send_challenge((digest, com))
        if int(c) != challenge:
            return False
        return verifier.verify(responses) is True
    except Exception:
        return False


def valid_precommitment(W, stmt, pre, simulated):
    """
    Can any run with this precommitment be accepted?  Tried with the transcript that a simulator of
    the constructed statement makes: only the validation of the precommitment can fail for it.
    """
    try:
        verifier = stmt.get_verifier()
        verifier.process_precommitment(pre)
        tr = simulated(stmt)
        digest = stmt.prehash_statement().digest()
        with seams.use(Scripted([int(tr.challenge)])):
            c = verifier.send_challenge((digest, tr.commitment))
        return int(c) == int(tr.challenge) and verifier.verify(tr.responses) is True
    except Exception:
        return False


def two_answers(W, stmt, pre, shape, q, challenges, counter=None):
    """
    Special soundness by brute force: is there a first message (with this precommitment) for which the
    verifier accepts answers to two challenges?  Returns the answers or None.
    """
    numbers = [W.bn(i) for i in range(q)]
    chals = [W.bn(c) for c in challenges]
    try:
        verifier = stmt.get_verifier()
        verifier.process_precommitment(pre)
    except Exception:
        return None
    seen = {}
    n = 0
    for c in challenges:
        for r in response_space(shape, numbers, chals):
            n += 1
            try:
                if not verifier.check_responses_consistency(r, {}):
                    continue
                com = stmt.recompute_commitment(W.bn(c), r)
            except Exception:
                continue
            k = key(com)
            d = seen.setdefault(k, {})
            if c not in d and (not d or any(x != c for x in d)):
                d[c] = r
                if len(d) >= 2:
                    good = {x: y for x, y in d.items() if answer(W, stmt, pre, x, y)}
                    if len(good) >= 2:
                        if counter is not None:
                            counter[0] += n
                        return good
    if counter is not None:
        counter[0] += n
    return None


def holds(W, stmt, q):
    """
    The truth of a statement over discrete logarithms, by brute force over its secrets; None if its
    parts cannot be read.
    """
    subs = getattr(stmt, "subproofs", None)
    kind = type(stmt).__name__

    def leaves(s):
        ss = getattr(s, "subproofs", None)
        if ss is None:
            yield s
        else:
            for t in ss:
                yield from leaves(t)

    try:
        ls = list(leaves(stmt))
        data = {}
        names = []
        for l in ls:
            inner = getattr(l, "constructed_stmt", None)
            if inner is not None:
                return None
            vs = [s.name for s in l.get_secret_vars()]
            data[id(l)] = (vs, list(l.get_bases()), l.lhs)
            names += [v for v in vs if v not in names]
    except Exception:
        return None

    def sat(s, a):
        ss = getattr(s, "subproofs", None)
        if ss is None:
            vs, bases, lhs = data[id(s)]
            return lhs.group.wsum([W.bn(a[v]) for v in vs], bases) == lhs
        f = all if "And" in type(s).__name__ else any
        return f(sat(t, a) for t in ss)

    # independent members one by one
    def split(s):
        ss = getattr(s, "subproofs", None)
        if ss is not None and "And" in type(s).__name__:
            parts = [(split(t), {v for l in leaves(t) for v in data[id(l)][0]}, t) for t in ss]
            vars_ = [p[1] for p in parts]
            if all(not (vars_[i] & vars_[j]) for i in range(len(ss)) for j in range(i)):
                return all(split(t) for t in ss)
        vs = sorted({v for l in leaves(s) for v in data[id(l)][0]})
        for t in itertools.product(range(q), repeat=len(vs)):
            if sat(s, dict(zip(vs, t))):
                return True
        return False

    return split(stmt)
