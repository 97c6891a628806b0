"""Writes properties.jsonl and MANIFEST.json (the checks whose module exists are claimed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

B, C, X, E = "zksk/base.py", "zksk/composition.py", "zksk/extended.py", "zksk/expr.py"
D, N, R, BB = ("zksk/primitives/dlrep.py", "zksk/primitives/dl_notequal.py",
               "zksk/primitives/rangeproof.py", "zksk/primitives/bbsplus.py")
P, U, G, K = ("zksk/pairings.py", "zksk/utils/debug.py", "zksk/utils/groups.py", "zksk/consts.py")


def m(name, where):
    return {"name": name, "where": where}


PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique, level_note):
    PROPS.append((
        {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": mech}},
        technique, level_note))


TINY = ("Real zksk code runs on stand-ins for the curve and pairing libraries with groups small "
        "enough to enumerate; the same cases are repeated on the real libraries. Trusts the "
        "stand-ins (bound by those repetitions), CPython, petlib.bn and the reference model. ")

prop("P01", "Honest non-interactive proofs are accepted",
     "Whenever a prover knows true values of the secrets of a supported statement (for a "
     "disjunction: of at least one branch), the non-interactive proof it makes is accepted by an "
     "independent verifier that built the same statement from public values only. This holds for "
     "every way to nest conjunctions and disjunctions of all provided primitives, every way to "
     "supply the values, and every random choice made on the way (negligible-probability draws "
     "aside).",
     ["programs", "inputs", "configurations"],
     "all statement trees, knowledge sets, secret values, ways to supply values, or-branch draws",
     "Tests fix a few dozen statements and take whatever randomness comes up; the guarantee is over "
     "all compositions, partial knowledge and branch draws.",
     [B, C, X, D, N, R, BB, E],
     [m("non-interactive proof", B + ": Prover.get_nizk_proof, Verifier.verify_nizk"),
      m("composition", C + ": OrProver, AndProver, OrProofStmt.get_prover"),
      m("primitives", "zksk/primitives/*.py")],
     "bounded exhaustive enumeration of statement programs and of all or-branch draws (replay DFS) "
     "on the real code over tiny groups, repeated on the real libraries",
     TINY + "Exhaustive up to 4 leaves of the discrete-log algebra and fixed contexts for the other "
     "primitives; larger shapes by family.")

prop("P02", "Honest interactive runs are accepted",
     "When prover and verifier hold separately built copies of the same supported statement and the "
     "prover knows true secrets that suffice, the interactive run (precommitment, commitment, "
     "challenge, response, decision) ends with the verifier accepting. This holds for every "
     "composition, for every challenge the verifier may draw, and both message by message and "
     "through the provided protocol helper. A caller who commits with a dictionary of randomizers "
     "fixes exactly those of the secrets in it; the others are drawn uniformly.",
     ["programs", "inputs", "configurations"],
     "all statement trees, knowledge sets, challenges, or-branch draws",
     "Tests run one random challenge per statement on a handful of statements; extended primitives "
     "inside compositions are mostly untested interactively.",
     [B, C, X, D, U],
     [m("verifier steps", B + ": Verifier.send_challenge, Verifier.verify"),
      m("and/or verifiers", C + ": AndVerifier, OrVerifier"),
      m("extended verifier", X + ": ExtendedVerifier"), m("helper", U + ": SigmaProtocol")],
     "bounded exhaustive enumeration of statement programs, challenges and branch draws on the real "
     "code over tiny groups, repeated on the real libraries",
     TINY + "Same bounds as P01, all challenges of the tiny challenge space.")

prop("P03", "No one can answer two challenges for a false statement",
     "For a false statement and any fixed first message, at most one challenge of the verifier can "
     "be answered so that it accepts, whatever messages a cheating prover sends (including "
     "malformed, missing, surplus or out-of-range elements). The verifier's challenge is drawn "
     "uniformly from the full 128-bit challenge space after it received the first message, so a "
     "false statement is accepted with probability at most 2^-128.",
     ["inputs", "programs"],
     "all statements over the algebra that are false, all first messages, all challenges, all "
     "responses",
     "Tests try one wrong secret at a time; soundness is a statement about every possible adversary "
     "message.",
     [B, C, D, X, R, N, K, "zksk/utils/groups.py"],
     [m("sum constraint", C + ": OrProofStmt.recompute_commitment, _find_residual_challenge"),
      m("verification equation", D + ": DLRep.recompute_commitment"),
      m("consistency of responses", C + ": AndVerifier.check_responses_consistency"),
      m("challenge draw", B + ": Verifier.send_challenge")],
     "exhaustive enumeration of all adversary messages against the real verifier over vector-space "
     "groups in which truth is decided by brute force",
     TINY + "Complete over all challenges and responses for groups of order 2 and 3 and statements "
     "of up to 3 leaves.")

prop("P04", "Altered proofs are rejected",
     "A verifier accepts no proof obtained from a valid one by changing, adding, dropping, "
     "duplicating or exchanging any challenge, response, subchallenge, precommitment element or "
     "statement hash, except when the altered value is the same number modulo the group order. "
     "Rejection shows as a negative result or an exception, never as acceptance.",
     ["inputs", "fault_sequences"],
     "all single-site alterations (and selected pairs) of proofs of all statement kinds",
     "Tests alter one or two fields of one proof; any position of any composed proof could be the "
     "one that is not checked.",
     [B, C, D, X, R, N, BB],
     [m("recomputed challenge", B + ": Verifier.verify_nizk"),
      m("structure checks", C + ": AndProofStmt.recompute_commitment, OrProofStmt.recompute_commitment"),
      m("statement hash", C + ": ComposableProofStmt.check_statement")],
     "exhaustive fault injection: every alteration of every position of proofs of all enumerated "
     "statements, judged by the real verifier",
     TINY + "Every position, every alteration of a fixed alphabet.")

prop("P05", "A proof is valid only for its statement and its message",
     "A proof made for one statement and message is rejected when checked against a statement that "
     "differs in any public value, base, order or sharing of secrets, structure or bound, or with "
     "any different message; it stays valid when only the names of secrets, or the objects used to "
     "express the same statement, differ. The challenge of a non-interactive proof depends on the "
     "whole statement, every precommitment, every commitment and the message.",
     ["programs", "inputs"],
     "all pairs of statements and messages of the enumerated alphabet",
     "Tests compare two or three statements; binding is a property of all pairs.",
     [B, C, X, D, E, P],
     [m("statement id", C + ": get_proof_id, _assign_secret_ids, prehash_statement"),
      m("challenge hash", B + ": build_fiat_shamir_challenge"),
      m("representation of points", P + ": G1Point, G2Point, GTPoint __repr__")],
     "exhaustive enumeration of pairs of statement programs and messages against a canonical-form "
     "reference model",
     TINY + "All ordered pairs of the enumerated statements.")

prop("P06", "Simulated transcripts are valid and distributed like real ones",
     "For every statement and every challenge, the simulator needs no secrets, produces a "
     "transcript that satisfies the verification equation for that challenge, and its transcripts "
     "have exactly the same distribution as those of honest runs with that challenge. In "
     "particular a transcript reveals nothing about the secrets beyond the truth of the statement. "
     "Responses and challenges that a caller enforces are the ones of the simulation.",
     ["inputs", "programs"],
     "all random choices of prover and simulator, all challenges, all secret values",
     "Equality of distributions cannot be seen from single runs; tests only check that simulated "
     "transcripts verify.",
     [B, C, D, X, N, R, BB],
     [m("simulators", "simulate_proof, simulate, simulate_precommit in " + C + ", " + X + ", " + D),
      m("randomizers", C + ": update_randomizers; " + D + ": get_randomizers")],
     "exhaustive enumeration of all random choices of prover and simulator over tiny groups; exact "
     "comparison of the transcript distributions",
     TINY + "Exact (rational) distributions for q = 2..5; perfect hiding is only claimed where the "
     "protocol has it.")

prop("P07", "A disjunction hides its true branch and never invents one",
     "Which branches of a disjunction the prover could prove, and which it did prove, cannot be told "
     "from the proof: transcripts have the same distribution for every choice of known branches and "
     "values. The real branch is drawn uniformly among exactly those that can be proven and are not "
     "marked as to be simulated, and without any such branch no proof comes out.",
     ["programs", "inputs", "configurations"],
     "all disjunctions with up to 4 branches, all knowledge and marking patterns, all draws",
     "Tests see one proof at a time; hiding is a property of the distribution and of every knowledge "
     "pattern.",
     [C],
     [m("branch draw", C + ": OrProofStmt.get_prover"), m("simulation of the rest", C + ": OrProver"),
      m("residual challenge", C + ": _find_residual_challenge")],
     "exhaustive enumeration of knowledge patterns, draws and randomness over tiny groups; exact "
     "comparison of transcript distributions",
     TINY + "Exact distributions for small disjunctions, all draws for up to 4 branches.")

prop("P08", "Serialized proofs survive the trip to another process",
     "Serializing and deserializing a non-interactive proof gives back the same contents (sequences "
     "may come back as lists), which verify exactly when the original does, and a verifier in another process (other memory addresses, "
     "other hash seed, other creation order of secrets) accepts it. Bytes that are not a serialized "
     "proof never turn into an accepted proof.",
     ["inputs", "programs", "configurations"],
     "all proofs of the enumerated statements, several processes, alterations of the bytes",
     "Tests round-trip a few proofs inside one process, where addresses and interned objects are "
     "shared.",
     [B, P, C],
     [m("codec", B + ": NIZK.serialize, NIZK.deserialize"),
      m("pairing codecs", P + ": register_coders, *_to_bytes")],
     "exhaustive enumeration of statement kinds across process configurations; conformance of "
     "proof bytes in separate interpreters",
     TINY + "Every statement kind and context, several hash seeds, every truncation and a fixed "
     "alphabet of byte alterations.")

prop("P09", "Range proofs accept exactly the values inside the range",
     "For every bound a < b and committed value v, an honest range proof is accepted when a <= v < b, "
     "and no accepted proof exists for a commitment whose value lies outside, whatever "
     "precommitment the prover sends; the same holds for power-of-two ranges. Widths of one and two, "
     "negative bounds and bounds that are not powers of two are included.",
     ["inputs"],
     "all bounds and values of a small domain, all precommitments of an adversary",
     "Tests use a few fixed ranges; off-by-one errors and missing checks sit at the boundaries of "
     "all of them.",
     [R],
     [m("bit decomposition", R + ": PowerTwoRangeStmt.precommit, construct_stmt"),
      m("validation", R + ": PowerTwoRangeStmt.validate"),
      m("shifted bounds", R + ": GenericRangeStmtMaker")],
     "exhaustive enumeration of bounds, values and adversarial precommitments against the real "
     "statement over a binding tiny group",
     TINY + "All bounds in a window, all values of the group, all precommitments of the tiny group.")

prop("P10", "Inequality proofs accept exactly unequal logarithms",
     "A proof that the first logarithm is known and the second differs is accepted for every pair of "
     "unequal logarithms, cannot be made or accepted when they are equal (whatever precommitment the "
     "prover sends), and in its binding form ties the secret to the rest of the statement. The "
     "neutral element is never accepted as precommitment.",
     ["inputs"],
     "all values of both logarithms, all precommitments, challenges and responses",
     "Tests check one equal and one unequal pair.",
     [N],
     [m("blinded difference", N + ": DLNotEqual.precommit, construct_stmt"),
      m("validation", N + ": DLNotEqual.validate")],
     "exhaustive enumeration of logarithms, precommitments and adversary messages over tiny groups",
     TINY + "Complete for groups of order 3..7.")

prop("P11", "BBS+ issuance yields signatures valid for exactly the signed messages",
     "For every list of messages that fits the key, with or without a blinded commitment, the "
     "signature obtained from an honest issuer verifies under its key for exactly these messages in "
     "this order, and for no other messages (up to trailing zeros and multiples of the group "
     "order), key or altered signature. The issuer accepts a blinded commitment only with a proof of "
     "knowledge for that very commitment.",
     ["inputs", "histories"],
     "all message vectors and orders of issuance steps of a small domain",
     "Tests issue one or two signatures on fixed messages.",
     [BB, P],
     [m("issuance", BB + ": BBSPlusSignatureCreator, BBSPlusSecretKey.sign"),
      m("verification", BB + ": BBSPlusSignature.verify_signature"),
      m("blinding proof", BB + ": UserCommitmentMessage.verify_blinding")],
     "exhaustive enumeration of message vectors, alterations and issuance histories over a tiny "
     "pairing, repeated on the real pairing",
     TINY + "All message vectors over a small alphabet; independence of generators is modelled by a "
     "vector-space pairing.")

prop("P12", "Proofs of possession need a signature on the claimed messages",
     "A proof of possession of a signature is accepted when the prover holds a signature on the "
     "secrets it names, alone or composed with other statements about the same secrets. For every "
     "precommitment an adversary may send, answering two challenges implies knowing a valid "
     "signature on the claimed messages; a signature on other messages or by another key does not "
     "do.",
     ["inputs", "programs"],
     "all precommitments, signatures, messages of a small domain",
     "Tests show one valid proof; soundness is over all precommitments and responses.",
     [BB],
     [m("statement of possession", BB + ": BBSPlusSignatureStmt.construct_stmt"),
      m("precommitment", BB + ": BBSPlusSignatureStmt.precommit")],
     "exhaustive enumeration of precommitments and witnesses of the constructed statement over a "
     "tiny pairing, with a brute-force signature check as oracle",
     TINY + "Complete over the precommitments and representations of a tiny vector-space pairing.")

prop("P13", "A shared secret is the same everywhere, or the composition is refused",
     "Using one secret at several places of a conjunction proves that the same value stands at all "
     "of them, and a proof with different values is never accepted. Compositions for which this "
     "cannot be guaranteed (a secret both inside and outside a disjunction of the same conjunction, "
     "or under bases of different group orders) are refused by prover and verifier alike, and all "
     "others are not.",
     ["programs", "inputs"],
     "all statement trees with sharing patterns of secrets, group assignments, named or unnamed "
     "secrets",
     "Tests try a few sharing patterns; nested conjunctions and disjunctions multiply the ways to "
     "share.",
     [C, D],
     [m("consistency check", D + ": DLRepVerifier.check_responses_consistency; " + C +
        ": AndVerifier.check_responses_consistency"),
      m("composition rules", C + ": validate_secrets_reoccurence, validate_group_orders"),
      m("common randomizers", C + ": AndProver.internal_commit")],
     "exhaustive enumeration of sharing patterns against a reference model of supported compositions",
     TINY + "All trees up to 4 leaves with all sharing patterns.")

prop("P14", "Expressions mean the sum they spell, and combining never changes operands",
     "An expression denotes the sum of its terms in the order written: its value, secrets and bases "
     "agree with the terms whatever way it was put together, and a statement refuses a left-hand "
     "side or bases it cannot handle. Building expressions and statements leaves the expressions, "
     "statements and secrets used as operands unchanged, so that they can be reused.",
     ["programs", "histories"],
     "all ways to associate sums of up to 5 terms, all orders of reuse",
     "Tests evaluate single expressions; aliasing shows only when parts are reused.",
     [E, C, D],
     [m("sums", E + ": Expression.__add__, eval, wsum_secrets"),
      m("copies", C + ": AndProofStmt.__init__, OrProofStmt.__init__, __and__, __or__")],
     "exhaustive enumeration of construction orders with sharing, against a list-of-terms reference "
     "model",
     TINY + "All associations and reuse patterns up to the stated depth.")

prop("P15", "Results do not depend on what was done with the objects before",
     "Proving, simulating, verifying and running interactively can be repeated and mixed in any "
     "order on the same statement object, copies of it and compositions containing it: every honest "
     "proof is still accepted, every invalid one still rejected, and no operation makes a later one "
     "fail or change its meaning.",
     ["histories"],
     "all sequences of operations up to a depth on shared objects",
     "Tests call one operation per object; leftover state shows only in sequences.",
     [B, C, X, D, N, R, BB],
     [m("state on statements", X + ": _precommitment, _constructed_stmt; " + C +
        ": chosen_idx, _simulated; " + D + ": secret_values"),
      m("restored flags", C + ": ComposableProofStmt.simulate")],
     "exhaustive exploration of operation sequences on shared objects against a stateless reference",
     TINY + "All operation sequences up to depth 3-4 over the operation alphabet for each statement "
     "kind.")

prop("P16", "Concurrent sessions do not disturb each other",
     "Sessions of different provers and verifiers may interleave in any way, in one thread or "
     "several, on separate statement objects (their secrets may be shared), and provers and verifiers "
     "of one precommitment-free statement object may also be interleaved with each other: each session ends as it would have "
     "alone, and no session learns or reuses another's randomness.",
     ["schedules"],
     "all interleavings of the protocol steps of two or three sessions, thread switches at every "
     "line up to a preemption bound",
     "Tests run one session at a time.",
     [B, C, D, X],
     [m("per-session objects", B + ": Prover, Verifier; " + C + ": AndProver, OrProver, OrVerifier"),
      m("challenge state", B + ": Verifier.send_challenge")],
     "exhaustive interleaving of protocol steps, and of threads under a controlled scheduler with a "
     "preemption bound, on the real code",
     TINY + "All step interleavings of two sessions; threads with up to two preemptions at line "
     "granularity.")

prop("P17", "Pairing groups behave as groups and the pairing is bilinear",
     "The wrapped pairing groups obey the group laws (sums, negation, multiples by any integer "
     "including zero and negative ones, weighted sums), the pairing is bilinear, equality "
     "follows the group element and its group, and encoding then decoding gives back an "
     "equal element. Operations on elements of different kinds are refused.",
     ["inputs"],
     "all elements of a small set and all scalars of a small window in each of the three groups",
     "Tests check a few identities on random points.",
     [P],
     [m("wrappers", P + ": G1Point, G2Point, GTPoint, BilinearGroupPair"),
      m("codecs", P + ": pt_enc, pt_dec, register_coders")],
     "exhaustive enumeration of operations on all small multiples of the generators against integer "
     "arithmetic on the exponents",
     "Runs on the real pairing library as well as on the stand-in; all pairs in a window of "
     "exponents.")

prop("P18", "Every proof uses fresh, independent, uniform randomness",
     "Every proof, commitment, simulation and blinding draws fresh randomness over the whole range: "
     "no two secrets, occurrences or runs share it unless they stand for the same secret in the "
     "same conjunction. No response, precommitment or commitment can therefore be combined with "
     "another to solve for a secret.",
     ["histories", "inputs"],
     "all pairs of runs and occurrences, all random choices",
     "A repeated or biased nonce is invisible to tests that only check acceptance.",
     [C, D, N, R, BB, G],
     [m("randomizers", D + ": get_randomizers; " + C + ": AndProofStmt.get_randomizers"),
      m("internal secrets", X + ": renew_internal_secrets"),
      m("draws", "zksk/utils/groups.py: get_random_num")],
     "exhaustive enumeration of random choices of two runs over tiny groups; exact joint "
     "distribution of what an observer sees",
     TINY + "Exact joint distributions for pairs of runs over q = 3, 5.")

prop("P19", "User-defined primitives compose like the provided ones",
     "A primitive defined by overriding the documented extension points (with or without "
     "precommitment, validation and simulation) can be proven and verified alone and inside any "
     "composition, interactively and not, its validation is always enforced by the verifier, and "
     "its precommitment is bound to the proof. Missing parts are reported as errors, never skipped "
     "silently.",
     ["programs", "configurations"],
     "all combinations of overridden extension points, all contexts",
     "Tests define two primitives and use each in one context.",
     [X, C],
     [m("extension points", X + ": ExtendedProofStmt.construct_stmt, precommit, simulate_precommit, "
        "validate"),
      m("delegation", X + ": ExtendedProver, ExtendedVerifier")],
     "exhaustive enumeration of extension-point subsets and contexts on the real code",
     TINY + "All subsets of extension points in all enumerated contexts.")

prop("P20", "Public parameters are shared and distinct, helper arithmetic is exact",
     "Generators are valid, non-neutral, pairwise different points of the group asked for; with a "
     "seed (the default included) they are the same at every call and in every process and a longer "
     "list begins with the shorter one; without a seed they are different every time. The parts of a "
     "BBS+ key pair agree with each other; modular sums and number conversions are exact for every "
     "sign and size. No two unnamed secrets that exist at a time are taken for the same secret.",
     ["inputs", "histories", "configurations"],
     "all curves of the library, numbers of generators, seeds, hash sizes and processes of a window; "
     "all short lists and moduli; all programs of creating and dropping secrets up to a depth",
     "Tests look at one list of generators and one sum; that a colliding or unstable parameter "
     "appears for some seed, length or process cannot be seen from them.",
     [G, BB, E, "zksk/utils/misc.py", K],
     [m("generators", G + ": get_random_point, make_generators"),
      m("arithmetic", G + ": sum_bn_array, ensure_bn"),
      m("key generation", BB + ": BBSPlusKeypair.generate, BBSPlusPublicKey"),
      m("names", E + ": Secret._generate_unique_name")],
     "exhaustive enumeration of parameter windows, of creation histories and of processes on the "
     "real code",
     "Real code and real libraries (key pairs also over tiny pairings). Trusts hashing to a point not "
     "to collide.")

HEAD = "/opt/venv/bin/python -B -m mc.check "


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note in PROPS:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid, "quick_cmd": HEAD + pid + " --tier quick",
                "thorough_cmd": HEAD + pid + " --tier thorough",
                "technique": "model checking: " + tech, "level": "model_checking",
                "level_note": note, "evidence_file": "evidence/%s.json" % pid})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c \"import petlib.bn, bplib.bp, msgpack, attr\"",
        "hooks": {"guard": "none", "enable": "no hooks: the checks replace petlib.ec, bplib.bp and "
                  "the sources of randomness from outside", "source_commits": []},
        "checks": checks, "not_applicable": na,
        "notes": "fix: commits in /repo are listed in known_findings.txt",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
