From b86b72bc97a66f0d3b2e0900a1b09faaf24119a9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 01/35] fix: keep the residual challenge of an or-proof in the
 challenge space

The residual was returned as a value in (-2^k, 0], while simulated branches use
values in [0, 2^k): the sign of a subchallenge told which branch was real.
---
 zksk/composition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..49cbc7b 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,8 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    # Reduce the result, so that it cannot be told apart from a freshly drawn challenge.
+    return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From d956abb54eb396771fe7fc51877f8f84f9962c79 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 02/35] fix: reject or-proofs with a subchallenge outside the
 challenge space

Adding a multiple of the group order to a subchallenge let a prover without any
witness satisfy the sum constraint.
---
 zksk/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 49cbc7b..e579914 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -422,6 +422,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # Subchallenges act modulo the group order but sum up modulo the size of the challenge
+        # space, so a subchallenge outside of that space can cancel out in only one of the two.
+        challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
+        if any(c < 0 or c >= challenge_space for c in self.or_challenges):
+            raise InconsistentChallengeError("Subchallenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 4cc60dd7236a54666ef67e7ee8ea7477d09e684c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 03/35] fix: require one subchallenge and response per branch
 of an or-proof

An extra subchallenge absorbed the sum constraint, so that false or-statements
could be proven.
---
 zksk/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index e579914..7e2a1e8 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -422,6 +422,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # A subchallenge without a matching subproof would make the sum constraint void.
+        if not len(self.or_challenges) == len(responses) == len(self.subproofs):
+            raise InconsistentChallengeError(
+                "Need exactly one subchallenge and response per subproof."
+            )
+
         # Subchallenges act modulo the group order but sum up modulo the size of the challenge
         # space, so a subchallenge outside of that space can cancel out in only one of the two.
         challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
-- 
2.43.0


From 69de907422a285233838da0fbbbf23a86ed10422 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 04/35] fix: check the number of bit commitments in range
 proofs

Extra, unproven bit commitments could shift the committed value out of range.
---
 zksk/primitives/rangeproof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..6cc22ce 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -154,6 +154,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Need exactly one commitment per bit")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From 19c66ccf511594e56e4b46073d271c6f0daf2249 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 05/35] fix: support any constructed statement in the
 interactive extended verifier

Only a conjunction could be verified interactively: other verifiers do not take
ignore_statement_hash_checks.
---
 zksk/extended.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..67d02b4 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -27,7 +27,9 @@ import abc
 
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
+from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import StatementSpecError
+from zksk.utils import get_random_num
 from zksk.utils.misc import get_default_attr
 
 
@@ -231,9 +233,9 @@ class ExtendedVerifier(Verifier):
 
         statement, self.commitment = com
         self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
+        # The hash of the whole statement was just checked, so that only the challenge is missing.
+        # The inner statement can be of any kind, not necessarily a conjunction.
+        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
     def check_responses_consistency(self, responses, responses_dict):
-- 
2.43.0


From 8ab364a15c9524e35b8b52d41943c1bd6a48a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/35] fix: support ranges that hold one or two values

Their power-two subproofs have zero or one bit, for which no statement could be
constructed.
---
 zksk/primitives/rangeproof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 6cc22ce..aa06df8 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -130,6 +130,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        # A conjunction needs at least two members.
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -216,7 +219,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -287,7 +290,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From 29007074f31ed4dfcb5fd50c8bb1779b449ec6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 07/35] fix: do not mark a statement as simulated when asking
 for its prover

get_prover set the flag it meant to read, so that a proof used up the branches of
a disjunction: proving again picked another branch or failed.
---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 5d0ef07c7a1c9135cd480a5a1b27f6801efbb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 08/35] fix: let a statement be proven after it was simulated

simulate() left the statement marked as simulated, so that it had no prover
anymore.
---
 zksk/composition.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 7e2a1e8..5de1543 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -302,10 +302,15 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
+        was_simulated = self.simulated
         self.set_simulated()
-        self.prepare_simulate_proof()
-        transcript = self.simulate_proof(challenge=challenge)
-        transcript.stmt_hash = self.prehash_statement().digest()
+        try:
+            self.prepare_simulate_proof()
+            transcript = self.simulate_proof(challenge=challenge)
+            transcript.stmt_hash = self.prehash_statement().digest()
+        finally:
+            # Simulating once should not prevent from proving later.
+            self.set_simulated(was_simulated)
         return transcript
 
     def verify_simulation_consistency(self, transcript):
-- 
2.43.0


From 852c91bf3de76760b97dee8d8ffc489e9c62edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 09/35] fix: skip conjunctions with unknown secrets when
 choosing an or-branch

Such a conjunction raises instead of returning no prover, so that proving a
disjunction failed or not depending on the branch drawn first.
---
 zksk/composition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 5de1543..a214064 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -489,7 +489,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = self._try_get_prover(self.chosen_idx, secrets_dict)
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -497,9 +497,19 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = self._try_get_prover(self.chosen_idx, secrets_dict)
         return OrProver(self, valid_prover)
 
+    def _try_get_prover(self, index, secrets_dict):
+        """
+        Get a prover for a subproof, or None if it lacks secrets.
+        """
+        try:
+            return self.subproofs[index].get_prover(secrets_dict)
+        except ValueError:
+            # A conjunction raises if it cannot construct the prover for one of its members.
+            return None
+
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
-- 
2.43.0


From d9d7a494b20461340fc94dc6e043d278b0f5fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 10/35] fix: give no prover for primitives whose secrets are
 unknown

DLNotEqual and BBSPlusSignatureStmt returned a prover that failed later on, so
that a disjunction with such a member failed or not depending on the branch
drawn first.
---
 zksk/primitives/bbsplus.py     | 18 +++++++++++++++++-
 zksk/primitives/dl_notequal.py | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..d694859 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,22 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def get_prover(self, secrets_dict=None):
+        """
+        Get a prover object.
+
+        Returns:
+            Prover object if the signature and all secret values are known, None otherwise.
+        """
+        prover = super().get_prover(secrets_dict)
+        if (
+            self.simulated
+            or self.signature is None
+            or any(s.value is None for s in self.secret_vars)
+        ):
+            return None
+        return prover
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
@@ -262,7 +278,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         signature and the Prover's randomness.
         """
         if self.signature is None:
-            raise ValueException("No signature given!")
+            raise ValueError("No signature given!")
 
         # Compute auxiliary commitments A1,A2 as mentioned in the paper. Needs two random values r1,r2 and associated delta1,delta2
         # Set true value to computed secrets
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..8e8a32d 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -46,7 +46,7 @@ class DLNotEqual(ExtendedProofStmt):
 
     def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
         if len(valid_pair) != 2 or len(invalid_pair) != 2:
-            raise TypeException("The valid_pair and invalid_pair must be pairs")
+            raise TypeError("The valid_pair and invalid_pair must be pairs")
 
         self.x = x
 
@@ -60,6 +60,18 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def get_prover(self, secrets_dict=None):
+        """
+        Get a prover object.
+
+        Returns:
+            Prover object if the value of the secret is known, None otherwise.
+        """
+        prover = super().get_prover(secrets_dict)
+        if self.simulated or self.x.value is None:
+            return None
+        return prover
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
-- 
2.43.0


From f532238d37f750e762ae1d540afc64fe7bdadce6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 11/35] fix: allow power-two range statements without values

The optional parameters x and randomizer could not be left out, and such a
statement was still a candidate for the real branch of an or-proof.
---
 zksk/primitives/rangeproof.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index aa06df8..39f905a 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -55,7 +55,12 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
     """
 
     def __init__(self, com, g, h, num_bits, x=None, randomizer=None):
-        if not x.value is None and not randomizer.value is None:
+        if (
+            x is not None
+            and randomizer is not None
+            and x.value is not None
+            and randomizer.value is not None
+        ):
             self.x = x
             self.randomizer = randomizer
             self.is_prover = True
@@ -67,7 +72,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             if self.x.value.num_bits() > num_bits:
                 warnings.warn("Secret has more than {} bits".format(num_bits))
         else:
+            # Without values, can only be simulated in an or-proof.
             self.is_prover = False
+            self.set_simulated()
 
         # TODO: Should we combine com with the inner proof?
         self.com = com
-- 
2.43.0


From f0cd37e95cf086230c8786f857d212de8a2a1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 12/35] fix: allow simulating a range proof whose value is out
 of range

The constructed statement decomposed the value even when simulated, so that an
or-proof with such a (false) branch could not be made.
---
 zksk/primitives/rangeproof.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 39f905a..40e8a31 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -83,6 +83,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         self.order = g.group.order()
         self.num_bits = num_bits
 
+        # Bits of the value behind the current precommitment, if we are the one proving it
+        self.value_as_bits = None
+
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
@@ -92,6 +95,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         actual_value = ensure_bn(self.x.value)
         value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
+        self.value_as_bits = value_as_bits
 
         # Set true value to computed secrets
         for rand in self.randomizers:
@@ -118,12 +122,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
+        if self.value_as_bits is not None:
             # Indicators that tell us which or-clause is true
-            actual_value = ensure_bn(self.x.value)
-            value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
-            zero_simulated = [b == 1 for b in value_as_bits]
-            one_simulated = [b == 0 for b in value_as_bits]
+            zero_simulated = [b == 1 for b in self.value_as_bits]
+            one_simulated = [b == 0 for b in self.value_as_bits]
 
         bit_proofs = []
         for i in range(self.num_bits):
@@ -131,7 +133,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if self.value_as_bits is not None:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
@@ -143,6 +145,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
+        self.value_as_bits = None
         randomizers = [self.order.random() for _ in range(self.num_bits)]
         precommitment = {}
         precommitment["Cs"] = [r * self.h for r in randomizers]
-- 
2.43.0


From 601ea893748e5df11a07e0c963e7231e5f317075 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 13/35] fix: give simulated and real proofs precommitments of
 the same shape

Simulated conjunctions had a list of None as precommitment and real ones had
None, so that the precommitment of an or-proof told its real branch. An or-proof
also dropped empty, but existing, precommitments of its members, and could then
not be verified by a separate verifier.
---
 zksk/composition.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index a214064..6b005dd 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -40,6 +40,20 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
+def _normalize_precommitment(precommitments):
+    """
+    Get the precommitment of a composed proof from those of its subproofs.
+
+    If no subproof has one, returns None, whether the subproofs are real or simulated.
+
+    Args:
+        precommitments: The array of precommitments, one per subproof.
+    """
+    if all(precommitment is None for precommitment in precommitments):
+        return None
+    return precommitments
+
+
 def _assign_secret_ids(secret_vars):
     """
     Assign consecutive identifiers to secrets.
@@ -581,7 +595,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             commitment=com,
             challenge=challenge,
             responses=(or_chals, resp),
-            precommitment=precom,
+            precommitment=_normalize_precommitment(precom),
         )
 
 
@@ -626,9 +640,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
-            return None
-        return precommitment
+        return _normalize_precommitment(precommitment)
 
     def internal_commit(self, randomizers_dict=None):
         """
@@ -841,7 +853,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             precom.append(simulation.precommitment)
 
         return SimulationTranscript(
-            commitment=com, challenge=challenge, responses=resp, precommitment=precom
+            commitment=com,
+            challenge=challenge,
+            responses=resp,
+            precommitment=_normalize_precommitment(precom),
         )
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
-- 
2.43.0


From 2f0f16688722adfec53e85a01bcdbd3c446f85eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 14/35] fix: simulate primitives that have no precommitment of
 their own

As documented, a primitive that only overrides construct_stmt can be simulated.
---
 zksk/extended.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 67d02b4..ba64876 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -71,6 +71,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            # There is no legitimate precommitment to imitate.
+            return self.precommit()
+
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 021610e66d6af959d250bbf63a07b230ddf1a24b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 15/35] fix: do not modify the operands of a sum of expressions

The left operand of a sum was extended in place, which changed expressions that
are used more than once.
---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From 437c779fd6cb1216df341bb60ca4be80da8d4876 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 16/35] fix: let the verifier reject unsupported compositions

Only the prover checked that no secret occurs both inside and outside of an
or-proof, so that a proof in which the occurrences differ was accepted.
---
 zksk/composition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 6b005dd..076000a 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -411,6 +411,8 @@ class _CommonComposedStmtMixin:
         return (self.__class__.__name__, proof_ids)
 
     def full_validate(self, *args, **kwargs):
+        # The prover checks this too, but a verifier cannot rely on it.
+        self.validate_composition()
         for sub in self.subproofs:
             sub.full_validate(*args, **kwargs)
 
-- 
2.43.0


From 1197866a42b7f6b62fca93cb855545e536ad94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 17/35] fix: give each occurrence of a primitive its own
 internal secrets

The copies made by a composition shared them, so that using the same statement
twice in a conjunction made the proof fail.
---
 zksk/extended.py               | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     | 17 ++++++++++-------
 zksk/primitives/dl_notequal.py |  7 +++++--
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index ba64876..29344b9 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -49,6 +49,20 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         """
         pass
 
+    def renew_internal_secrets(self):
+        """
+        Create the secrets that only the internal statement uses. Override if there are any.
+
+        Each occurrence of a statement in a composed proof has internal secrets of its own.
+        """
+        pass
+
+    def __copy__(self):
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.renew_internal_secrets()
+        return result
+
     def precommit(self):
         """
         Compute precommitments. Override if needed.
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index d694859..cc8faa4 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -237,13 +237,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.bases = pk.generators[: len(secret_vars)]
         self.order = self.bases[0].group.order()
 
-        # The prover will compute the following secrets:
-        self.r1, self.r2, self.delta1, self.delta2 = (
-            Secret(),
-            Secret(),
-            Secret(),
-            Secret(),
-        )
+        self.renew_internal_secrets()
 
         # Below is boilerplate
         self.secret_vars = secret_vars
@@ -254,6 +248,15 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def renew_internal_secrets(self):
+        # The prover will compute the following secrets:
+        self.r1, self.r2, self.delta1, self.delta2 = (
+            Secret(),
+            Secret(),
+            Secret(),
+            Secret(),
+        )
+
     def get_prover(self, secrets_dict=None):
         """
         Get a prover object.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 8e8a32d..17ec63d 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -50,8 +50,7 @@ class DLNotEqual(ExtendedProofStmt):
 
         self.x = x
 
-        # The internal ZK proof uses two constructed secrets
-        self.alpha, self.beta = Secret(), Secret()
+        self.renew_internal_secrets()
 
         self.lhs = [valid_pair[0], invalid_pair[0]]
         self.g = valid_pair[1]
@@ -60,6 +59,10 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def renew_internal_secrets(self):
+        # The internal ZK proof uses two constructed secrets
+        self.alpha, self.beta = Secret(), Secret()
+
     def get_prover(self, secrets_dict=None):
         """
         Get a prover object.
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 40e8a31..9af153f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -86,6 +86,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # Bits of the value behind the current precommitment, if we are the one proving it
         self.value_as_bits = None
 
+        self.renew_internal_secrets()
+
+    def renew_internal_secrets(self):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
-- 
2.43.0


From c1e589a22c37149d62ce3365c7e1b0317156ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 18/35] fix: copy the subproofs of a composed statement along
 with it

Two occurrences of a composed statement shared its members, so that they
overwrote the constructed statements of each other and the proof failed.
---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 076000a..8268537 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -353,6 +353,13 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # The subproofs hold the state of a run: occurrences of this statement must not share them.
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.subproofs = [copy.copy(p) for p in self.subproofs]
+        return result
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From cd6a2f9dca3a04f79d0fb3668873a0eff13377c7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 19/35] fix: represent pairing points independently of the
 process

Their representation, which is part of the hash of a statement, used the built-in
hash of bytes: it differs from process to process, so that a proof could only be
verified in the process that made it.
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..1da8ede 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -117,7 +117,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -158,7 +158,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -196,7 +196,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From 298c9c4c86ff7c368e7866dfd059460c9f13c679 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 20/35] fix: compare pairing groups by value

GT and G2 groups only equalled themselves, so that a statement mixing local and
deserialized points was refused. Comparing G1 with another kind of group failed.
---
 zksk/pairings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 1da8ede..11440e7 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -58,6 +58,9 @@ class GTGroup:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     def generator(self):
         if self.gen is None:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
@@ -226,7 +229,7 @@ class G1Group:
         return self.bp.bpgp.order()
 
     def __eq__(self, other):
-        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
 
     def hash_to_point(self, string):
         return G1Point(self.bp.bpgp.hashG1(string), self.bp)
@@ -273,6 +276,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From 389e94204c6e3b5d91bb9bc456794161049f2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 21/35] fix: do not truncate weighted sums of pairing points

Weights without a generator were ignored: a BBS+ signature was valid for its
messages followed by any other ones that exceed the public key.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 11440e7..be745c0 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -73,6 +73,8 @@ class GTGroup:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -243,6 +245,8 @@ class G1Group:
 
     # TODO throw these on a base class
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -287,6 +291,8 @@ class G2Group:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
-- 
2.43.0


From 8fba243327889910c801d6b46a9d5c5fa61d1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 22/35] fix: use the group given to BilinearGroupPair

---
 zksk/pairings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index be745c0..fd5cf92 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -19,8 +19,7 @@ class BilinearGroupPair:
     """
 
     def __init__(self, bp_group=None):
-        if bp_group is None:
-            self.bpgp = BpGroup()
+        self.bpgp = BpGroup() if bp_group is None else bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From b61a304b365fcd9db6a3a538772b28e5d9e4f470 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 23/35] fix: multiply GT points by zero

GT elements have no division, so that this raised a TypeError.
---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index fd5cf92..26c49d9 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -106,7 +106,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return AdditivePoint(GTElem.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From e40fbc636ddd2b364d04a1b15389c862c75effc7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 24/35] fix: reject conjunction proofs with surplus responses

Responses beyond those of the members were ignored, so that a proof could be
altered without becoming invalid.
---
 zksk/composition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 8268537..7ba261e 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -18,7 +18,7 @@ from zksk.utils import get_random_num, sum_bn_array
 from zksk.utils.misc import get_default_attr
 from zksk.exceptions import StatementSpecError, StatementMismatch
 from zksk.exceptions import InvalidSecretsError, GroupMismatchError
-from zksk.exceptions import InconsistentChallengeError
+from zksk.exceptions import InconsistentChallengeError, ValidationError
 
 
 def _find_residual_challenge(subchallenges, challenge, modulus):
@@ -779,6 +779,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.validate_secrets_reoccurence()
 
     def recompute_commitment(self, challenge, responses):
+        if len(responses) != len(self.subproofs):
+            raise ValidationError("Need exactly one response per subproof.")
+
         com = []
         for index, subproof in enumerate(self.subproofs):
             com.append(subproof.recompute_commitment(challenge, responses[index]))
-- 
2.43.0


From 35d45984fd7eb61ca77278bfe08a42bd093239dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 25/35] fix: forget the blinding factor of an earlier BBS+
 commitment

A plain commitment made after a blinded one by the same user ended in a signature
shifted by the earlier blinding factor, that is, an invalid one.
---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index cc8faa4..7e19c24 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 7994586c8e45ba53be8ede776b03bf489b2c4201 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 26/35] fix: do not share subchallenges between verifications
 of an or-proof

They were stored in the statement, so that concurrent verifications with the same
statement could use the subchallenges of each other.
---
 zksk/composition.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 7ba261e..628065e 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -447,11 +447,11 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        self.or_challenges = responses[0]
+        or_challenges = responses[0]
         responses = responses[1]
 
         # A subchallenge without a matching subproof would make the sum constraint void.
-        if not len(self.or_challenges) == len(responses) == len(self.subproofs):
+        if not len(or_challenges) == len(responses) == len(self.subproofs):
             raise InconsistentChallengeError(
                 "Need exactly one subchallenge and response per subproof."
             )
@@ -459,12 +459,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # Subchallenges act modulo the group order but sum up modulo the size of the challenge
         # space, so a subchallenge outside of that space can cancel out in only one of the two.
         challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
-        if any(c < 0 or c >= challenge_space for c in self.or_challenges):
+        if any(c < 0 or c >= challenge_space for c in or_challenges):
             raise InconsistentChallengeError("Subchallenge out of range.")
 
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
-            self.or_challenges, challenge, CHALLENGE_LENGTH
+            or_challenges, challenge, CHALLENGE_LENGTH
         ) != Bn(0):
             raise InconsistentChallengeError("Inconsistent challenges.")
 
@@ -474,7 +474,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         for index, subproof in enumerate(self.subproofs):
             com.append(
                 subproof.recompute_commitment(
-                    self.or_challenges[index], responses[index]
+                    or_challenges[index], responses[index]
                 )
             )
         return com
-- 
2.43.0


From ff7a2ef9288b61b2a543785e3ad7f02bc116daaa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 27/35] fix: tie the prover of an or-proof to the branch drawn
 for it

The branch was passed through the statement, so that concurrent proofs of the
same statement could mix up their branches.
---
 zksk/composition.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 628065e..598ecdb 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -509,19 +509,20 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # from the list of possible proofs and try again
         random_gen = random.SystemRandom()
         possible = list(candidates.keys())
-        self.chosen_idx = random_gen.choice(possible)
+        chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self._try_get_prover(self.chosen_idx, secrets_dict)
+        valid_prover = self._try_get_prover(chosen_idx, secrets_dict)
         while valid_prover is None:
-            possible.remove(self.chosen_idx)
+            possible.remove(chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
             if len(possible) == 0:
                 self.chosen_idx = None
                 return None
-            self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self._try_get_prover(self.chosen_idx, secrets_dict)
-        return OrProver(self, valid_prover)
+            chosen_idx = random_gen.choice(possible)
+            valid_prover = self._try_get_prover(chosen_idx, secrets_dict)
+        self.chosen_idx = chosen_idx
+        return OrProver(self, valid_prover, chosen_idx)
 
     def _try_get_prover(self, index, secrets_dict):
         """
@@ -617,10 +618,10 @@ class OrProver(Prover):
     stores them.
     """
 
-    def __init__(self, stmt, subprover):
+    def __init__(self, stmt, subprover, true_prover_idx):
         self.subprover = subprover
         self.stmt = stmt
-        self.true_prover_idx = self.stmt.chosen_idx
+        self.true_prover_idx = true_prover_idx
 
         # Create a list storing the SimulationTranscripts
         self.setup_simulations()
-- 
2.43.0


From 90086965d4703b03e06b2bab2ec922fe6fbb53fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 28/35] fix: do not choose a conjunction with a member to be
 simulated as real or-branch

---
 zksk/composition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 598ecdb..ad9f572 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -316,7 +316,7 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        was_simulated = self.simulated
+        was_simulated = get_default_attr(self, "_simulated", False)
         self.set_simulated()
         try:
             self.prepare_simulate_proof()
@@ -806,6 +806,11 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         return AndProver(self, subs)
 
+    @property
+    def simulated(self):
+        # A conjunction cannot be proven if one of its members has to be simulated.
+        return super().simulated or any(sub.simulated for sub in self.subproofs)
+
     def get_verifier(self):
         """
         Constructs a Verifier for the and-proof, based on a list of the Verifiers of each subproof.
-- 
2.43.0


From 1fd24d40242603b0438107e53f18f5a4b110faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 29/35] fix: reject or-proofs with surplus elements next to the
 responses

---
 zksk/composition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index ad9f572..8eac85e 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -447,8 +447,9 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        or_challenges = responses[0]
-        responses = responses[1]
+        if len(responses) != 2:
+            raise ValidationError("Need exactly the subchallenges and the responses.")
+        or_challenges, responses = responses
 
         # A subchallenge without a matching subproof would make the sum constraint void.
         if not len(or_challenges) == len(responses) == len(self.subproofs):
-- 
2.43.0


From 3dfcfaf57943f0c9a9f5737fc9069649713f445c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 30/35] fix: validate the composition of simulated or-branches
 too

---
 zksk/composition.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 8eac85e..3df775a 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -248,6 +248,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def validate_composition(self):
+        """
+        Validate that composition is done correctly.
+
+        Does nothing if not overriden.
+        """
+        pass
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -543,6 +551,9 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        # There is no prover that would check a simulated member.
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -779,6 +790,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         if len(responses) != len(self.subproofs):
-- 
2.43.0


From 6bafc29e8a80fc990864dadb82851f05f5c0b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 31/35] fix: let points of pairing groups be written in front
 of a secret

---
 zksk/pairings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 26c49d9..1839477 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -9,6 +9,8 @@ from bplib.bp import BpGroup, G1Elem, G2Elem, GTElem
 import petlib.pack as pack
 import msgpack
 
+from petlib.bn import Bn
+
 
 class BilinearGroupPair:
     """
@@ -105,6 +107,8 @@ class AdditivePoint:
         Special case in 0 as the underlying ``bplib`` function is broken for
         this value.
         """
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         if nb == 0:
             return AdditivePoint(GTElem.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
@@ -148,6 +152,8 @@ class G1Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         return G1Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
@@ -189,6 +195,8 @@ class G2Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if not isinstance(nb, (int, Bn)):
+            return NotImplemented
         return G2Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
-- 
2.43.0


From c77a469d0006ebdc843253c35e0844a47f5837fe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 32/35] fix: never verify a proof without precommitment against
 an earlier construction

---
 zksk/base.py        | 7 +++----
 zksk/composition.py | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..1afc121 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -244,10 +244,9 @@ class Verifier(metaclass=abc.ABCMeta):
         Return:
             bool: True of verification succeeded, False otherwise.
         """
-        # Build the complete stmt if necessary.
-        # TODO: If empty precommit() function, this is always true.
-        if nizk.precommitment is not None:
-            self.process_precommitment(nizk.precommitment)
+        # Build the complete stmt if necessary. This includes proofs without a precommitment, which
+        # may not be checked against a stmt that was built for an earlier proof.
+        self.process_precommitment(nizk.precommitment)
 
         # Check the proofs statements match, gather the local statement.
         prehash = self.stmt.check_statement(nizk.stmt_hash)
diff --git a/zksk/composition.py b/zksk/composition.py
index 3df775a..3747c07 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -741,7 +741,7 @@ class OrVerifier(Verifier):
             precommitment: A list of all required precommitments, ordered.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
 
@@ -1017,6 +1017,6 @@ class AndVerifier(Verifier):
         Distribute the list of precommitments to the subverifiers.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
-- 
2.43.0


From 797a419a3f3c86617bf07cde109415a563390714 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 33/35] fix: apply the composition rules inside of custom
 primitives too

---
 zksk/extended.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 29344b9..6a3d144 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -100,8 +100,15 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         pass
 
     def full_validate(self, *args, **kwargs):
+        self.validate_composition()
         self.validate(self.precommitment, *args, **kwargs)
 
+    def validate_composition(self):
+        self.constructed_stmt.validate_composition()
+
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
+
     @property
     def constructed_stmt(self):
         return get_default_attr(self, "_constructed_stmt")
-- 
2.43.0


From 523d9e46ef4a1a08700fdd4b131e44bafa5b5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 34/35] fix: identify custom primitives by the encoding of
 their precommitment

---
 zksk/extended.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 6a3d144..02e5091 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -25,6 +25,8 @@ The protocol of an extended proof is as follows:
 
 import abc
 
+from petlib.pack import encode
+
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
 from zksk.consts import CHALLENGE_LENGTH
@@ -154,7 +156,8 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         if self.constructed_stmt is not None:
             proof_id = [
                 self.__class__.__name__,
-                self.precommitment,
+                # The same before and after serialization, which turns tuples into lists.
+                encode(self.precommitment),
                 self.constructed_stmt.get_proof_id(secret_id_map),
             ]
         else:
-- 
2.43.0


From f965bc50d542a4866a8ff9d5d5c46ffd6458c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 35/35] fix: simulate the other branches of a disjunction again
 for every proof of one prover

---
 zksk/composition.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 3747c07..6256486 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -638,6 +638,10 @@ class OrProver(Prover):
         # Create a list storing the SimulationTranscripts
         self.setup_simulations()
 
+        # Whether the stored simulations have already been sent
+        self.precommitted = False
+        self.committed = False
+
     def setup_simulations(self):
         """
         Run all the required simulations and stores them.
@@ -649,7 +653,23 @@ class OrProver(Prover):
                 sim = subproof.simulate_proof()
                 self.simulations.append(sim)
 
+    def renew_simulations(self):
+        """
+        Simulate again, for the same precommitments.
+        """
+        self.simulations = [
+            subproof.simulate_proof()
+            for index, subproof in enumerate(self.stmt.subproofs)
+            if index != self.true_prover_idx
+        ]
+
     def precommit(self):
+        # Simulations that are sent twice can be told apart from the legit subproof.
+        if self.precommitted or self.committed:
+            self.setup_simulations()
+        self.precommitted = True
+        self.committed = False
+
         # Generate precommitment for the legit subprover, and gather the precommitments from the
         # stored simulations.
         precommitment = []
@@ -675,6 +695,10 @@ class OrProver(Prover):
         # Now that all proofs have been constructed, we can check
         self.stmt.validate_composition()
 
+        if self.committed:
+            self.renew_simulations()
+        self.committed = True
+
         commitment = []
         for index, _ in enumerate(self.stmt.subproofs):
             if index == self.true_prover_idx:
-- 
2.43.0

