From 77659978377f994d0e0b8236e402ae5dfa6c102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 01/29] fix: keep the residual or-challenge in range

The residual challenge was the only non-positive one in an or-proof, which
told every verifier which disjunct was the true one.
---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..16741b1 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,7 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From 5b08af3479f3504557708dafcd6cc12c7ed98258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 02/29] fix: require exactly one subchallenge per disjunct

A surplus subchallenge was counted in the sum but bound to no disjunct, so an
or-proof could be forged by simulating every disjunct.
---
 zksk/composition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 16741b1..5c233e2 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -421,6 +421,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # There has to be exactly one challenge for each disjunct.
+        if len(self.or_challenges) != len(self.subproofs):
+            raise InconsistentChallengeError("Wrong number of subchallenges.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 74ac39f30a39d923284cbae7cf0b90a603fe16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 03/29] fix: do not mark a statement as simulated when asking
 for its prover

set_simulated() was called where the simulated flag was meant to be read, so
an or-proof ran out of candidates after a few proofs, and the simulated flag of a
statement was ignored outside of or-proofs.
---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 8ffaaf161aeaa2f8ddfdbe1a21061926c53f8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 04/29] fix: adding expressions leaves the operands unchanged

The sum was built inside the left operand, so an expression used in two
statements carried the terms of the first one into the second.
---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From 2865b9adaaf9f7f5cd29d0d22ef91e0404705aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 05/29] fix: require exactly one commitment for each bit of a
 range

A surplus commitment entered the combined commitment without a bit proof, so
any value could be proven to be in range.
---
 zksk/primitives/rangeproof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..417c496 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -154,6 +154,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Wrong number of bit commitments")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From ca0cacba6b93d25abb4219a1aae66bfd62eb7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 06/29] fix: interactive extended proofs of any inner statement

Only the verifier of a conjunction took the argument that the extended verifier
passed, so a primitive constructed from a single statement or a disjunction
could not be verified interactively.
---
 zksk/extended.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..841ab83 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -27,7 +27,9 @@ import abc
 
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
+from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import StatementSpecError
+from zksk.utils import get_random_num
 from zksk.utils.misc import get_default_attr
 
 
@@ -231,9 +233,7 @@ class ExtendedVerifier(Verifier):
 
         statement, self.commitment = com
         self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
+        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
     def check_responses_consistency(self, responses, responses_dict):
-- 
2.43.0


From 7960a9229a970b286c5f4d57581b42dbed5f85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 07/29] fix: range proofs for ranges of one or two values

Neither zero bits nor a single bit make a conjunction.
---
 zksk/primitives/rangeproof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 417c496..396dd7d 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -130,6 +130,8 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -216,7 +218,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -287,7 +289,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max((b - a - 1).num_bits(), 1)
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From 4e880c7dcc0df08ab56a5d18729ae7e796f9c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 08/29] fix: simulate a range proof whose known value is out of
 range

An or-proof over ranges could not be made when the value was known to the false
disjunct, although only the true one uses it.
---
 zksk/primitives/rangeproof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 396dd7d..af85d29 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -114,6 +114,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         if self.is_prover:
             # Indicators that tell us which or-clause is true
             actual_value = ensure_bn(self.x.value)
+            # A disjunct whose value is out of range can still be simulated or verified.
+            if actual_value < 0 or actual_value.num_bits() > self.num_bits:
+                actual_value = Bn(0)
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
             zero_simulated = [b == 1 for b in value_as_bits]
             one_simulated = [b == 0 for b in value_as_bits]
-- 
2.43.0


From 008cb3622f4e5200d00e6f80ebc6ae0b350c5db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 09/29] fix: keep empty precommitments in or-proofs

Precommitments that are false in a boolean context, such as the default one of an
extended proof, never reached the verifier.
---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 5c233e2..d0e9df2 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -602,7 +602,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
+        if all(p is None for p in precommitment):
             return None
         return precommitment
 
-- 
2.43.0


From d8b3cc41c9b5b09452c7963ee3455a631af866ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 10/29] fix: simulated compositions without precommitments have
 none

A simulated conjunction or disjunction carried a list of Nones where the
legitimate one carries None, which told the simulated disjuncts of an or-proof from
the true one.
---
 zksk/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index d0e9df2..c91f7f5 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -552,6 +552,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         resp.append(final_transcript.responses)
         precom.append(final_transcript.precommitment)
 
+        # As in a legitimate proof, there is no precommitment if no subproof has one.
+        if all(p is None for p in precom):
+            precom = None
+
         # Pack everything into a SimulationTranscript, pack the or-challenges in the response field.
         return SimulationTranscript(
             commitment=com,
@@ -816,6 +820,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             resp.append(simulation.responses)
             precom.append(simulation.precommitment)
 
+        # As in a legitimate proof, there is no precommitment if no subproof has one.
+        if all(p is None for p in precom):
+            precom = None
+
         return SimulationTranscript(
             commitment=com, challenge=challenge, responses=resp, precommitment=precom
         )
-- 
2.43.0


From 711d3d20c6a043180631561ea260825f7d4fa670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 11/29] fix: use the group given to BilinearGroupPair

---
 zksk/pairings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..b3757ef 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -20,7 +20,8 @@ class BilinearGroupPair:
 
     def __init__(self, bp_group=None):
         if bp_group is None:
-            self.bpgp = BpGroup()
+            bp_group = BpGroup()
+        self.bpgp = bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 8a04698e475caf503b9c08538a0247203ecb1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 12/29] fix: multiply GT points by zero

The wrapped points do not support division.
---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index b3757ef..a465032 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -103,7 +103,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From 220ffdcb2b8c8396284c96d8f5cc4db5f73f76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 13/29] fix: represent pairing points by their value

The representation is a part of the statement identifier, but was the 64-bit hash
of a byte string, which differs from one Python process to the other. A proof over
pairing points could not be verified in another process.
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index a465032..aa80f16 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -118,7 +118,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.pt.export().hex() + ")"
 
 
 class G1Point:
@@ -159,7 +159,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.pt.export().hex() + ")"
 
 
 class G2Point:
@@ -197,7 +197,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.pt.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From c4db94acc04a5779f7e0d06084ef6ca811b7a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 14/29] fix: compare G2 and GT groups by value

Decoded points live in a new group object, so a deserialized proof of knowledge of
a BBS+ signature failed to verify.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index aa80f16..37b5ce6 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -64,6 +64,9 @@ class GTGroup:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
         return self.gen
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     def sum(self, points):
         res = self.infinite()
         for p in points:
@@ -274,6 +277,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From d0f9cb8b357946d6eb9565637db5b96e120ea43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 15/29] fix: simulate extended proofs without a precommitment

As documented, a primitive that only overrides construct_stmt can be simulated.
---
 zksk/extended.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 841ab83..ce22ae9 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -71,6 +71,8 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            return self.precommit()
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From af863b9cd7a74ffad9a1b459771f333e0d4cbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 16/29] fix: an or-proof passes over a conjunction with unknown
 secrets

The disjuncts without all of their secrets are to be simulated, but a conjunction
among them made the construction of the prover fail.
---
 zksk/composition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index c91f7f5..3ad29cc 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -195,6 +195,8 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         if secret_dict is None:
             secret_dict = {}
         prover = self.get_prover(secret_dict)
+        if prover is None:
+            raise ValueError("Failed to construct a prover")
         return prover.get_nizk_proof(message)
 
     def verify(self, nizk, message=""):
@@ -757,7 +759,7 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         if None in subs:
             # TODO: It'd be great to know which one is failing.
-            raise ValueError("Failed to construct prover for a conjunct")
+            return None
 
         return AndProver(self, subs)
 
-- 
2.43.0


From 3776c73716f0cc59821c49191f3596980a0793f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 17/29] fix: verifiers check how secrets and groups are
 composed

Only provers checked that a secret does not occur both inside and outside an
or-proof, so a dishonest prover could have such a proof accepted.
---
 zksk/composition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 3ad29cc..080334b 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -393,6 +393,8 @@ class _CommonComposedStmtMixin:
         return (self.__class__.__name__, proof_ids)
 
     def full_validate(self, *args, **kwargs):
+        # The verifier cannot rely on the prover having checked the composition.
+        self.validate_composition()
         for sub in self.subproofs:
             sub.full_validate(*args, **kwargs)
 
-- 
2.43.0


From 6f194246a9137ddd98c9027c5a532b41089b151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 18/29] fix: check the composition of constructed statements

A secret used in an or-proof inside an extended statement and elsewhere was
accepted.
---
 zksk/extended.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index ce22ae9..2787ede 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -85,6 +85,11 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
 
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
+        # The constructed statement can itself be a composition.
+        self.constructed_stmt.full_validate()
+
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
 
     @property
     def constructed_stmt(self):
-- 
2.43.0


From 538f3f42e0e417a3dde4fefb3b781bf0ddf372e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 19/29] fix: do not reuse the blinding of an earlier commitment

A creator that made a blinded and then an unblinded commitment obtained an
invalid signature for the latter.
---
 zksk/primitives/bbsplus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..db3688c 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,8 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        # An earlier blinding factor does not belong to this commitment.
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 0e4eb14621db535165b31a8884ec29b695d918e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 20/29] fix: power-two range statements without secrets

Verifiers that left out the prover's arguments, which default to None, failed.
---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index af85d29..5d1af52 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -55,6 +55,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
     """
 
     def __init__(self, com, g, h, num_bits, x=None, randomizer=None):
+        if x is None:
+            x = Secret()
+        if randomizer is None:
+            randomizer = Secret()
         if not x.value is None and not randomizer.value is None:
             self.x = x
             self.randomizer = randomizer
-- 
2.43.0


From 154f5a5f40fa626b08ee73993c753f2f12d5aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 21/29] fix: an or-proof passes over extended statements with
 unknown secrets

Choosing a disjunct that deals with precommitments and whose secrets the
prover does not know raised an error instead of proving another disjunct.
---
 zksk/extended.py               | 9 +++++++++
 zksk/primitives/bbsplus.py     | 6 ++++++
 zksk/primitives/dl_notequal.py | 4 ++++
 zksk/primitives/rangeproof.py  | 4 ++++
 4 files changed, 23 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 2787ede..64b3075 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -121,8 +121,17 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         self.secret_values = {}
         self.secret_values.update(secrets_dict)
 
+        if self.simulated or not self.is_provable():
+            return None
+
         return ExtendedProver(self, self.secret_values)
 
+    def is_provable(self):
+        """
+        Tell if all the values that the precommitment needs are known. Override if needed.
+        """
+        return True
+
     def get_verifier_cls(self):
         return ExtendedVerifier
 
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index db3688c..f26dd18 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -256,6 +256,12 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def is_provable(self):
+        """Tell if the signature and the messages are known."""
+        return self.signature is not None and all(
+            secret.value is not None for secret in self.secret_vars
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..1b0323a 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,10 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def is_provable(self):
+        """Tell if the value of the secret is known."""
+        return self.x.value is not None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 5d1af52..afac9cc 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -83,6 +83,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def is_provable(self):
+        """Tell if the committed value and the randomizer are known."""
+        return self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From 316814f26de5b099fdd83762acfab31ff6cb4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 22/29] fix: give each occurrence of an extended statement its
 own secrets

A conjunction with the same extended statement twice shared the internal
secrets between both, so that the proof did not verify.
---
 zksk/extended.py               | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     | 15 +++++++++------
 zksk/primitives/dl_notequal.py |  5 ++++-
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 64b3075..181d521 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -38,6 +38,20 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     Proof that deals with precommitments.
     """
 
+    def __copy__(self):
+        # Compositions copy their subproofs. If a statement occurs twice in a proof, each
+        # occurrence needs internal secrets of its own.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.renew_internal_secrets()
+        return new
+
+    def renew_internal_secrets(self):
+        """
+        Replace the secrets that the statement created for itself. Override if needed.
+        """
+        pass
+
     @abc.abstractmethod
     def construct_stmt(self):
         """
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index f26dd18..d41b962 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -240,12 +240,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.order = self.bases[0].group.order()
 
         # The prover will compute the following secrets:
-        self.r1, self.r2, self.delta1, self.delta2 = (
-            Secret(),
-            Secret(),
-            Secret(),
-            Secret(),
-        )
+        self.renew_internal_secrets()
 
         # Below is boilerplate
         self.secret_vars = secret_vars
@@ -256,6 +251,14 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def renew_internal_secrets(self):
+        self.r1, self.r2, self.delta1, self.delta2 = (
+            Secret(),
+            Secret(),
+            Secret(),
+            Secret(),
+        )
+
     def is_provable(self):
         """Tell if the signature and the messages are known."""
         return self.signature is not None and all(
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 1b0323a..4e8846d 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -51,7 +51,7 @@ class DLNotEqual(ExtendedProofStmt):
         self.x = x
 
         # The internal ZK proof uses two constructed secrets
-        self.alpha, self.beta = Secret(), Secret()
+        self.renew_internal_secrets()
 
         self.lhs = [valid_pair[0], invalid_pair[0]]
         self.g = valid_pair[1]
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def renew_internal_secrets(self):
+        self.alpha, self.beta = Secret(), Secret()
+
     def is_provable(self):
         """Tell if the value of the secret is known."""
         return self.x.value is not None
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index afac9cc..fdc4625 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -81,6 +81,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         self.num_bits = num_bits
 
         # The constructed proofs need extra randomizers as secrets
+        self.renew_internal_secrets()
+
+    def renew_internal_secrets(self):
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
     def is_provable(self):
-- 
2.43.0


From c7a828b2cbc4188de904e1a569ad5c04154ba217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 23/29] fix: copies of compositions do not share their parts

A composition that occurred twice in a proof shared the state of its
subproofs between the occurrences, so that the proof did not verify.
---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 080334b..98a3e3b 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -335,6 +335,13 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # The parts of a copy hold a state of their own, too.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.subproofs = [copy.copy(p) for p in self.subproofs]
+        return new
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 802ed334ad7f1d01b75630411ec8e2e50b45b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 24/29] fix: a simulated statement can still be proven

---
 zksk/composition.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 98a3e3b..8032772 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -303,7 +303,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
-- 
2.43.0


From 20e51b69ed3e6c242d59636811afd3a58437aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 25/29] fix: refuse subchallenges out of range

A subchallenge also counts modulo the group order, so unbounded ones allowed to
forge or-proofs with all disjuncts simulated: by the Chinese remainder theorem a
multiple of the order can be added to meet the sum modulo 2^128.
---
 zksk/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 8032772..4d049dd 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -435,6 +435,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         if len(self.or_challenges) != len(self.subproofs):
             raise InconsistentChallengeError("Wrong number of subchallenges.")
 
+        # The subchallenges count modulo the group order, too. Out of range, they could satisfy the
+        # constraint and still all be chosen in advance.
+        modulus = Bn(2).pow(CHALLENGE_LENGTH)
+        if any(c < 0 or c >= modulus for c in self.or_challenges):
+            raise InconsistentChallengeError("Subchallenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 8581f700801c9e098e8feccd198acecbd3bff316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 26/29] fix: refuse an unsound composition in a simulated
 disjunct

---
 zksk/composition.py | 12 ++++++++++++
 zksk/extended.py    |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 4d049dd..879f68d 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -235,6 +235,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def validate_composition(self):
+        """
+        Validate that composition is done correctly.
+
+        Does nothing if not overriden.
+        """
+        pass
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -510,6 +518,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -752,6 +762,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         com = []
diff --git a/zksk/extended.py b/zksk/extended.py
index 181d521..8bf71be 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -102,6 +102,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         # The constructed statement can itself be a composition.
         self.constructed_stmt.full_validate()
 
+    def validate_composition(self):
+        self.constructed_stmt.validate_composition()
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
 
-- 
2.43.0


From 951439d9d7b92c8756137dbb055235fad1e57a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 27/29] fix: subtraction of GT points, used by inequality and
 range proofs

---
 zksk/pairings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 37b5ce6..337992a 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -118,6 +118,9 @@ class AdditivePoint:
         """
         return AdditivePoint(self.pt * (other.pt), self.bp)
 
+    def __sub__(self, other):
+        return self + (-1 * other)
+
     __rmul__ = __mul__
 
     def __repr__(self):
-- 
2.43.0


From 69cdbcb23791f7fcf0ff7cee1fa648dfca8972d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 28/29] fix: convert integers of more than 32 bits to big
 numbers

---
 zksk/utils/groups.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zksk/utils/groups.py b/zksk/utils/groups.py
index 4520762..48f3549 100644
--- a/zksk/utils/groups.py
+++ b/zksk/utils/groups.py
@@ -95,13 +95,10 @@ def sum_bn_array(arr, modulus):
     >>> sum_bn_array(a, m)
     2
     """
-    if not isinstance(modulus, Bn):
-        modulus = Bn(modulus)
+    modulus = ensure_bn(modulus)
     res = Bn(0)
     for elem in arr:
-        if not isinstance(elem, Bn):
-            elem = Bn(elem)
-        res = res.mod_add(elem, modulus)
+        res = res.mod_add(ensure_bn(elem), modulus)
     return res
 
 
@@ -116,5 +113,8 @@ def ensure_bn(x):
     """
     if isinstance(x, Bn):
         return x
+    elif isinstance(x, int):
+        # The constructor of Bn takes only integers of 32 bits.
+        return Bn.from_decimal(str(int(x)))
     else:
         return Bn(x)
-- 
2.43.0


From a8dcfe284c9f5ed82cf2dc8516f414a1aa1ed7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 29/29] fix: proofs with pairing points can be deserialized
 before pairings is imported

---
 zksk/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..717c1d9 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -14,6 +14,8 @@ from hashlib import sha256
 from collections import defaultdict
 import attr
 
+# Registers the coders of pairing points, which proofs may contain.
+import zksk.pairings
 from zksk.utils import get_random_num
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import ValidationError
-- 
2.43.0

