From 807f86caece49e26576ec7f43304aa7ed044e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 01/55] fix: deinterleave the last, incomplete round and
 messages of a single packet

The end of the data was taken from the last packet of the order, so that
a round that does not reach that packet was dropped; a one-packet message
was always reported as lost, and losing every packet was not.
---
 semantic_codec/interleaver/interleaver2d.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..00856a8 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,25 +195,20 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if packets.get(p) is not None]
+    if not received:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    # The packets that come first in the order may carry one chunk more than the others
+    while not all(q.empty() for q in received):
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
                 errors.append((data._eq_word, data._eq_bit))
-            else:
+            elif not packets[p].empty():
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
 
-- 
2.43.0


From 91de8dfbc79696a3b9fde602791e80c2b1c6aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 02/55] fix: keep the order of the bits when a chunk crosses a
 word of the BitQueue

enqueue copied the first bits of the value twice and left a gap after them,
and dequeue wrote the second part of the chunk over the first one.
---
 semantic_codec/architecture/bits.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..bdd7765 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,16 +18,18 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            # The bits that fit go in the current word and the rest of them at the start of the next one
+            w = BitQueue.WORD_SIZE - self._eq_bit
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, from_bit + w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            last_bit = min(from_bit + self.word_size, BitQueue.WORD_SIZE) - 1
+            if from_bit + w <= last_bit:
+                self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
+                                                            from_bit + w, last_bit, 0)
+            self._eq_bit -= BitQueue.WORD_SIZE
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +57,12 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            first = w
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            last_bit = min(w, BitQueue.WORD_SIZE - to_bit - first) - 1
+            if last_bit >= 0:
+                value = Bits.copy_bits(self._bytes[0], value, 0, last_bit, to_bit + first)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From 2732b78ddfc6f0a5c6693f095b59f349c88e9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 03/55] fix: corrupt_bits must combine every one of the bits it
 picked

The position of a bit in the list was confused with its power of two, so
that from three bits on some of them were never flipped.
---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..17494b1 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if Bits.on(j) & i else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From ee5b8de557477b1cca8474075b3466075177f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 04/55] fix: corrupt_program must reach every instruction and
 reject invalid percentages

The chained comparison was never true, so percentages over 100 looped for
ever; so did programs with gaps between their addresses, whose last
instructions could never be drawn.
---
 semantic_codec/corruption/corruption.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 17494b1..14cb852 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if err_percent < 0 or err_percent > 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
@@ -160,21 +160,14 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
-
-    while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
-            a = random.randint(1, max_amount)
-            for r in corrupt_bits(31, 0, a, program[p][0].encoding):
-                if _encoding_not_in_list(r, program[p]):
-                    program[p].append(CAPSInstruction(r, program[p][0].address))
-            corrupted_amount -= 1
+    # Only instructions that are not corrupted yet are corrupted
+    addresses = [k for k in sorted(program) if len(program[k]) == 1]
+
+    for p in random.sample(addresses, min(corrupted_amount, len(addresses))):
+        a = random.randint(1, max_amount)
+        for r in corrupt_bits(31, 0, a, program[p][0].encoding):
+            if _encoding_not_in_list(r, program[p]):
+                program[p].append(CAPSInstruction(r, program[p][0].address))
 
 
 def _encoding_not_in_list(encoding, instructions):
-- 
2.43.0


From 3e727f632fc19e38515fb31a5698e01a009ad8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 05/55] fix: predict_corruption must report the last,
 incomplete round of every lost packet

The loop ended as soon as the first packet of the list was done, although
packets that come earlier in the order may lose one chunk more; an empty
list of lost packets raised an IndexError.
---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 14cb852..18a9ab8 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -237,7 +237,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while any(x < total_bits for x in b):
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From f92dc952b3151d729eac29233d6b0cf3a1dfac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 06/55] fix: corrupt_all_bits_tuples must accept tuples that
 reach bit 31

The upper bound of a tuple is exclusive, so 32 is a valid one.
---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 18a9ab8..74e1051 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -71,7 +71,7 @@ def corrupt_all_bits_tuples(tuples, instruction):
     size = 0
     for t in tuples:
         l, h = t
-        Bits.check_range(l, h)
+        Bits.check_range(l, h - 1)
         size += h - l
     result = [instruction] * (2 ** size)
     kk = 1
-- 
2.43.0


From 89e861e3831d0edc07406b2134695235eb6351db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 07/55] fix: PacketCorruptor must list each candidate once

Instructions compare by identity, so the test for repeated candidates never
found any.
---
 semantic_codec/corruption/corruptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..b44ae5f 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,12 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                if not c_inst in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From a03ce7a71b796701278d44d1c6665a23f1dc51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 08/55] fix: PacketCorruptor must accept losing packets that
 carry no data

---
 semantic_codec/corruption/corruptors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index b44ae5f..9598fb9 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -80,6 +80,12 @@ class PacketCorruptor(Corruptor):
         # predict packet losses
         errors = predict_corruption(self.packet_count, self.bits_per_interleave, self.data_size,
                                     self.interleave, self.packet_lost)
+        if not errors:
+            # The lost packets carried no data
+            if self.save_corrupted_program:
+                self._save_corrupted_program(program)
+            return program
+
         # Make sure all errors of a same byte are grouped together
         vv = len(errors) * 100
         errors.sort(key=lambda x: x[0] * vv + x[1])
-- 
2.43.0


From 9b9cf63587298ec0c00c97f56f66578d89c4f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 09/55] fix: a push or pop must not be discarded for having no
 register score

The remove step multiplied its score by a default of zero.
---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..941411d 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -122,8 +122,8 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
     hi = max(pc, po, pr)
-    # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    # Instructions without register score must not be discarded because of it
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From 7b02f4dff0989a76f2c00466c929889729d2e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 10/55] fix: a register score of 1 must not discard the other
 candidates

The registers of a candidate being certain at its address says nothing of
the other registers the original instruction uses, nor of the original being
a branch, a push or a pop, which have no register score: the original
instruction could be discarded in favor of such a candidate.
---
 semantic_codec/metadata/recuperator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 941411d..be6c9d3 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -108,8 +108,6 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
-    # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -121,7 +119,8 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
+    # A register score of 1 is no certainty: the original instruction may use more registers than this one
+    hi = max(pc, po)
     # Instructions without register score must not be discarded because of it
     pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
-- 
2.43.0


From 4b9ef94bfe621f07ce423a4b5c0d7de2575e110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 11/55] fix: store the push and pop score under the name the
 score function reads

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index be6c9d3..ebab143 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -325,7 +325,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From d040717e0df32c4812d217eea1348ce9796e6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 12/55] fix: the recuperator must cope with gaps in functions
 and with no functions

Functions with a gap in them, addresses whose candidates are all ignored and
programs without function information raised an exception.
---
 semantic_codec/metadata/recuperator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index ebab143..2f03e0b 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -240,7 +240,7 @@ class ProbabilisticRecuperator(Recuperator):
         """
         reg_equals_inst = False
         c, t = 0, 0
-        for i in self._program[addr]:
+        for i in self._program.get(addr, []):
             if not i.ignore:
                 t += 1
                 # Include the register information
@@ -260,7 +260,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
@@ -297,7 +297,7 @@ class ProbabilisticRecuperator(Recuperator):
                 for a in range(last_addr, addr, -4):
                     cb2 = cb1
                     tb2 = tb1
-                    for i in self._program[a]:
+                    for i in self._program.get(a, []):
                         if not i.ignore:
                             tb1 += 1
                             tp1 += 1
@@ -513,7 +513,7 @@ class ProbabilisticRecuperator(Recuperator):
             # therefore the jmp_address will be unknown
             inst.scores_by_rule['pbd'] = self._model.just_any_jump_is_valid * 2
         # Award high prob to addresses inside this method or to the begin of other methods
-        elif jmp_addr >= current_fn and jmp_addr <= self._functions[current_fn][1]:
+        elif current_fn in self._functions and current_fn <= jmp_addr <= self._functions[current_fn][1]:
             inst.scores_by_rule['pbd'] = self._model.branch_to_this_method
         # Award medium-high prob to a branch to the start of other method
         elif jmp_addr in self._functions:
-- 
2.43.0


From 9d58bb72d45b0b85add65d00e9a70735ae8b5d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 13/55] fix: hide a value of the constraint problem only once

A candidate exceeding the counts of two of its fields was hidden twice, which
raises ValueError.
---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..eda3043 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 5e6c20080373a3076aa52df74eaff32beae9f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 14/55] fix: the bits of an index must tell all the candidates
 apart

With a number of candidates that is not a power of two the last ones needed
one bit more than they were given.
---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index eda3043..ab00f72 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -252,7 +252,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = (ln - 1).bit_length()
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 264d350c1bd06e201265806bc736836aba89b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 15/55] fix: the number of solutions is the product of the
 candidates of each address

It was computed as a sum over the bins, and evaluate() left it undefined.
---
 semantic_codec/solution/solution_quality.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..e043252 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -69,9 +69,9 @@ class SolutionQuality(object):
                 bins[k] = 1
 
         i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
@@ -82,7 +82,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From a2403aa0e1b2a3a99fb2e88be30aaaedf7c6a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 16/55] fix: evaluate the depth of addresses with a null
 encoding or no candidates

A candidate encoded as zero disabled the sort by score of its address, and an
address without candidates raised ZeroDivisionError.
---
 semantic_codec/solution/solution_quality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index e043252..e4e9da2 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -98,7 +98,7 @@ class SolutionQuality(object):
             for inst in v:
                 if inst.encoding < min_encoding:
                     min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            v.sort(key=lambda x: x.score() * 1000000000 + (min_encoding / x.encoding if x.encoding else 1), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
@@ -111,8 +111,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From a903ea19d809dad7d38513e526455b8aebb02cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 17/55] fix: R0 as base or index of a memory operand is a
 register used

It was mistaken for the absence of a register.
---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..2aaa0e9 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -69,10 +69,10 @@ class CAPSInstruction(Instruction):
                     result.append(register)
             if i.type == ARM_OP_MEM:
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
+                if i.value.mem.base != 0 and not register in result:
                     result.append(register)
                 register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
+                if i.value.mem.index != 0 and not register in result:
                     result.append(register)
 
         return result
-- 
2.43.0


From e74fd0e179cb18eb7f4535514685274d1f6d5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 18/55] fix: tell the stores apart by name

The range of identifiers is empty with the current Capstone, so that every
store was taken for a load.
---
 semantic_codec/architecture/capstone_instruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 2aaa0e9..80765fb 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,8 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
+    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -132,7 +133,8 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return self._cap.id in [ARM_INS_STR, ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB,
+                                ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT]
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From 7841262a99c9c78014ff51ce3529639ac89cad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 19/55] fix: connect the forward jumps of the control flow
 graph to their targets

Pending jumps were filed under the instruction that jumps instead of the one
that receives the jump, and never added to a branch or to the first
instruction after a conditional block.
---
 semantic_codec/static_analysis/cfg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..72dc054 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -131,6 +131,9 @@ class ARMControlFlowGraph(digraph):
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(b, self._pending_jumps[inst])
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -187,7 +190,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
+                self._add_pending_jump(instruction_to_branch, branch)
             elif to_node.kind == CFGBlock.COND:
                 # the node is a conditional
                 self.add_edge(branch, to_node)
@@ -266,7 +269,10 @@ class ARMControlFlowGraph(digraph):
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
                 if inst.is_branch:
-                    cb = self._branch_instruction(cb, None, inst, end)
+                    branch = self._add_node(CFGBlock([inst]))
+                    if inst in self._pending_jumps:
+                        self._add_multiple_edges(branch, self._pending_jumps[inst])
+                    cb = self._branch_instruction(cb, branch, inst, end)
                     last_cond_field = None
                 elif inst in self._pending_jumps:
                     b = self._add_node(CFGBlock([inst]))
-- 
2.43.0


From e1586f610f5961d00e7ade3105a2947253931867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 20/55] fix: a branch closes its block and a branch with link
 returns to the next one

When the conditional field changed at a branch the following instructions
were added to its block, and no edge led back from the calls.
---
 semantic_codec/static_analysis/cfg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 72dc054..0d828f5 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -110,7 +110,7 @@ class ARMControlFlowGraph(digraph):
 
             # if the last block is a branch, we cannot receive control from it
             # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
@@ -125,7 +125,7 @@ class ARMControlFlowGraph(digraph):
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
             # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            if not cb.last_is_branch or cb.last_is_branch_with_link:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
@@ -287,7 +287,9 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    after = self._branch_instruction(None, cb, inst, end)
+                    cb = cb if after is None else after
+                    last_cond_field = None
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
-- 
2.43.0


From aa47ef23394ad0e2600bdf7cdb2d09dddfd26047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 21/55] fix: the last conditional block of the control flow
 graph may be skipped too

---
 semantic_codec/static_analysis/cfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 0d828f5..e75a57d 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -293,6 +293,8 @@ class ARMControlFlowGraph(digraph):
 
         if not r.has_edge((cb, end)):
             r.add_edge((cb, end))
+        if last_cond_node is not None and not r.has_edge((last_cond_node, end)):
+            r.add_edge((last_cond_node, end))
         return self
 
 
-- 
2.43.0


From bc015868a7240a80d5c60273f1bc85289d33a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 22/55] fix: a jump back to a conditional block is received by
 its conditional

As documented in build(): the case looked for the instruction in the
conditional node, which holds none.
---
 semantic_codec/static_analysis/cfg.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index e75a57d..0df62ea 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -191,15 +191,24 @@ class ARMControlFlowGraph(digraph):
             if to_node is None:
                 # the node is not built yet
                 self._add_pending_jump(instruction_to_branch, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge(branch, to_node)
+            elif to_node.first == instruction_to_branch and self._conditional_of(to_node) is not None:
+                # the jump is received by the conditional of the node
+                self.add_edge((branch, self._conditional_of(to_node)))
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
 
         return cb
 
+    def _conditional_of(self, node):
+        """
+        Returns the conditional node guarding a node, None if there is none
+        """
+        for p in self.incidents(node):
+            if p.kind == CFGBlock.COND:
+                return p
+        return None
+
     def _add_multiple_edges(self, dest, sources):
         """
         Build a edges going from all the nodes in "sources" to the "dest"
-- 
2.43.0


From 26c714567d81f7f32cb33c634b057d56377e84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 23/55] fix: build the dominator tree of graphs with
 unreachable nodes

---
 semantic_codec/static_analysis/dominators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..bc9c2b2 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -24,6 +24,9 @@ def build_dominator_tree(graph, root):
     """
     # Initialization
     vertex = dominator_tree_dfs(graph, root, [])
+    # Nodes that cannot be reached from the root take no part in the dominance
+    for w in vertex:
+        w.predecessors = [v for v in w.predecessors if v.dom_idx >= 0]
 
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
-- 
2.43.0


From ee699a2bc8bcd59521e24b258de4b64c797b01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 24/55] fix: undo the SSA names of a block, and only those,
 when leaving it

The names of the last successor were undone instead of those of the block,
and from the wrong end of the stack, so that reads got names of definitions
that do not reach them.
---
 semantic_codec/static_analysis/ssa.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..8556985 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -195,16 +195,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
         # Roll back the indexing
-        for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+        for var, index in n.phi_functions:
+            stack[var].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From 447e8bd1052513d9dd7b9d093f3a565b39e6c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 25/55] fix: build the SSA form of instructions that use
 coprocessor or status registers

---
 semantic_codec/static_analysis/ssa.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 8556985..ce381e6 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -1,3 +1,5 @@
+from collections import defaultdict
+
 from pygraph.classes.digraph import digraph
 
 from semantic_codec.architecture.arm_constants import AReg
@@ -159,11 +161,8 @@ class SSAFormBuilder(object):
         """
         Rename the variables in the SSA
         """
-        counter = {}
-        stack = {}
-        for v in range(0, AReg.STORAGE_COUNT):
-            counter[v] = 0
-            stack[v] = [0]
+        counter = defaultdict(int)
+        stack = defaultdict(lambda: [0])
 
         self._rename_node(self._root, counter, stack)
 
-- 
2.43.0


From b353fc5de0b87f11f99af981c62ad356b7200782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 26/55] fix: the compressors must remove the first of the bits
 too

---
 semantic_codec/compressor/shiftcompressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..010b67c 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
@@ -53,7 +53,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             if len(r) > 2:
                 continue
-- 
2.43.0


From 36d72f18cb5ce033c69ca31abac5d554978a656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 27/55] fix: ShiftCompressor must remove as many bits as a
 multiword error has

---
 semantic_codec/compressor/shiftcompressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 010b67c..783c68a 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -33,7 +33,8 @@ class ShiftCompressor(BitCompressor):
         for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
-            del a[k:k + self._shift_count]
+            # Errors that extend through two words tell their own size
+            del a[k:k + (r[2] if len(r) > 2 else self._shift_count)]
 
         self.compressed_buffer = a.tobytes()
 
-- 
2.43.0


From 32064d8b47652a911488435e201de88da015b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 28/55] fix: report a program whose instructions have all been
 recovered

With no address left in doubt the recovery ratio raised ZeroDivisionError.
---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From a9f930e7e9ddf3af05c43277788ab8da7d2e7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 29/55] fix: PacketCorruptor must accept losing the last bit of
 a word on its own

---
 semantic_codec/corruption/corruptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9598fb9..d335a59 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -110,7 +110,7 @@ class PacketCorruptor(Corruptor):
             # Some errors expand through different bytes and are represented by a three index tuple
             if len(e) == 2:
                 tuples.append((e[1], e[1] + self.bits_per_interleave))
-            else:
+            elif e[2] > 0:
                 tuples.append((e[1], e[1] + e[2]))
 
             k += 1
-- 
2.43.0


From a3855209740d1adb4d1c0f563491e3cdc594ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 30/55] fix: the constraint problem of a single address must be
 solvable

---
 semantic_codec/solution/solution_builders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index ab00f72..cf5ec3e 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -81,9 +81,11 @@ class ProblemBuilder(object):
         for k, v in program.items():
             if len(v) > 0:
                 problem.addVariable(k, [x for x in v])
-        problem.addConstraint(ExactFieldSumConstraint(metadata.condition_count, lambda x: [x.conditional_field]))
-        problem.addConstraint(ExactFieldSumConstraint(metadata.instruction_count, lambda x: [x.opcode_field]))
-        problem.addConstraint(ExactFieldSumConstraint(metadata.storage_count, lambda x: x.storages_used()))
+        # The variables must be given: by default the solver indexes the keys of a dictionary if there is only one
+        v = [k for k in program if len(program[k]) > 0]
+        problem.addConstraint(ExactFieldSumConstraint(metadata.condition_count, lambda x: [x.conditional_field]), v)
+        problem.addConstraint(ExactFieldSumConstraint(metadata.instruction_count, lambda x: [x.opcode_field]), v)
+        problem.addConstraint(ExactFieldSumConstraint(metadata.storage_count, lambda x: x.storages_used()), v)
         problem.getSolver()
         # problem.addConstraint(ExactRegisterSumConstraint(metadata.conditional_count))
         # problem.addConstraint(ExactOpcodeSumConstraint(metadata.conditional_count))
-- 
2.43.0


From cb20508caecac31caaab6f4400eba23199a12f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:25 +0000
Subject: [PATCH 31/55] fix: count the only candidate left even if it is not
 the first one

---
 .../metadata/probabilistic_rules/counting_rules.py       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..da03ee4 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -27,10 +27,11 @@ class CountingRule(Rule):
         for instructions in self._program.values():
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
-                # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                # Remove one of the available elements. The candidates before may have been discarded
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 70875c9a80a5922a49c220110c5964db3952a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 32/55] fix: bx lr and mov pc are not branches with link

---
 semantic_codec/architecture/instruction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/instruction.py b/semantic_codec/architecture/instruction.py
index 4870905..9fd0efa 100644
--- a/semantic_codec/architecture/instruction.py
+++ b/semantic_codec/architecture/instruction.py
@@ -204,7 +204,11 @@ class Instruction(object):
 
     @property
     def is_branch_with_link(self):
-        return self.is_branch and (self.encoding & Bits.on(24))
+        if not self.is_branch:
+            return False
+        # BL, BLX to an address or BLX to a register. Bit 24 means link in the first one only
+        return (self.encoding & 0x0f000000) == 0x0b000000 or (self.encoding & 0xfe000000) == 0xfa000000 or \
+            (self.encoding & 0x0ffffff0) == 0x012fff30
 
     def branch_to(self, instructions):
         """
-- 
2.43.0


From bdd7215960da82c228ee7adbad9e34dfee0dc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 33/55] fix: a jump to an unconditional block is not received
 by the conditional before it

---
 semantic_codec/static_analysis/cfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 0df62ea..71f93ca 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -204,6 +204,8 @@ class ARMControlFlowGraph(digraph):
         """
         Returns the conditional node guarding a node, None if there is none
         """
+        if node.first.conditional_field == AOpType.COND_ALWAYS:
+            return None  # A conditional before it is the one of a previous node, being skipped
         for p in self.incidents(node):
             if p.kind == CFGBlock.COND:
                 return p
-- 
2.43.0


From 57a1904051b14a86acd2c8f7731ebdba1cab3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 34/55] fix: the block before an unconditional branch does not
 go past it

---
 semantic_codec/static_analysis/cfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 71f93ca..489dd4f 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -166,6 +166,8 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+        # From now on the current node is the branch, which does not go on with the next unless it has link
+        cb = branch
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
-- 
2.43.0


From 4876b06c614307fb546717ee3b7fe3a2876c565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 35/55] fix: the register with the amount of a shift is used

---
 semantic_codec/architecture/capstone_instruction.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 80765fb..4f51941 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -3,11 +3,15 @@ import struct
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
-    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM
+    ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, \
+    ARM_SFT_ROR_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
 
+SHIFTS_BY_REGISTER = [ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, ARM_SFT_ROR_REG]
+
+
 class CAPSInstruction(Instruction):
 
     def __init__(self, encoding, position):
@@ -68,6 +72,11 @@ class CAPSInstruction(Instruction):
                     register = AReg.CAPSTONE_REGS[i.value.reg]
                 if not register in result:
                     result.append(register)
+                # The amount of the shift may be in another register
+                if i.shift.type in SHIFTS_BY_REGISTER:
+                    register = AReg.CAPSTONE_REGS[i.shift.value]
+                    if not register in result:
+                        result.append(register)
             if i.type == ARM_OP_MEM:
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
                 if i.value.mem.base != 0 and not register in result:
-- 
2.43.0


From f665b0c718d54b884725765e2ec3e798bcb4b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 36/55] fix: a load of several registers writes all of them

---
 semantic_codec/architecture/capstone_instruction.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 4f51941..1498779 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -94,6 +94,11 @@ class CAPSInstruction(Instruction):
         """
         if self.is_a('pop'):
             return self.registers_used()
+        elif self.is_a('ldm'):
+            # The list of registers, and the base if it is updated
+            result = self._get_register_list(self.encoding)
+            base = self.registers_used()[0]
+            return [base] + result if self._cap.writeback and base not in result else result
         elif self.is_a('push'):
             return []
         else:
@@ -107,6 +112,8 @@ class CAPSInstruction(Instruction):
 
         if self.is_a('pop'):
             result = []
+        elif self.is_a('ldm'):
+            result = self.registers_used()[:1]
         else:
             result = self.registers_used()[1:]
 
-- 
2.43.0


From c9cfa95014a953c7cdf2442c373552d3f9c1585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 37/55] fix: multiple loads and stores access the memory

---
 semantic_codec/architecture/capstone_instruction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 1498779..eca0bf2 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -4,7 +4,8 @@ from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MOD
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, \
-    ARM_SFT_ROR_REG
+    ARM_SFT_ROR_REG, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_STM, ARM_INS_STMDA, \
+    ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -150,9 +151,13 @@ class CAPSInstruction(Instruction):
     def _writes_to_memory(self):
         # If its an store
         return self._cap.id in [ARM_INS_STR, ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB,
-                                ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT]
+                                ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT,
+                                ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH]
 
     def _read_from_memory(self):
+        # Multiple loads have no memory operand
+        if self._cap.id in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP]:
+            return True
         for op in self._cap.operands:
             if op.type == ARM_OP_MEM:
                 return not self._writes_to_memory()
-- 
2.43.0


From cf5c5d6fc8e5034647bacac535a78aef2c7f5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 38/55] fix: only branches have the address they jump to as
 immediate

---
 semantic_codec/architecture/capstone_instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index eca0bf2..29805b5 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -192,7 +192,8 @@ class CAPSInstruction(Instruction):
         Jumping address for branching instructions
         """
         if self.is_branch:
-            if self._jumping_address is None:
+            # The immediate values of other instructions are not addresses, even if they write PC
+            if self._jumping_address is None and self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
                         self._jumping_address = op.value.imm
-- 
2.43.0


From 32fd6ede06819aa6b145b26608a1626ffb004602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 39/55] fix: store_packets must accept programs that do not
 fill their last packet

---
 store_packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store_packets.py b/store_packets.py
index a9a7b76..12734fa 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -5,6 +5,7 @@ Program to store packets into a file
 import os
 import struct
 import sys
+from math import ceil
 
 from bitarray import bitarray
 
@@ -42,7 +43,7 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    packet_count = ceil(len(original_program) * 4 / packet_size)  # <- Total bytes in data divided by packet_size
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From 3d07e530866a8e8ee072b0a2444b723c7b398f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 40/55] fix: no instruction was taken as modifying the flags
 when weighing the flow

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 2f03e0b..b9c8210 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -365,7 +365,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = i.modifies_flags()
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From e26699725d1d29a98c49c2649f0e3bdcf01f6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 41/55] fix: undefined candidates lowered the chance of equal
 conditionals

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b9c8210..b3865c1 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -403,7 +403,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -424,7 +424,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From 8ee71740be6f624291da25855d52470001e503f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 42/55] fix: a storage was taken as not written if the farthest
 instruction did not write it

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b3865c1..de59cf9 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -475,7 +475,7 @@ class ProbabilisticRecuperator(Recuperator):
                             count += 1
                 if t > 0:
                     p *= 1 - count / t
-                    if p == 1:
+                    if p == 0:
                         break
 
             prd = min(p, prd)
-- 
2.43.0


From 5d975f2368f67bd573fb89ab3c3b2f68b0cd635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 43/55] fix: a pop was never found to have the registers of its
 push

---
 semantic_codec/metadata/recuperator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index de59cf9..4d5b127 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -232,13 +232,14 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
         return c / t if t > 0 else 0
 
-    def _op_prob_and_check_equal_registers(self, opcode, addr, push_reg_readed):
+    def _op_prob_and_check_equal_registers(self, opcode, addr, regs):
         """
         This method computes the probability of a instruction with a given opcode of existing in an address.
-        It also checks if it has the same registers than the ones given in push_reg_readed.
+        It also checks if it has the same registers than the ones given (of a push or of a pop).
         Is ONLY meant for being called from _compute_push_pop
         """
         reg_equals_inst = False
+        push_reg_readed = regs
         c, t = 0, 0
         for i in self._program.get(addr, []):
             if not i.ignore:
@@ -250,6 +251,9 @@ class ProbabilisticRecuperator(Recuperator):
                     if not reg_equals_inst:
                         a = True
                         pop_reg_read = i.registers_written()
+                        if opcode == 'push':
+                            # It is the other way around: the registers given are those of the pop
+                            pop_reg_read, push_reg_readed = regs, i.registers_read()
                         for r in pop_reg_read:
                             if not (r in push_reg_readed or r is AReg.PC):
                                 a = False
-- 
2.43.0


From 77756b8fb7d1faa70509eb135aa08321a3407c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 44/55] fix: the packets of the cells before the diagonal were
 mirrored

---
 semantic_codec/interleaver/interleaver2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index 00856a8..5772e0b 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -159,7 +159,7 @@ def build_2d_interleave_matrix_blaum(message_size, packet_size, data_width=-1, d
     m = round(message_size / packet_size)
     b = round(sqrt(2 * m - 1))
 
-    return [[int(abs(fmod(x - y * b, m))) for x in range(data_width)] for y in range(data_height)]
+    return [[(x - y * b) % m for x in range(data_width)] for y in range(data_height)]
 
 
 def interleave(data, interleave_order, word_size=8):
-- 
2.43.0


From 734b7fd4a77a063cbfbe506243ae37be0c4d9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 45/55] fix: draw all edges of a graph when the names of nodes
 have dashes

---
 libs/dot/dotio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index fbd31bd..816deab 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -145,10 +145,11 @@ def write(G, weighted=False):
     #  our own set to keep track of what's been added or not.
     seen_edges = set([])
     for edge_from, edge_to in G.edges():
-        if (str(edge_from) + "-" + str(edge_to)) in seen_edges:
+        # Joined with a dash, the names of different edges may be the same
+        if (str(edge_from), str(edge_to)) in seen_edges:
             continue
 
-        if (not directed) and (str(edge_to) + "-" + str(edge_from)) in seen_edges:
+        if (not directed) and (str(edge_to), str(edge_from)) in seen_edges:
             continue
 
         attr_list = {}
@@ -168,7 +169,7 @@ def write(G, weighted=False):
 
         dotG.add_edge(newEdge)
 
-        seen_edges.add(str(edge_from) + "-" + str(edge_to))
+        seen_edges.add((str(edge_from), str(edge_to)))
 
     return dotG.to_string()
 
-- 
2.43.0


From 9511feba06520c0392233300d40e6c1a10350c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 46/55] fix: quote the names of nodes, so that a colon or a
 keyword is not taken for something else

---
 libs/dot/dotio.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index 816deab..ef6b20e 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -102,6 +102,13 @@ def read(string):
     return G
 
 
+def _quoted(name):
+    """
+    Name of a node between quotes, otherwise pydot takes what follows a colon for a port and 'node' for a keyword
+    """
+    return '"' + str(name).replace('"', '\\"') + '"'
+
+
 def write(G, weighted=False):
     """
     Return a string specifying the given graph in Dot language.
@@ -137,7 +144,7 @@ def write(G, weighted=False):
         for attr in G.node_attributes(node):
             attr_list[str(attr[0])] = str(attr[1])
 
-        newNode = pydot.Node(str(node), **attr_list)
+        newNode = pydot.Node(_quoted(node), **attr_list)
 
         dotG.add_node(newNode)
 
@@ -165,7 +172,7 @@ def write(G, weighted=False):
         if weighted:
             attr_list['weight'] = str(G.edge_weight((edge_from, edge_to)))
 
-        newEdge = pydot.Edge(str(edge_from), str(edge_to), **attr_list)
+        newEdge = pydot.Edge(_quoted(edge_from), _quoted(edge_to), **attr_list)
 
         dotG.add_edge(newEdge)
 
@@ -235,7 +242,7 @@ def write_hypergraph(hgr, colored=False):
 
     # Add all of the nodes first
     for node in hgr.nodes():
-        newNode = pydot.Node(str(node), hyper_node_type='hypernode')
+        newNode = pydot.Node(_quoted(node), hyper_node_type='hypernode')
 
         dotG.add_node(newNode)
 
@@ -245,16 +252,16 @@ def write_hypergraph(hgr, colored=False):
             colortable[hyperedge] = colors[colorcount % len(colors)]
             colorcount += 1
 
-            newNode = pydot.Node(str(hyperedge), hyper_node_type='hyperedge', \
+            newNode = pydot.Node(_quoted(hyperedge), hyper_node_type='hyperedge', \
                                  color=str(colortable[hyperedge]), \
                                  shape='point')
         else:
-            newNode = pydot.Node(str(hyperedge), hyper_node_type='hyperedge')
+            newNode = pydot.Node(_quoted(hyperedge), hyper_node_type='hyperedge')
 
         dotG.add_node(newNode)
 
         for link in hgr.links(hyperedge):
-            newEdge = pydot.Edge(str(hyperedge), str(link))
+            newEdge = pydot.Edge(_quoted(hyperedge), _quoted(link))
             dotG.add_edge(newEdge)
 
     return dotG.to_string()
-- 
2.43.0


From 8cb2b54e78949835b9fbc041ff0631cd641e3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 47/55] fix: dominators computed again kept the state of the
 previous time

---
 semantic_codec/static_analysis/cfg.py        | 14 ++++++++++----
 semantic_codec/static_analysis/dominators.py |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 489dd4f..201fac7 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -348,15 +348,21 @@ class CFGBlock(object):
         if len(self.instructions) == 0 and kind == CFGBlock.BLOCK:
             raise RuntimeError("A block instruction must have instructions")
 
-        # Predecessors and successors in the CFG graph
-        self.successors = []
-        self.predecessors = []
-
         # The phi functions of this node. Each entry in the dictionary is a phi function where the
         # key is the variable being assigned and the elements in the list are the parameters of the function
         # i.e. phi_functions[key] <- phi( phi_functions[key][0], ... phi_functions[key][n])
         self.phi_functions = {}
 
+        self.reset_dominance()
+
+    def reset_dominance(self):
+        """
+        Forgets all that was computed for the node when building the dominators of the graph
+        """
+        # Predecessors and successors in the CFG graph
+        self.successors = []
+        self.predecessors = []
+
         # Data relative to the Dominator tree
         self.dom_idx = -1
         # Parent in the DFS tree needed to find the dominator
diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index bc9c2b2..20c11f3 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -22,7 +22,10 @@ def build_dominator_tree(graph, root):
     """
     Builds the Lengauer Tarjan dominator tree algorithm
     """
-    # Initialization
+    # Initialization. The graph may have changed, or have another root, since the last time its dominators were computed
+    for n in graph:
+        n.reset_dominance()
+    graph._has_computed_dominance_frontier = False
     vertex = dominator_tree_dfs(graph, root, [])
     # Nodes that cannot be reached from the root take no part in the dominance
     for w in vertex:
-- 
2.43.0


From 84e290e17233ecd6655c083fea32095b368073c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 48/55] fix: the SSA form built again kept the names and phi
 functions of the previous one

---
 semantic_codec/static_analysis/ssa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index ce381e6..b30615a 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -109,6 +109,12 @@ class SSAFormBuilder(object):
         self._instructions = instructions
 
     def build(self):
+        # Forget the form of a previous build
+        for n in self._graph:
+            n.phi_functions = {}
+            for inst in n.instructions:
+                del inst.ssa_read[:]
+                del inst.ssa_written[:]
         # Compute the Dominators tree
         build_dominator_tree(self._graph, self._root)
         # Compute dominance frontiers
-- 
2.43.0


From b98879789c3de9d52629b51922eb0bebca238d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 49/55] fix: the solution designated the first candidate that
 reads as the original, not the original

---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index cf5ec3e..e599401 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -174,7 +174,7 @@ class AbstractForwardConstraintSolutionBuilder(object):
 
     def _find_address_correct_index(self, pa, ori, ln):
         index = 0
-        while index < ln and str(pa[index]) != str(ori):
+        while index < ln and pa[index].encoding != ori.encoding:
             index += 1
         if index == ln:
             raise RuntimeError('Impossible')
-- 
2.43.0


From 1abdf7b8d37f83f580e6695e6927e7df0337485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 50/55] fix: the depth was that of the first candidate that
 reads as the original

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index e4e9da2..632b24c 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -105,7 +105,7 @@ class SolutionQuality(object):
 
             i = 0
             ln = len(v)
-            while i < ln and str(v[i]) != str(self._original_program[k]):
+            while i < ln and v[i].encoding != self._original_program[k].encoding:
                 i += 1
 
             if not ln in self._highest_depth_bin:
-- 
2.43.0


From 5e9dab876e8fa3af962dee7c1ddbb800d5799e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 51/55] fix: scores and encodings close to each other were not
 told apart when sorting the candidates

---
 semantic_codec/solution/solution_quality.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 632b24c..d3b6c18 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -1,4 +1,3 @@
-import sys
 from math import log
 
 from semantic_codec.metadata.recuperator import probabilistic_rules
@@ -94,11 +93,7 @@ class SolutionQuality(object):
                 continue
             addr = self._original_program[k].address
             v = self._program[addr]
-            min_encoding = sys.maxsize
-            for inst in v:
-                if inst.encoding < min_encoding:
-                    min_encoding = inst.encoding
-            v.sort(key=lambda x: x.score() * 1000000000 + (min_encoding / x.encoding if x.encoding else 1), reverse=True)
+            v.sort(key=lambda x: (-x.score(), x.encoding))
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From 6df2c406a5315c5a4df816f7ea5f5d7621d2b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 52/55] fix: swaps, coprocessor and floating point stores write
 memory

---
 semantic_codec/architecture/capstone_instruction.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 29805b5..d0a71cf 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -5,7 +5,8 @@ from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, AR
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, \
     ARM_SFT_ROR_REG, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_STM, ARM_INS_STMDA, \
-    ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH
+    ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH, ARM_INS_SWP, ARM_INS_SWPB, ARM_INS_STC, ARM_INS_STCL, ARM_INS_STC2, \
+    ARM_INS_STC2L, ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH, ARM_INS_VLDMIA, ARM_INS_VLDMDB, ARM_INS_VPOP
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -152,11 +153,15 @@ class CAPSInstruction(Instruction):
         # If its an store
         return self._cap.id in [ARM_INS_STR, ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB,
                                 ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT,
-                                ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH]
+                                ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH,
+                                # Swaps, and the stores of coprocessors and of the floating point unit
+                                ARM_INS_SWP, ARM_INS_SWPB, ARM_INS_STC, ARM_INS_STCL, ARM_INS_STC2, ARM_INS_STC2L,
+                                ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH]
 
     def _read_from_memory(self):
-        # Multiple loads have no memory operand
-        if self._cap.id in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP]:
+        # Multiple loads have no memory operand, and swaps read as well as they write
+        if self._cap.id in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_VLDMIA,
+                            ARM_INS_VLDMDB, ARM_INS_VPOP, ARM_INS_SWP, ARM_INS_SWPB]:
             return True
         for op in self._cap.operands:
             if op.type == ARM_OP_MEM:
-- 
2.43.0


From 600a769ebf2a67d917a117843a0421da0e648a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 53/55] fix: BXJ is a branch

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index d0a71cf..250f62d 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -1,7 +1,7 @@
 import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
-from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
+from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BXJ, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB, ARM_INS_STREXD, ARM_INS_STREXH, \
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, \
     ARM_SFT_ROR_REG, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_STM, ARM_INS_STMDA, \
@@ -174,7 +174,7 @@ class CAPSInstruction(Instruction):
         """
         Return if the instruction is a branching instruction
         """
-        return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX] or \
+        return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BXJ, ARM_INS_BL, ARM_INS_BLX] or \
                AReg.PC in self.registers_written()
 
     @property
-- 
2.43.0


From ed947f330c7f4c1a9c746b61794049e4ee07f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 54/55] fix: moving to the status register changes the flags

---
 semantic_codec/architecture/capstone_instruction.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 250f62d..f6ccf39 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -6,9 +6,11 @@ from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, AR
     ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, \
     ARM_SFT_ROR_REG, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_STM, ARM_INS_STMDA, \
     ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH, ARM_INS_SWP, ARM_INS_SWPB, ARM_INS_STC, ARM_INS_STCL, ARM_INS_STC2, \
-    ARM_INS_STC2L, ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH, ARM_INS_VLDMIA, ARM_INS_VLDMDB, ARM_INS_VPOP
+    ARM_INS_STC2L, ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH, ARM_INS_VLDMIA, ARM_INS_VLDMDB, ARM_INS_VPOP, \
+    ARM_INS_MSR, ARM_INS_MRC
 
 from semantic_codec.architecture.arm_constants import AReg
+from semantic_codec.architecture.bits import Bits
 from semantic_codec.architecture.instruction import Instruction
 
 SHIFTS_BY_REGISTER = [ARM_SFT_ASR_REG, ARM_SFT_LSL_REG, ARM_SFT_LSR_REG, ARM_SFT_ROR_REG]
@@ -215,6 +217,11 @@ class CAPSInstruction(Instruction):
         return None
 
     def modifies_flags(self):
+        # Capstone does not tell the writes of the status: an MSR to the flags of the CPSR, or an MRC to them
+        if self._cap.id == ARM_INS_MSR:
+            return Bits.is_on(self.encoding, 19) and not Bits.is_on(self.encoding, 22)
+        if self._cap.id == ARM_INS_MRC:
+            return self.encoding & 0xf000 == 0xf000
         return self._cap.update_flags
         #return AReg.CPSR in self.storages_written()
 
-- 
2.43.0


From 1e836e20f6279cc656c83042720efb321e2b38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 55/55] fix: stores of vectors write memory

---
 semantic_codec/architecture/capstone_instruction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index f6ccf39..256666a 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -7,7 +7,7 @@ from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, AR
     ARM_SFT_ROR_REG, ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_POP, ARM_INS_STM, ARM_INS_STMDA, \
     ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH, ARM_INS_SWP, ARM_INS_SWPB, ARM_INS_STC, ARM_INS_STCL, ARM_INS_STC2, \
     ARM_INS_STC2L, ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH, ARM_INS_VLDMIA, ARM_INS_VLDMDB, ARM_INS_VPOP, \
-    ARM_INS_MSR, ARM_INS_MRC
+    ARM_INS_MSR, ARM_INS_MRC, ARM_INS_VST1, ARM_INS_VST2, ARM_INS_VST3, ARM_INS_VST4
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.bits import Bits
@@ -156,9 +156,10 @@ class CAPSInstruction(Instruction):
         return self._cap.id in [ARM_INS_STR, ARM_INS_STRB, ARM_INS_STRBT, ARM_INS_STRD, ARM_INS_STREX, ARM_INS_STREXB,
                                 ARM_INS_STREXD, ARM_INS_STREXH, ARM_INS_STRH, ARM_INS_STRHT, ARM_INS_STRT,
                                 ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB, ARM_INS_PUSH,
-                                # Swaps, and the stores of coprocessors and of the floating point unit
+                                # Swaps, and the stores of coprocessors, of the floating point unit and of vectors
                                 ARM_INS_SWP, ARM_INS_SWPB, ARM_INS_STC, ARM_INS_STCL, ARM_INS_STC2, ARM_INS_STC2L,
-                                ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH]
+                                ARM_INS_VSTR, ARM_INS_VSTMIA, ARM_INS_VSTMDB, ARM_INS_VPUSH, ARM_INS_VST1, ARM_INS_VST2,
+                                ARM_INS_VST3, ARM_INS_VST4]
 
     def _read_from_memory(self):
         # Multiple loads have no memory operand, and swaps read as well as they write
-- 
2.43.0

