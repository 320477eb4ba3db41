From 03f3c65f704d48e69f572c5b87b302b27c39d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 01/30] fix: JonesSummand.dimension for the one-dimensional
 representation r = 0

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..2ca70c0 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,10 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        # math.comb errors if it gets a negative second argument.
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From ed372faf55666adcf6e91e1f2363981ab4d1d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/30] fix: nf_suffixes must not repeat the Garside power of
 the braid

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..723015a 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From 8e782962d7b4adcd63601e167731bf71411a05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 03/30] fix: allocate a new bucket's images before registering
 the bucket

---
 peyl/braidsearch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 2ca70c0..383da6b 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -446,14 +446,16 @@ class Tracker:
             bucket = (lengths[i], projlens[i])
 
             if bucket not in self.buckets:
+                # Allocate first: if this runs out of memory, the bucket must not be left half-made.
+                image = polymat.projectivise(image)
+                bucket_images = np.zeros(shape=(self.bucket_size, *image.shape), dtype=image.dtype)
+                bucket_images[0, :, :, :] = image
                 self.buckets |= {bucket}
                 self.bucket_braids[bucket] = [braid]
                 self.bucket_braid_set[bucket] = {braid}
                 # self.bucket_heap[bucket] = [(-minstat[i], 0)]
                 self.bucket_reservoir_counts[bucket] = 1
-                image = polymat.projectivise(image)
-                self.bucket_images[bucket] = np.zeros(shape=(self.bucket_size, *image.shape), dtype=image.dtype)
-                self.bucket_images[bucket][0, :, :, :] = image
+                self.bucket_images[bucket] = bucket_images
                 kept += [i]
                 continue
 
-- 
2.43.0


From 3a5b91f763b7eecf260f679f89288e749ff6023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 04/30] fix: valiate_buckets of the search tracker evaluates
 with its own representation

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 383da6b..12cd312 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -412,7 +412,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From e0d77cc802778eb5199256255205e3288e1fa5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/30] fix: projectivise inverse generators in
 polymat_artin_gens_invs

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..25902ea 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -117,7 +117,7 @@ class RepBase:
         """
         gens, invs = self.artin_gens_invs()
         matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 169a1a4ff9ec873da90a3abd9abb763635ac2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 06/30] fix: all_of_garside_length honours its power argument

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 723015a..ee9236e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 76b35c556b8ac8b59bbf5e566be488d2db1e7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 07/30] fix: A-Chao acceptance probability scales with the
 reservoir size

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..3faeecd 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if self.rand.random() <= bucket.capacity * weight / bucket.reservoir_weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 0bf6164e96780ec17bd66033c658d5b25e8ca9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 08/30] fix: A-Chao must not divide by zero while all weights
 seen are zero

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 3faeecd..2ee1cbd 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= bucket.capacity * weight / bucket.reservoir_weight:
+                        if bucket.reservoir_weight > 0 and self.rand.random() <= bucket.capacity * weight / bucket.reservoir_weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 4701c6b4f6b246e0d362ba831ae08d26d3220b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 09/30] fix: factors outside the divisor table are not a normal
 form

---
 peyl/braid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index ee9236e..4c01350 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -84,6 +84,9 @@ class NFTable(Generic[T]):
         no D's appear at the start, no identities appear at the back, and
         every other pair (x, y) is in normal form.
         """
+        # Out of range indices name no divisor (and negative ones would silently wrap around in the tables).
+        if not all(0 <= x < self.order for x in factors):
+            return False
         for i in range(len(factors) - 1):
             if not self.is_normalised[factors[i]][factors[i+1]]:
                 return False
-- 
2.43.0


From 6558cdcdb638718fcd88a4bcd85307b4da14db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 10/30] fix: convert_braid rejects stored data with non-integer
 fields

---
 peyl/braid.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4c01350..aee8e8c 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -808,10 +808,16 @@ def convert_braid(data: bytes) -> NFBase:
     Read a braid out of SQLite into an object.
     """
     if data.startswith(b'GNF'):
-        return GNF(*ast.literal_eval(data[3:].decode('utf-8')))
-    if data.startswith(b'DGNF'):
-        return DGNF(*ast.literal_eval(data[4:].decode('utf-8')))
-    raise ValueError(f"Could not convert {data!r} to a braid.")
+        cls, fields = GNF, data[3:]
+    elif data.startswith(b'DGNF'):
+        cls, fields = DGNF, data[4:]
+    else:
+        raise ValueError(f"Could not convert {data!r} to a braid.")
+
+    n, power, factors = ast.literal_eval(fields.decode('utf-8'))
+    if not all(type(x) is int for x in (n, power, *factors)):
+        raise ValueError(f"Could not convert {data!r} to a braid.")
+    return cls(n, power, factors)
 
 
 def register_sqlite3_adapters():
-- 
2.43.0


From 9c6e24f378ad4c9764ec57df6d3e7171e8003047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 11/30] fix: reduce powers of the dual Garside element mod p
 when evaluating

---
 peyl/jonesrep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 25902ea..2e81eaa 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,9 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        # Evaluate the word of the power, rather than taking a power of the matrix, so that the result is reduced mod p.
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From e9b30d18445dec5557b65d34fd1ae8ef8071d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 12/30] fix: generators and dual tables on one and two strands

---
 peyl/braid.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index aee8e8c..169c6cc 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -310,11 +310,11 @@ class NParTable(NFTable[NPar]):
         # Tau
         table.tau_left[0] = list(range(order))
         table.tau_right[0] = list(range(order))
-        table.tau_left[1] = [index[npar.left_complement().left_complement()] for npar in npars]
-        table.tau_right[1] = [index[npar.right_complement().right_complement()] for npar in npars]
-        for i in range(2, n):
-            table.tau_left[i] = [table.tau_left[1][table.tau_left[i-1][x]] for x in range(order)]
-            table.tau_right[i] = [table.tau_right[1][table.tau_right[i-1][x]] for x in range(order)]
+        left = [index[npar.left_complement().left_complement()] for npar in npars]
+        right = [index[npar.right_complement().right_complement()] for npar in npars]
+        for i in range(1, n):
+            table.tau_left[i] = [left[table.tau_left[i-1][x]] for x in range(order)]
+            table.tau_right[i] = [right[table.tau_right[i-1][x]] for x in range(order)]
 
 
         # Pairs
@@ -370,7 +370,8 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        # Not cls(n, 0, (f,)): on two strands the generator is the Garside element.
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -650,7 +651,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -729,8 +730,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -740,8 +740,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: DGNF.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: DGNF.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 8df1b584124b7537525ebfa41c5f686ea883c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 13/30] fix: Matrix.is_symmetric compares all entries, not only
 the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..27391d9 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From 29f68e8dd329db1e57df254c2190c5d86415072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 14/30] fix: Matrix.row checks its argument against the number
 of rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 27391d9..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From dd87d2e2d8fcb20f92ddbf9b7e003d56e7346831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 15/30] fix: subtracting something else from a Matrix raises
 instead of giving None

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From 8831084ef0cbbea78ba493570a27d754cf8b415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:12 +0000
Subject: [PATCH 16/30] fix: TLExtDiag composition puts the left factor on top,
 as documented

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..0bf0965 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From b8dbdf34b1d2078b86144024118d580ccccaad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:13 +0000
Subject: [PATCH 17/30] fix: TLMor.flip keeps v when told not to twist

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 0bf0965..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 9df7e8706c7de25b0fee6ebfecf4c010d38e42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 18/30] fix: JonesRep includes the last cell module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From e6ff17f0afd28d8c4a4b7fd764076389208a1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:00 +0000
Subject: [PATCH 19/30] fix: SymmetricGroup.from_cycle takes cycles shorter
 than n

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..5c21124 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -368,7 +368,7 @@ class SymmetricGroup:
         assert max(collections.Counter(cycle).values()) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1) % len(cycle)]
 
         return Permutation(tuple(word))
 
-- 
2.43.0


From 459992cec94fe98a1d082c42459c8d17c86c3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:01 +0000
Subject: [PATCH 20/30] fix: SymmetricGroup.from_cycles starts from the
 identity element

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 5c21124..828db54 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -375,7 +375,7 @@ class SymmetricGroup:
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 2349fe1234c45d40550994bfde1c45b08b91e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:23 +0000
Subject: [PATCH 21/30] fix: Permutation and SymmetricGroup check their
 arguments

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 828db54..f068f19 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From d541da75a289d2890fd34eff4bf1913f70439a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:49 +0000
Subject: [PATCH 22/30] fix: NPar checks that its involution is a crossingless
 matching

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From 8ad43d45ecee86b3ee466434372b39cb4684c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:07 +0000
Subject: [PATCH 23/30] fix: NPar.from_components reads its components once

---
 peyl/noncrossing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 18fc7f2..9644f5a 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -137,6 +137,7 @@ class NPar:
         >>> NPar.coarsest(4) == NPar.from_components(4, [[0, 1, 3, 2]])
         True
         """
+        components = [tuple(comp) for comp in components]
         if not are_pairwise_disjoint(components):
             raise ValueError(f"The components {components} do not form a partition.")
 
-- 
2.43.0


From 11e1ecab7e29e6ee6132d92819f2c273f6a5ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 24/30] fix: LKBRep returns the inverses of the generators as
 their inverses

---
 peyl/jonesrep.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 2e81eaa..9cc3e72 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -296,7 +296,7 @@ class LKBRep(RepBase):
     def artin_gens_invs(self) -> tuple[list[Matrix], list[Matrix]]:
         t, q = self.t, self.q
         self.dimension()
-        gens = []
+        gens, invs = [], []
         for s in range(self.n - 1):
             gen: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {(i, j): {} for i in range(self.n) for j in range(i + 1, self.n)}
             for (i, j), col in gen.items():
@@ -328,4 +328,33 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+            # The inverse of the above, found by solving for each basis element.
+            inv: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {pair: {} for pair in gen}
+            for (i, j), col in inv.items():
+                if i == s and j == s + 1:
+                    col[i, j] = t**-1 * q**-2
+                elif i < s and j == s:
+                    col[i, j+1] = 1
+                    col[s, s+1] = q**(s - i - 1) * (1 - q)
+                elif i < s and j == s + 1:
+                    col[i, j-1] = q**-1
+                    col[i, j] = 1 - q**-1
+                    col[s, s+1] = -q**(s - i - 2) * (1 - q)**2
+                elif i == s and s + 1 < j:
+                    col[i+1, j] = 1
+                    col[i, j] = 1 - q**-1
+                    col[s, s+1] = -q**-2 * (1 - q)**2
+                elif i == s + 1 and s + 1 < j:
+                    col[i-1, j] = q**-1
+                    col[s, s+1] = q**-2 * (1 - q)
+                else:
+                    col[i, j] = 1
+                    if i < s and s + 1 < j:
+                        col[s, s+1] = -q**(s - i - 2) * (1 - q)**2
+
+            invs += [Matrix.from_rows([
+                [LPoly.coerce(inv[col].get(row, 0)) for col in inv]
+                for row in inv
+            ])]
+
+        return gens, invs
-- 
2.43.0


From 130b33c10655e1d13320979ad2312ea483f3f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 25/30] fix: polymat_artin_gens_invs handles generators with
 negative powers

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 9cc3e72..e799ee6 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,7 +116,7 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
+        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in gens])
         matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in invs])
         if self.p != 0:
             matgens %= self.p
-- 
2.43.0


From b2e501ec33af26427c7431eaf2e8ac9d01d18fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 26/30] fix: polymat.mul raises OverflowError instead of
 wrapping around silently

---
 peyl/polymat.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..dc29160 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -58,6 +58,8 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
 
     where (α · β) denotes the broadcasting of shapes according to numpy rules. The last dimension
     P is not necessarily minimal: use trim() or projectivise() to normalise the result.
+
+    The product has the dtype of A. If an entry of an integer product does not fit, OverflowError is raised.
     """
     assert len(A.shape) >= 3 and len(B.shape) >= 3, "Inputs must have length at least 3."
     *alpha, I, J, D = A.shape
@@ -68,6 +70,18 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
     P = D + E - 1 if quotdeg is None else quotdeg
     prefix = np.broadcast_shapes(alpha, beta)
 
+    # Numpy integers wrap around silently. If that might happen, take the product of a wider type and check that it fits.
+    dtype = A.dtype
+    if np.issubdtype(dtype, np.integer) and A.size > 0 and B.size > 0:
+        bound = J * min(D, E) * max(int(A.max()), -int(A.min())) * max(int(B.max()), -int(B.min()))
+        if bound > np.iinfo(dtype).max:
+            wide = np.int64 if bound <= np.iinfo(np.int64).max else object
+            parts = mul(A.astype(wide), B.astype(wide), quotdeg)
+            if parts.size > 0 and (parts.max() > np.iinfo(dtype).max or parts.min() < np.iinfo(dtype).min):
+                raise OverflowError(f"An entry of the product does not fit in {dtype}.")
+
+            return parts.astype(dtype)
+
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
     # and filling in each part.
     parts = np.zeros((*prefix, I, K, P), dtype=A.dtype)
-- 
2.43.0


From 613599ec239d9b177bdaddcd2c749fe9273b5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 27/30] fix: Tracker.substrings tries all proper substrings

Substrings that start with the first factor or end with one of the last two were left out.
---
 peyl/braidsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 12cd312..a1b12e1 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -516,9 +516,9 @@ class Tracker:
         assert bucket in self.buckets
         braids = self.bucket_braids[bucket]
         length = braids[0].garside_length()
-        for i in range(1, length - 1):
+        for i in range(length - 1):
             images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
-            for j in range(i+2, length - 1):
+            for j in range(i + 2, length + (i > 0)):
                 self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
 
     def bootstrap_exhaustive(self, upto_length: int):
-- 
2.43.0


From 7d86694f25a88a529cc09109df5646f60b124e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:20 +0000
Subject: [PATCH 28/30] fix: refuse words in generators with negative indices
 instead of wrapping around

---
 peyl/braid.py    | 4 ++++
 peyl/jonesrep.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 169c6cc..cc6359e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -568,6 +568,8 @@ class GNF(NFBase[Permutation]):
         factors = []
         delta_pows = []
         for i, e in word:
+            if not 0 <= i < n - 1:
+                raise ValueError(f"There is no Artin generator {i} on {n} strands.")
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
@@ -678,6 +680,8 @@ class DGNF(NFBase[NPar]):
         factors = []
         delta_pows = []
         for i, e in word:
+            if not 0 <= i < n - 1:
+                raise ValueError(f"There is no Artin generator {i} on {n} strands.")
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index e799ee6..21a605f 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -83,6 +83,10 @@ class RepBase:
 
     def evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation."""
+        word = list(word)
+        if not all(0 <= i < self.n - 1 for i, _ in word):
+            raise ValueError(f"The word {word} uses generators that do not exist on {self.n} strands.")
+
         gens, invs = self.artin_gens_invs()
         product: Matrix = functools.reduce(operator.mul, [gens[i]**e if e >= 0 else invs[i]**abs(e) for i, e in word], self.id())
         if self.p != 0:
@@ -142,6 +146,10 @@ class RepBase:
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
+        word = list(word)
+        if not all(0 <= i < self.n - 1 for i, _ in word):
+            raise ValueError(f"The word {word} uses generators that do not exist on {self.n} strands.")
+
         gens, invs = self.polymat_artin_gens_invs()
         product = self.polymat_id()
         for i, e in word:
-- 
2.43.0


From 2d656a1976319dc0c9761071e3ee52c6a5e24a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 29/30] fix: do not evaluate braids on another number of
 strands by the wrong tables

---
 peyl/jonesrep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 21a605f..9517121 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -180,6 +180,8 @@ class RepBase:
         length = braids[0].canonical_length()
         cls = braids[0].__class__
         assert all(braid.canonical_length() == length and braid.__class__ == cls for braid in braids)
+        # Factors are indices into the tables of a particular number of strands.
+        assert all(braid.n == self.n for braid in braids), f"These are not braids on {self.n} strands."
 
         # First get all the powers of delta packed together.
         table = cls._nf_table(self.n)
-- 
2.43.0


From d06d642b183018870118ec4aa6f333f9efa5663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:36 +0000
Subject: [PATCH 30/30] fix: descend buckets of powers of the Garside element
 in the bucketing tracker

---
 peyl/bucketing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 2ee1cbd..c56da11 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,22 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        # A power of the Garside element has no last factor, and any factor can follow it.
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: last_factors[sorted_indices[i]]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = braids[0].canonical_factor(-1) if braids[0].factors else type(braids[0])
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0

