From 8cb3e85c69058c4bb60ae3bc2a0fe01f5df0694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 01/58] fix: discard cached decompositions when a matrix is
 modified by a vector in place

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..fa60751 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -550,6 +550,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-- 
2.43.0


From f6796ea5a65af5ded1073328f0b702c9fd7ceb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 02/58] fix: discard cached decompositions when the diagonal is
 filled in place

---
 src/wai/ma/core/matrix/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From 655eb067726ddc7d583552beee75f76793d1f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 03/58] fix: compute the singular values on demand instead of
 reading an absent decomposition

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index fa60751..34b028e 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From 6fcb041ab0fec760162f4e528908e47b9123d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:29 +0000
Subject: [PATCH 04/58] fix: return a copy of the cached eigenvector matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 34b028e..97d289c 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From 5709c0096ad62013b726e7a847e58c432958e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 05/58] fix: contains_NaN never found a NaN

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 97d289c..81a2f0a 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -464,10 +464,7 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
-        def element_is_NaN(el):
-            return el == NaN
-        return self.any(element_is_NaN)
+        return self.any(np.isnan)
 
     def any(self, function: Callable[[real], bool]) -> bool:
         for row in range(self.num_rows()):
-- 
2.43.0


From 7ec979971637b9206c5be0f2a7c81f21066d18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 06/58] fix: matrix equality raised on different shapes and
 rejected equal infinities

---
 src/wai/ma/core/matrix/_Matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 81a2f0a..1f543fd 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -507,9 +507,7 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
-        diff: Matrix = self.sub(other)
-
-        return not diff.data.any()
+        return np.array_equal(self.data, other.data)
 
     def __hash__(self):
         # TODO
-- 
2.43.0


From 70e33531a902fd1f11dec0693e870df53e9a6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 07/58] fix: max_index always returned 1

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From 3b4f6e4386a02da319723e6568f20d4d9eba355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:44 +0000
Subject: [PATCH 08/58] fix: sort gave unsorted indices for lists of plain
 numbers

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..b6f2266 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        array = to_real_list(array)
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 4056f2be03b15e5d7003963118b063c88687cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 09/58] fix: NaN was not formatted with its special name

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index b6f2266..63134ff 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if np.isnan(value):
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From cc867daa4994ce7a0080e6efc67cc9fd4087e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:16 +0000
Subject: [PATCH 10/58] fix: sort did not treat NaN as the maximum value, as
 documented

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 63134ff..42d163d 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = to_real_list(array)
+        array = [np.finfo(real).max if np.isnan(x) else x for x in to_real_list(array)]
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 2a7188f70109e564786eaf2655eb959325bbac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 11/58] fix: Standardize divided by zero for constant columns
 other than the first

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 16df07ad8f9ce403dfe3970a0efa742418e8f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 12/58] fix: serialise_big_int left no room for the sign bit

---
 src/wai/ma/core/_Serialisable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..61edc80 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -92,11 +92,11 @@ class Serialisable(ABC):
         :param value:   The integer to serialise.
         :return:        The bytes representation of the value.
         """
-        # Get the number of bits required to represent this value.
-        bit_length: int = value.bit_length()
+        # Get the number of bits required to represent this value (without its sign).
+        bit_length: int = (value if value >= 0 else ~value).bit_length()
 
-        # Get the number of bytes required to represent this value
-        byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
+        # Get the number of bytes required to represent this value and its sign bit
+        byte_length: int = bit_length // 8 + 1
 
         # Get the binary representation of the integer
         b = value.to_bytes(byte_length, "little" if LITTLE_ENDIAN else "big", signed=True)
-- 
2.43.0


From f5ef307b5713a9e8db5c740a783528dbaa20c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 13/58] fix: save_state failed for a filename without a
 directory

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 61edc80..2f58910 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From 0f803e0af7b4b0d28c84ab63d269e4df55b974fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 14/58] fix: Log serialised an integer base or offset in a
 different format

---
 src/wai/ma/transformation/_Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Log.py b/src/wai/ma/transformation/_Log.py
index 913b018..4990b76 100644
--- a/src/wai/ma/transformation/_Log.py
+++ b/src/wai/ma/transformation/_Log.py
@@ -86,6 +86,6 @@ class Log(AbstractTransformation, Serialisable):
 
     def serialise_state(self, stream: IO[bytes]):
         # Serialise out our base, base-conversion factor and offset
-        stream.write(self.serialise_to_bytes(self.base))
+        stream.write(self.serialise_to_bytes(float(self.base)))
         stream.write(self.serialise_to_bytes(self._base_conversion_factor()))
-        stream.write(self.serialise_to_bytes(self.offset))
+        stream.write(self.serialise_to_bytes(float(self.offset)))
-- 
2.43.0


From 62ecda55af19b3a6f4913be0bb9727b4411d035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 15/58] fix: reading an empty stream raised a TypeError instead
 of the intended error

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 7297c35954e6c59e0c23d711741062502b58a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 16/58] fix: CCAFilter kept centring with the means of its
 first training set

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..20c4ca1 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None or y is None:
-- 
2.43.0


From 34f548cd24d28f8936a59925070b4cf36d9fe6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 17/58] fix: FastICA kept the means and sources of an earlier
 data set

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..5255676 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -73,6 +73,8 @@ class FastICA(AbstractAlgorithm, Filter):
         self.components = None
         self.mixing = None
         self.whitening = None
+        self.sources = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From 59905c7c20e0aac95604543712f05cb3b00c9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 18/58] fix: SIMPLS kept its Q matrix after a reset

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 01ea2461bb9ef8ab673a6890dc78d804cda2813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 19/58] fix: OPLS kept its filtered training data after a reset

---
 src/wai/ma/algorithm/pls/_OPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..ab11baa 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
-- 
2.43.0


From a091a46dca58439cefa8d6d0280b6d184d0e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 20/58] fix: changing norm_Y_weights or deflation_mode left
 NIPALS trained with the old setting

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..4b2b733 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -76,6 +76,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_tol(value: real) -> bool:
         return value >= ZERO
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     def get_min_columns_response(self) -> int:
         return 1
 
-- 
2.43.0


From 7ef7e2eb3bd2590b57f6d155c4541da71b497940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 21/58] fix: changing PowerTransformer.standardise after
 configuration was ignored

---
 src/wai/ma/transformation/_PowerTransformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..0edd067 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,9 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, standardise: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 080756f3c77689ed2fbc76c5eb61216ee5e2e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 22/58] fix: changing QuantileTransformer settings after
 configuration was ignored

---
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..564455c 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,18 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, n_quantiles: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, ignore_implicit_zeroes: bool):
+        pass
+
+    def validate_subsample(self, subsample: int):
+        pass
+
+    def validate_random_state(self, random_state: Optional[int]):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 0444cf04f4ebffa9cfa98cece86508ad95bf8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 23/58] fix: changing RobustScaler centering/scaling after
 configuration was ignored

---
 src/wai/ma/transformation/_RobustScaler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..6739406 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -51,6 +51,12 @@ class RobustScaler(AbstractTransformation):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
                              f"Got q_min={selection[0]}, q_max={selection[1]}")
 
+    def validate_with_centering(self, with_centering: bool):
+        pass
+
+    def validate_with_scaling(self, with_scaling: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 89c3f524556e070d1ba2ba7145350fc52872a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 24/58] fix: changing the FastICA function or algorithm left
 the old results in place

---
 src/wai/ma/algorithm/ica/_FastICA.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 5255676..3ac3d58 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -58,6 +58,14 @@ class FastICA(AbstractAlgorithm, Filter):
     def validate_tol(value: float) -> bool:
         return value >= 0.0
 
+    @staticmethod
+    def validate_fun(value: NegEntropyApproximationFunction) -> bool:
+        return True
+
+    @staticmethod
+    def validate_algorithm(value: 'Algorithm') -> bool:
+        return True
+
     def initialize(self):
         super().initialize()
         self.num_components = 5
-- 
2.43.0


From 1d23520b70ff781c91b81cf8fb0c4485c4e133ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 25/58] fix: changing the DIPLS adaption strategy left the
 model trained with the old one

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..cc87a51 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -71,6 +71,10 @@ class DIPLS(AbstractSingleResponsePLS):
     def validate_lambda_(value: real) -> bool:
         return abs(value) >= 1e-8
 
+    @staticmethod
+    def validate_model_adaption_strategy(value: 'ModelAdaptionStrategy') -> bool:
+        return True
+
     def get_matrix_names(self) -> List[str]:
         return ['T', 'Ts', 'Tt',
                 'Wdi',
-- 
2.43.0


From 050327781b2cb420c4a199a32ef013f058dc103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 26/58] fix: multi-response PLS restored every response with
 the mean/stdev of the first one

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From a4aae87a50f58400aa1d9ed3d4aaf2f5926eea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 27/58] fix: PLS predictions and transforms ignored the
 preprocessing of the predictors

---
 .../ma/algorithm/pls/_AbstractMultiResponsePLS.py  | 14 +++++++++++++-
 src/wai/ma/algorithm/pls/_AbstractPLS.py           | 14 +++++++++++++-
 .../ma/algorithm/pls/_AbstractSingleResponsePLS.py | 14 +++++++++++++-
 src/wai/ma/algorithm/pls/_OPLS.py                  |  2 +-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..688d64b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -126,6 +126,18 @@ class AbstractMultiResponsePLS(AbstractPLS):
 
         return result
 
+    def preprocess(self, predictors: Matrix) -> Matrix:
+        """
+        Applies the preprocessing that was determined during training
+        to the predictors.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+        return predictors
+
     def do_predict(self, predictors: Matrix) -> Matrix:
         """
         Performs predictions on the data.
@@ -133,7 +145,7 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        result = self.do_perform_predictions(predictors)
+        result = self.do_perform_predictions(self.preprocess(predictors))
         if self.trans_response is not None:
             for i in range(result.num_rows()):
                 for j in range(result.num_columns()):
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..e692142 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -179,7 +179,19 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         if not self.is_initialised():
             raise RuntimeError('Algorithm has not been initialised!')
 
-        return self.do_transform(predictors)
+        return self.do_transform(self.preprocess(predictors))
+
+    def preprocess(self, predictors: Matrix) -> Matrix:
+        """
+        Applies the preprocessing that was determined during training
+        to the predictors.
+
+        Default implementation does nothing.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        return predictors
 
     @abstractmethod
     def do_perform_initialization(self, predictors: Matrix, response: Matrix) -> Optional[str]:
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..71158eb 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -87,6 +87,18 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
 
         return result
 
+    def preprocess(self, predictors: Matrix) -> Matrix:
+        """
+        Applies the preprocessing that was determined during training
+        to the predictors.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+        return predictors
+
     def do_predict(self, predictors: Matrix) -> Matrix:
         """
         Performs predictions on the data.
@@ -94,7 +106,7 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        result = self.do_perform_predictions(predictors)
+        result = self.do_perform_predictions(self.preprocess(predictors))
         if self.trans_response is not None:
             for i in range(result.num_rows()):
                 result.set(i, 0, result.get(i, 0) * self.class_std_dev + self.class_mean)
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index ab11baa..e6cb83c 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -190,5 +190,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From 06840ee9acd227d9497702bfeec2e0886c4b29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:53 +0000
Subject: [PATCH 28/58] fix: OPLS reported success when its base PLS could not
 be trained

---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index e6cb83c..32114ea 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -148,9 +148,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From 598631749c267a4f8e275530bb3891df971884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 29/58] fix: EPO failed when N exceeded the number of columns

---
 src/wai/ma/algorithm/glsw/_EPO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..1b516dc 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From 29fb329ef32ff619882d823b1f43af4695fb6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 30/58] fix: YGradientEPO failed when N exceeded the number of
 columns

---
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..ee63b44 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From b44e811c562c2026f7cf6f022d9d7a95b641a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 31/58] fix: creating a random matrix reseeded the process-wide
 random generator

---
 src/wai/ma/core/matrix/factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..50f3bf9 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -148,8 +148,7 @@ def randn(rows: int, columns: int, seed: int = 1, mean: real = real(0), std: rea
     :param std:         The standard deviation of the normal distribution.
     :return:            The matrix.
     """
-    random.seed(seed)
-    data = random.rand(rows, columns)
+    data = random.RandomState(seed).rand(rows, columns)
     np.multiply(data, std)
     np.add(data, mean)
     return Matrix(data)
@@ -178,8 +177,7 @@ def rand(rows: int, columns: int, seed: int = 1) -> Matrix:
     :param seed:        The seed value to initialise the PRNG with.
     :return:            The matrix.
     """
-    random.seed(seed)
-    return Matrix(random.rand(rows, columns))
+    return Matrix(random.RandomState(seed).rand(rows, columns))
 
 
 def rand_like(other: Matrix, seed: int) -> Matrix:
-- 
2.43.0


From 99010d288c70d86e6c09128703bab9daf1c64aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 32/58] fix: CCAFilter used the right singular vectors
 transposed

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 20c4ca1..36055bd 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -108,7 +108,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         omega: Matrix = Cxx_inv_sqrt.mul(Cxy).mul(Cyy_inv_sqrt)
 
         U: Matrix = omega.svd_U().normalized(0)
-        V: Matrix = omega.svd_V().normalized(0)
+        V: Matrix = omega.svd_V().transpose().normalized(0)
 
         C: Matrix = U.get_sub_matrix((0, U.num_rows()), (0, self.kcca))
         D: Matrix = V.get_sub_matrix((0, V.num_rows()), (0, self.kcca))
-- 
2.43.0


From fa95af2a8ac020a418d38045f10d675f0580f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 33/58] fix: PRM used the right singular vectors transposed for
 wide data

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..a191a21 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -219,7 +219,7 @@ class PRM(AbstractSingleResponsePLS):
         if has_more_columns_than_rows:
             X_t: Matrix = X.transpose()
             U = X_t.svd_U()
-            V: Matrix = X_t.svd_V()
+            V: Matrix = X_t.svd_V().transpose()
             S: Matrix = X_t.svd_S()
 
             # Replace X with n x n matrix
-- 
2.43.0


From f9dee153ee450aa99f94de379f68b0ff5523c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 34/58] fix: the NIPALS loop never updated the Y scores it
 iterates on

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 4b2b733..adce9f0 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -219,7 +219,7 @@ class NIPALS(AbstractMultiResponsePLS):
                 Y_weight = Y_weight.div(Y_weight.norm2() + eps)
 
             # 4) Calculate ykScores
-            Y_score: Matrix = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
+            y_score = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
 
             X_weight_diff: Matrix = X_weight.sub(X_weight_old)
 
-- 
2.43.0


From b688869d961a078c74231624c8aac15cb55e700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 35/58] fix: semi-supervised DIPLS assumed as many target as
 source samples

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index cc87a51..cc2174e 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -144,7 +144,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From eac43b75c9f8b5e687b3c14f454cfe694a3664aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 36/58] fix: PRM could not transform data with more columns
 than rows

---
 src/wai/ma/algorithm/pls/_PRM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index a191a21..0e8f5ab 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.U: Optional[Matrix] = None  # Basis the predictors were expressed in, if wider than long
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.U = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -267,6 +269,7 @@ class PRM(AbstractSingleResponsePLS):
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
             self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
+            self.U = U
 
         return None
 
@@ -274,6 +277,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.U is not None:
+            predictors = predictors.mul(self.U)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From cb3ff1d1a4e577544bc39d26ff6207892bf84f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 37/58] fix: FastICA.reconstruct added the means along the
 wrong axis

---
 src/wai/ma/algorithm/ica/_FastICA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 3ac3d58..9050f2a 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -262,7 +262,8 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            result: Matrix = self.sources.mul(self.mixing.transpose())
+            return self.center.inverse_transform(result) if self.whiten else result
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From e1fcbf8cc19cb1625f70d7da91a40214c7dc33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 38/58] fix: PCA loadings lost columns when constant columns
 were removed

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..b9f6383 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -37,6 +37,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sorted_eigens: List[int] = []
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
+        self.num_cols_original: int = 0
         self.num_rows: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
@@ -109,6 +110,7 @@ class PCA(AbstractAlgorithm, Filter):
         :param instances:   The data to process.
         """
         self.train = instances.copy()
+        self.num_cols_original = instances.num_columns()
 
         # Delete any attributes with only one distinct value or are all missing
         self.keep_cols = []
@@ -234,15 +236,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_cols_original, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_cols_original):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_cols_original):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From 90f654ffd23f75143621be29442b481a86cdf850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 39/58] fix: RowNorm kept using the statistics of
 inverse-transformed data

---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From 6d0a13985caeebc61a8ef1938b7da610a1834526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 40/58] fix: DIPLS.initialize reused the domain sizes of an
 earlier training

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index cc2174e..0629dfa 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -53,6 +53,9 @@ class DIPLS(AbstractSingleResponsePLS):
             self.X_t_center = Center()
             self.X_s_center = Center()
         else:
+            # The sizes of the domains are only known to the initialize_... methods
+            self.ns = 0
+            self.nt = 0
             return super().initialize(predictors, response)
 
     def reset(self):
@@ -256,7 +259,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_supervised(self,
                               predictors_source_domain: Matrix,
@@ -278,7 +281,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
     def initialize_semisupervised(self,
                                   predictors_source_domain: Matrix,
@@ -304,7 +307,7 @@ class DIPLS(AbstractSingleResponsePLS):
                     .concat_along_rows(predictors_target_domain_unlabeled)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return super().initialize(X, y)
 
 
 class ModelAdaptionStrategy(Enum):
-- 
2.43.0


From fce4d60f66f93dbbb54227e7be4776284802be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 41/58] fix: kernels froze their default gamma at the width of
 the first data they saw

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 12 ++++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..90a1361 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -15,6 +15,8 @@
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from typing import Optional
 
+import numpy as np
+
 from ...core import ZERO, real, NAN, ONE
 from ...core.matrix import Matrix
 from ._AbstractKernel import AbstractKernel
@@ -40,19 +42,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = ONE / X.num_columns() if np.isnan(self.gamma) else self.gamma
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..8901443 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+import numpy as np
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,9 +35,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From 7ea67293d081e48e609cec9bf04ccc50aba39192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 42/58] fix: writing a matrix in scientific notation at full
 precision raised an error

---
 src/wai/ma/core/matrix/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 85c0fc3..072d173 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -146,7 +146,7 @@ def to_lines(data: Matrix, header: bool, separator: str, num_dec: int, scientifi
 def data_to_string(data: Matrix, separator: str, num_dec: int, result: List[str], scientific: bool):
     if scientific:
         formatter = partial(np.format_float_scientific,
-                            precision=num_dec,
+                            precision=None if num_dec == -1 else num_dec,
                             unique=True,
                             trim='0',
                             exp_digits=1)
-- 
2.43.0


From edc13ee34e3d907aa296f130d2dd67a88e73cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:24 +0000
Subject: [PATCH 43/58] fix: Standardize divided constant columns by the
 rounding error of their deviation

---
 src/wai/ma/transformation/_Standardize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index acf672d..985fdaf 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -36,9 +36,10 @@ class Standardize(AbstractTransformation, Serialisable):
     def configure(self, data: Matrix):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (or by the rounding error
+        # of a constant column)
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) == real(0):
+            if self.std_devs.get(0, i) == real(0) or (data.data[:, i] == data.data[0, i]).all():
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From 3b75e618059ffe53ec9cd3af0af8302a34526da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 44/58] fix: RowNorm divided constant rows by the rounding
 error of their deviation

---
 src/wai/ma/transformation/_RowNorm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..cfc88b7 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -36,9 +36,10 @@ class RowNorm(AbstractTransformation):
     def configure(self, data: Matrix):
         self.means = row_means(data)
         self.std_devs = row_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (or by the rounding error
+        # of a constant row)
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
+            if self.std_devs.get(i, 0) == real(0) or (data.data[i] == data.data[i, 0]).all():
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 1dfccb113946af40e49ae01130ef135a52457a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:10 +0000
Subject: [PATCH 45/58] fix: reject Savitzky-Golay windows with too few points
 for the polynomial

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..decd7b3 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -108,6 +108,9 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         result[0] = real(1)
         return result
 
+    if len(result) <= poly_order:
+        raise ValueError(f"A polynomial of order {poly_order} can't be fitted to a window of {len(result)} points")
+
     A_dim = poly_order + 1
     A = factory.zeros(A_dim, A_dim)
     for i in range(A_dim):
-- 
2.43.0


From cbe726bd9040eb29225c999f089a893f2daa230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:53 +0000
Subject: [PATCH 46/58] fix: a failed configuration no longer discards the
 existing one

---
 src/wai/ma/transformation/_PowerTransformer.py    |  5 +++--
 src/wai/ma/transformation/_QuantileTransformer.py | 13 +++++++------
 src/wai/ma/transformation/_RobustScaler.py        |  9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index 0edd067..44d6157 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -58,8 +58,9 @@ class PowerTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(method=self.method, standardize=self.standardise)
-        self._intern.fit(data.data)
+        intern = Intern(method=self.method, standardize=self.standardise)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index 564455c..dee936a 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -70,12 +70,13 @@ class QuantileTransformer(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(n_quantiles=self.n_quantiles,
-                              output_distribution=self.output_distribution,
-                              ignore_implicit_zeros=self.ignore_implicit_zeroes,
-                              subsample=self.subsample,
-                              random_state=self.random_state)
-        self._intern.fit(data.data)
+        intern = Intern(n_quantiles=self.n_quantiles,
+                        output_distribution=self.output_distribution,
+                        ignore_implicit_zeros=self.ignore_implicit_zeroes,
+                        subsample=self.subsample,
+                        random_state=self.random_state)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 6739406..18c971d 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -62,10 +62,11 @@ class RobustScaler(AbstractTransformation):
         self._intern = None
 
     def configure(self, data: Matrix):
-        self._intern = Intern(with_centering=self.with_centering,
-                              with_scaling=self.with_scaling,
-                              quantile_range=self.quantile_range)
-        self._intern.fit(data.data)
+        intern = Intern(with_centering=self.with_centering,
+                        with_scaling=self.with_scaling,
+                        quantile_range=self.quantile_range)
+        intern.fit(data.data)
+        self._intern = intern
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From fcd4bbd0b8fd5c282f8bf46bb1c4a3ba71fde910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:48 +0000
Subject: [PATCH 47/58] fix: NIPALS could not be trained with more than one
 response

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index adce9f0..0b99c76 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -162,7 +162,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From f47e952461e8e3c63e8694243d7d1deb394dcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:02 +0000
Subject: [PATCH 48/58] fix: FastICA.transform returns a copy of its sources,
 so changing the result doesn't alter the model

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 9050f2a..97c219f 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -251,7 +251,7 @@ class FastICA(AbstractAlgorithm, Filter):
         :param data:    The original data to transform.
         :return:        The transformed data.
         """
-        return self.sources
+        return self.sources.copy()
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-- 
2.43.0


From 4e14074a485484d7cc255093065932e86f6247f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:06 +0000
Subject: [PATCH 49/58] fix: PCA keeps its own copy of the scores it returns

---
 src/wai/ma/algorithm/_PCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index b9f6383..9d3702d 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -266,7 +266,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.reset()
         self.configure(data)
         result = self.do_transform(data)
-        self.scores = result
+        self.scores = result.copy()
         self.loadings = self.extract_loadings()
 
         return result
-- 
2.43.0


From aa50d89c4d338c266cebd780188f787ec5648c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:51 +0000
Subject: [PATCH 50/58] fix: CCARegression failed or returned garbage when the
 predictors or responses form a square matrix

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 0b99c76..9ba0185 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -189,7 +189,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if X_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    X_p_inv = X.inverse()
+                    X_p_inv = X.pseudo_inverse()
                 X_weight: Matrix = X_p_inv.mul(y_score)
             else:  # PLS
                 X_weight: Matrix = X.transpose().mul(y_score).div(y_score.norm2_squared())
@@ -208,7 +208,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if Y_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    Y_p_inv = Y.inverse()
+                    Y_p_inv = Y.pseudo_inverse()
                 Y_weight: Matrix = Y_p_inv.mul(X_score)
             else:  # PLS
                 # WeightCalculationMode A: Regress each Y column on xscore
-- 
2.43.0


From 9f4188ef65c184eebc37a300f9defe6c46927621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:51 +0000
Subject: [PATCH 51/58] fix: CCARegression inverted the rounding noise of
 rank-deficient deflated matrices

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 6 ++++--
 src/wai/ma/core/matrix/_Matrix.py   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9ba0185..9e17001 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -181,6 +181,8 @@ class NIPALS(AbstractMultiResponsePLS):
         Y_p_inv: Optional[Matrix] = None
 
         eps: real = real(1e-16)
+        # A deflated matrix is rank-deficient up to rounding, so use sklearn's cut-off for its singular values
+        rcond: real = real(1e6 * 2.0 ** -52)
 
         # Repeat 1) - 3) until convergence: either change of u is lower than m_Tol or maximum
         # number of iterations has been reached (m_MaxIter)
@@ -189,7 +191,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if X_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    X_p_inv = X.pseudo_inverse()
+                    X_p_inv = X.pseudo_inverse(rcond)
                 X_weight: Matrix = X_p_inv.mul(y_score)
             else:  # PLS
                 X_weight: Matrix = X.transpose().mul(y_score).div(y_score.norm2_squared())
@@ -208,7 +210,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if Y_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    Y_p_inv = Y.pseudo_inverse()
+                    Y_p_inv = Y.pseudo_inverse(rcond)
                 Y_weight: Matrix = Y_p_inv.mul(X_score)
             else:  # PLS
                 # WeightCalculationMode A: Regress each Y column on xscore
diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 1f543fd..a8e9b12 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -610,8 +610,8 @@ class Matrix(Serialisable):
     def is_square(self):
         return self.num_rows() == self.num_columns()
 
-    def pseudo_inverse(self):
-        return Matrix(np.linalg.pinv(self.data))
+    def pseudo_inverse(self, rcond: float = 1e-15):
+        return Matrix(np.linalg.pinv(self.data, rcond))
 
     def serialise_state(self, stream: IO[bytes]):
         # Write the number of rows and columns
-- 
2.43.0


From b3334f2903e48b4d2b4c5c2914ee074c51adaa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 52/58] fix: eigenvalues and eigenvectors of real matrices came
 back complex with recent numpy versions even if all of them are real

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index a8e9b12..1825ddc 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,11 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+
+            # Newer versions of numpy return complex arrays even if all eigenvalues are real
+            if np.isrealobj(self.data) and not np.any(np.imag(eigenvalues)):
+                eigenvalues, eigenvectors = np.real(eigenvalues), np.real(eigenvectors)
+
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From 486a9ca3dc6ed494e6960dfbae96d5dc5c400052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:05 +0000
Subject: [PATCH 53/58] fix: eigenvectors of symmetric matrices with repeated
 eigenvalues weren't orthogonal

---
 src/wai/ma/core/matrix/_Matrix.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 1825ddc..cc1bfa4 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -119,6 +119,17 @@ class Matrix(Serialisable):
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
 
+            # The general solver doesn't guarantee orthogonal eigenvectors for repeated eigenvalues (nor
+            # real ones), so the solver for symmetric matrices supplies the values in this case, keeping
+            # the order and the directions of the general solver
+            if self.is_symmetric():
+                general_values, general_vectors = np.real(eigenvalues), np.real(eigenvectors)
+                eigenvalues, eigenvectors = np.linalg.eigh((self.data + self.data.T) / 2)
+                order = np.argsort(np.argsort(general_values, kind='stable'), kind='stable')
+                eigenvalues, eigenvectors = eigenvalues[order], eigenvectors[:, order]
+                directions = np.where(np.sum(eigenvectors * general_vectors, axis=0) < 0, -1.0, 1.0)
+                eigenvectors = eigenvectors * directions
+
             # Newer versions of numpy return complex arrays even if all eigenvalues are real
             if np.isrealobj(self.data) and not np.any(np.imag(eigenvalues)):
                 eigenvalues, eigenvectors = np.real(eigenvalues), np.real(eigenvectors)
@@ -612,6 +623,16 @@ class Matrix(Serialisable):
     def tanh(self):
         return Matrix(np.tanh(self.data))
 
+    def is_symmetric(self) -> bool:
+        """
+        Whether the (real, square) matrix is symmetric, up to rounding.
+        """
+        if not self.is_square() or not np.isrealobj(self.data):
+            return False
+
+        tolerance = self.num_rows() * np.finfo(float).eps * np.max(np.abs(self.data))
+        return bool(np.max(np.abs(self.data - self.data.T)) <= tolerance)
+
     def is_square(self):
         return self.num_rows() == self.num_columns()
 
-- 
2.43.0


From 1156fc27664e0504b955588f31bfe6e602070340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 54/58] fix: NIPALS and CCARegression fail to train when the
 first response is constant

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9e17001..086bedc 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -175,7 +175,9 @@ class NIPALS(AbstractMultiResponsePLS):
         """
         iterations: int = 0
 
-        y_score: Matrix = Y.get_column(0)  # (y scores)
+        # (y scores) Start from the first response with any variation left, as a constant one has no direction
+        y_score: Matrix = next((column for column in map(Y.get_column, range(Y.num_columns()))
+                                if column.norm2_squared() > 1e-16), Y.get_column(0))
         X_weight_old: Matrix = factory.zeros(X.num_columns(), 1)
         X_p_inv: Optional[Matrix] = None
         Y_p_inv: Optional[Matrix] = None
-- 
2.43.0


From 3cb592b6da84cca401c10ede3c0667a2caa7fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 55/58] fix: quick_sort mis-sorts lists of Python floats and
 integers

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 42d163d..683faca 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -74,7 +74,7 @@ def partition(array, index: List[int], l: int, r: int, pivot: Optional[real] = N
 
     :return:        The index of the middle element.
     """
-    if isinstance(array[0], real):
+    if pivot is not None:
         return _partition_real(array, index, l, r, pivot)
     else:
         return _partition_int(array, index, l, r)
-- 
2.43.0


From d1aeb522cdf4560a987add2fae86732295dc17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 56/58] fix: Savitzky-Golay coefficients of wide windows
 overflow 64-bit integers

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index decd7b3..4206f48 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -117,7 +117,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -128,7 +128,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0


From 0970e5d950f08903be0a0d6e65c851fd9f92f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 57/58] fix: sort exceeds the recursion limit on lists which
 are unfavourable for its pivots

---
 src/wai/ma/core/utils.py | 60 ++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 683faca..deb1083 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -143,33 +143,39 @@ def quick_sort(array: List[real], index: List[int], left: int, right: int):
     :param right:   The last index of the subset to be sorted.
     :return:
     """
-    diff: int = right - left
-
-    if diff == 0:
-        # No need to do anything
-        return
-    elif diff == 1:
-        # Swap two elements if necessary
-        conditional_swap(array, index, left, right)
-        return
-    elif diff == 2:
-        # Just need to sort three elements
-        conditional_swap(array, index, left, left + 1)
-        conditional_swap(array, index, left, right)
-        conditional_swap(array, index, left + 1, right)
-        return
-    else:
-        # Establish pivot
-        pivot_location: int = sort_left_right_and_center(array, index, left, right)
-
-        # Move pivot to right, partition, and restore pivot
-        swap(index, pivot_location, right - 1)
-        center: int = partition(array, index, left, right, array[index[right - 1]])
-        swap(index, center, right - 1)
-
-        # Sort recursively
-        quick_sort(array, index, left, center - 1)
-        quick_sort(array, index, center + 1, right)
+    while True:
+        diff: int = right - left
+
+        if diff == 0:
+            # No need to do anything
+            return
+        elif diff == 1:
+            # Swap two elements if necessary
+            conditional_swap(array, index, left, right)
+            return
+        elif diff == 2:
+            # Just need to sort three elements
+            conditional_swap(array, index, left, left + 1)
+            conditional_swap(array, index, left, right)
+            conditional_swap(array, index, left + 1, right)
+            return
+        else:
+            # Establish pivot
+            pivot_location: int = sort_left_right_and_center(array, index, left, right)
+
+            # Move pivot to right, partition, and restore pivot
+            swap(index, pivot_location, right - 1)
+            center: int = partition(array, index, left, right, array[index[right - 1]])
+            swap(index, center, right - 1)
+
+            # Sort the smaller part recursively and carry on with the larger one, which
+            # keeps the depth of the recursion logarithmic
+            if center - left < right - center:
+                quick_sort(array, index, left, center - 1)
+                left = center + 1
+            else:
+                quick_sort(array, index, center + 1, right)
+                right = center - 1
 
 
 def sort(array: List[real]) -> List[int]:
-- 
2.43.0


From 6dc26928ff40eeb0985e75d0a2b81546700becf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 58/58] fix: linear_regression is numerically useless for
 values far from zero

---
 src/wai/ma/core/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index deb1083..2024d94 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -205,13 +205,16 @@ def linear_regression(x: List[real], y: List[real]) -> Tuple[real, real]:
     :return:    Intercept, slope
     """
     n = len(x)
-    x_times_y = [x * y for x, y in zip(x, y)]
+    x_mean = sum(x) / n
+    y_mean = sum(y) / n
 
-    a = (sum(y) * sum_of_squares(x) - sum(x) * sum(x_times_y))\
-        / (n * sum_of_squares(x) - pow(sum(x), 2))
+    # Work with deviations from the means, the plain sums cancel when the values are far from zero
+    x_dev = [v - x_mean for v in x]
+    y_dev = [v - y_mean for v in y]
 
-    b = (n * sum(x_times_y) - sum(x) * sum(y))\
-        / (n * sum_of_squares(x) - pow(sum(x), 2))
+    b = sum(p * q for p, q in zip(x_dev, y_dev)) / sum_of_squares(x_dev)
+
+    a = y_mean - b * x_mean
 
     return a, b
 
-- 
2.43.0

