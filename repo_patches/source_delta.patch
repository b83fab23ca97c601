From 9cc1516e5200a5d3e19384f1145db73898fef215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 01/91] fix: ModP construction from and comparison with any
 int, assignment from int

---
 include/linalg/field.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..e36e36e 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -93,7 +93,7 @@ public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  ModP(IntT val) : val(((val % IntT(P)) + IntT(P)) % IntT(P)) {}
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +158,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return ModP(IntT(b)).val == val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return ModP(IntT(b)).val != val;
   }
 
   inline bool operator<( const ModP &b) const {
@@ -331,11 +331,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From 5a9857a6b4ee3c9cba0b58f4ad30c690229ee706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 02/91] fix: Rational /= with an operand that aliases the
 target

---
 include/linalg/field.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index e36e36e..ec0b72c 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -473,8 +473,9 @@ public:
 
   Rational& operator/=( const Rational &b) {
     if (b.n == 0) {throw std::runtime_error("Division by zero!");}
+    IntT bn = b.n; // b may alias *this
     n *= b.d;
-    d *= b.n;
+    d *= bn;
     reduce();
     return *this;
   }
-- 
2.43.0


From 98308cde9d6f45080c07b20d093f5626bf1eb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 03/91] fix: SparseVector::set_block erases only the half-open
 range [i0, i1)

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..31b7a0e 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -468,7 +468,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From 784ff9e13d90944795bf05565c62783b0bfd6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 04/91] fix: ColumnMatrix difference had its operands swapped

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..1a6535a 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From 72da51f122c2639510938bbc0227dd0fbe11e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 05/91] fix: ColumnMatrix::mix_cols left explicit zeros for
 zero coefficients

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1a6535a..25df103 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -796,9 +796,9 @@ public:
 	void mix_cols(const size_t j, const size_t k, const val_type& a, const val_type& b, const val_type& c, const val_type& d) {
 		TC cj(col[j]);
 		TC ck(col[k]);
-		col[j].scale_inplace(a);
+		col[j] = cj * a; // drops entries when the coefficient is zero
 		col[j].axpy(c, ck);
-		col[k].scale_inplace(d);
+		col[k] = ck * d;
 		col[k].axpy(b, cj);
 	}
 
-- 
2.43.0


From 809926004457cf37c3ae1c55e5477f0467d6cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 06/91] fix: inserting a zero column put it in the wrong place

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 25df103..fed95ba 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
-- 
2.43.0


From 5959f12424e116f3fdddd4a5d669680b8bb5ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 07/91] fix: ColumnMatrix::insert_rows places rows at their
 final positions

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index fed95ba..ee84295 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From 73d031c08cbb1e8ef9662bbbfb7e831e2d6e3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 08/91] fix: is_upper_invert accepted a zero diagonal

---
 include/linalg/col_matrix.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ee84295..1fb85e9 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -919,11 +919,10 @@ public:
 	bool is_upper_invert() const {
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
+			if (iv == col[j].nzbegin()) { return false; } // zero on the diagonal
+			--iv;
+			if (iv->ind != j) {
+				return false;
 			}
 		}
 		return true;
-- 
2.43.0


From 0e7d970d1e1aedcdce1e0f532d0c3e761b54ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 09/91] fix: row insertion dereferenced the end iterator

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1fb85e9..f91df54 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 31b7a0e..a9ecc2f 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -686,7 +686,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -724,7 +724,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From e4877e6213f5ed82f09f54bed8c8ca03c748a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 10/91] fix: indexed axpy stored explicit zeros past the end of
 the target

---
 include/linalg/sparse_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index a9ecc2f..0149f7a 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1120,7 +1120,10 @@ public:
 			if (inds[ii] < i2->ind) {
 				++ii;
 			} else {
-				tmp.push_back(key_type(ii, coeff[ii] * (i2->val)));
+				TV val = (coeff[ii] * (i2->val));
+				if (val != TV(0)) {
+					tmp.push_back(key_type(ii, val));
+				}
 				++i2;
 				++ii;
 			}
-- 
2.43.0


From 3312702d8fb333612c1aa0df6554cd60f82b5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 11/91] fix: mix_rows used an iterator invalidated by erase

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 0149f7a..7455408 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -652,7 +652,8 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			// erasing may have invalidated pi
+			if (b*vj != 0) indval.insert(lower_bound(i), key_type(i, b*vj));
 
 		}
 	}
-- 
2.43.0


From d9a2a5fdd814edd5a0f39806bd96d4da5c4679d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 12/91] fix: extra and sparsifying reductions never examined
 the first entry of a column

---
 include/homology/parallel.hpp  |  2 +-
 include/homology/reduction.hpp | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..c4c3b67 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -208,7 +208,7 @@ void reduce_column_extra(
 ) {
 	size_t end_offset = 1;
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..a75ccaa 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -96,7 +96,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -194,7 +194,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -259,7 +259,7 @@ void reduce_column_sparsify(
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (piv - M[j].nzbegin() >= 0) {
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
@@ -290,7 +290,7 @@ void reduce_column_sparsify(
 				M[j].axpy(-a, M[k], tmp);
 			}
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - M[j].nzbegin() >= 0 && piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
@@ -329,7 +329,7 @@ void sparsify_basis(
 ) {
 	size_t end_offset = 2; // entry above diagonal in U[j]
 	auto piv = U[j].nzend() - end_offset; // nonzero location
-	while (piv - U[j].nzbegin() > 0) {
+	while (piv - U[j].nzbegin() >= 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
 		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
@@ -351,7 +351,7 @@ void sparsify_basis(
 				R[j].axpy(-a, R[k], tmp);
 			}
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - U[j].nzbegin() >= 0 && piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
 			--piv;
@@ -546,7 +546,7 @@ void remove_extra_cycles(
 	for (size_t j = 0; j < n; ++j) {
 		size_t end_offset = 2; // entry above diagonal
 		auto piv = U[j].nzend() - end_offset; // nonzero location
-		while (piv - U[j].nzbegin() > 0) {
+		while (piv - U[j].nzbegin() >= 0) {
 			size_t k = piv->ind;
 			if (R[k].nnz() == 0) {
 				// we can eliminate entry
-- 
2.43.0


From 3f0f7bc5c4f2f257ed851c81ea1fda40bfd1b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 13/91] fix: sparsify_basis compared a row index with a column
 index and could spoil pivots

---
 include/homology/reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index a75ccaa..cd8e634 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -332,7 +332,7 @@ void sparsify_basis(
 	while (piv - U[j].nzbegin() >= 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
-- 
2.43.0


From b20e99a30089fa1e45aa8ea25d674430e61c80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 14/91] fix: partial_reduce_parallel ran past the end of
 matrices smaller than a block

---
 include/homology/parallel.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index c4c3b67..041f0cb 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -351,9 +351,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t last = n > block_size ? n - block_size : 0;
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) {
 		reduce_block_sequential(M, j, j+block_size);
 	}
 	return;
@@ -372,9 +373,10 @@ void partial_reduce_parallel(
 	const size_t block_size
 ) {
 	size_t n = M.ncol();
+	size_t last = n > block_size ? n - block_size : 0;
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
+	for (size_t j = 0; j < last; j+=block_size) {
 		reduce_block_sequential(M, U, j, j+block_size);
 	}
 	return;
-- 
2.43.0


From 2939be8bf55d9f77b41de285720c09b0990487d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 15/91] fix: integer entries that vanish in the field were
 stored as explicit zeros

---
 include/linalg/sparse_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 7455408..1f5b0ac 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -135,7 +135,10 @@ public:
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			TI i_ind = TI(*indit++);
+			TV i_val = TV(*valit++);
+			// an integer can vanish in the field
+			if (!(i_val == TV(0))) { indval.emplace_back(key_type(i_ind, i_val)); }
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
-- 
2.43.0


From 5da51de88f837a8b0a2b4fa90703f92107da90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 16/91] fix: compression with basis left R without its
 compressed rows, so that B U = R failed

---
 include/homology/basis.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..a0901f6 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -241,6 +241,8 @@ public:
 			R[k] = C.boundary[k];
 			U[k] = MT::identity(C.dim(k));
 			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());
+			// rows deleted by compression are restored so that B_k U_k = R_k
+			R[k] = C.boundary[k] * U[k];
 			comp_inds = get_compression_inds(R[k]);
 		}
 
-- 
2.43.0


From 639b6062ae23d599769cf82954ef3cc5e24123f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 17/91] fix: clear_compress_apparent_pairs took pivots for
 pairs that an earlier column can still claim

---
 include/chain/chain_complex.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..6d8241a 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -350,6 +350,8 @@ template <typename Information_type>
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
+			// rows in which some earlier column has a nonzero
+			std::vector<bool> seen(boundary[dim].nrow(), false);
 			// look at pivots to determine clearing/compression inds
 			for (size_t j = 0; j < boundary[dim].ncol(); ++j) {
 				auto it = boundary[dim][j].nzend();
@@ -357,13 +359,16 @@ template <typename Information_type>
 				if (it != boundary[dim][j].nzbegin()) {
 					--it; // point to last nonzero
 					size_t i = it->ind; // pivot index
-					if (!clear_inds[i]) {
-						// this is the first time we have seen this pivot
+					if (!seen[i]) {
+						// no earlier column has a nonzero in row i
 						// mark j as a compression ind
 						comp_inds[j] = true;
 						// mark i as a clearing ind
 						clear_inds[i] = true;
 					}
+					for (auto vit = boundary[dim][j].nzbegin(); vit != boundary[dim][j].nzend(); ++vit) {
+						seen[vit->ind] = true;
+					}
 				}
 			}
 			// we can now clear indices one dimension lower
-- 
2.43.0


From e2004c835161a5d42cf047cb8f4418ec712d8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 18/91] fix: permuting the basis of a complex of dimension 0
 accessed a missing boundary matrix

---
 include/chain/chain_complex.hpp | 10 ++++++----
 include/homology/basis.hpp      |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 6d8241a..96f69ab 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -123,8 +123,9 @@ struct ChainComplex {
 	// permute basis in dimension k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
-			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			// boundary[1] only exists if maxdim() > 0
+			boundary[0].permute_cols(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -145,8 +146,9 @@ struct ChainComplex {
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
-			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			// boundary[1] only exists if maxdim() > 0
+			boundary[0].ipermute_cols(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index a0901f6..d322652 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -294,8 +294,9 @@ public:
 	void permute_matrices(size_t k, const std::vector<size_t> &perm) {
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
-			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			// boundary[1] only exists if maxdim() > 0
+			U[0].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
-- 
2.43.0


From 0486a79bcf25e6123307a074bcb8d3af71ae06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 19/91] fix: FilteredChainComplex::update_filtration permuted
 the complex by the inverse of the update

---
 include/chain/filtered_chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..ac58442 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,13 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 0701faf9a32fa7cfe092fcc3495fe260f0a8b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 20/91] fix: FilteredDGVectorSpace::update_filtration permuted
 by the inverse and ignored the degree

---
 include/dgvs/filtered_dgvs.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..1aa56f8 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,25 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 42ebe6dbb6982222a50c819e518011ab6619d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 21/91] fix: union_find_pairs read values and indices in the
 wrong order

Values and returned indices were those of filtration positions instead of cells,
births were rounded to float, and complexes of dimension 0 or with loops read past
the end of a boundary.
---
 include/persistence/union_find.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..f5c4708 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -52,13 +52,11 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	const FilteredChainComplex<T, MT> &F
 ) {
 
-	// first get boundary in dimension 1
-	// assumed to be sorted in filtration order
-	auto& B = F.complex()[1];
 	auto& vals = F.vals();
+	auto& perm = F.perm; // from filtration order to original order
 
-	size_t N = B.nrow();
-	size_t M = B.ncol();
+	size_t N = F.complex()[0].ncol();
+	size_t M = F.complex().maxdim() > 0 ? F.complex()[1].ncol() : 0;
 
 	// initialize parent vector
 	std::vector<size_t> parent(N);
@@ -70,9 +68,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -83,6 +81,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// first, get simplices on boundary
 
 		// This is not safe if we do not know we're working with 1-dimensional boundary
+		// boundary in dimension 1 is sorted in filtration order
+		auto& B = F.complex()[1];
+		if (B[k].nnz() < 2) { continue; } // a loop never merges components
 		auto nzit = B[k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
@@ -94,13 +95,13 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		if (pi == pj) { continue; }
 
 		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
+		T bi = pairs[pi].birth;
+		T bj = pairs[pj].birth;
 		if (bi < bj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -108,8 +109,8 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From 64f64cf79eeb5bce891cb8b1c849f0f0fd1dc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 22/91] fix: SparseVector::ipermute applied the permutation
 instead of its inverse

---
 include/linalg/sparse_vector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 1f5b0ac..e14c329 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -18,6 +18,7 @@ maintains indices in sorted order
 #include <map>
 #include "field.hpp"
 #include "abstract_vector.hpp"
+#include <util/permutation.hpp>
 
 
 // template over type of values
@@ -422,10 +423,7 @@ public:
 	// apply inverse permutation in-place
 	// O(nz log nz) where nz is #non-zeros
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
-		}
-		sort();
+		permute(bats::util::inv_perm(perm));
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From 781369800e310d6ee2eaad817a08594fc1e0d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 23/91] fix: SimplicialComplex::boundary of a vertex read
 before the boundary arrays

---
 include/complex/simplicial_complex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..4c1ca4d 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -535,6 +535,7 @@ public:
 		size_t indend = indbegin + dim + 1;
 		std::vector<size_t> ind;
 		std::vector<int> val;
+		if (dim == 0) { return std::make_tuple(ind, val); } // vertices have no boundary
 		for (size_t i = indbegin; i < indend; i++) {
 			ind.emplace_back(faces[dim-1][i]);
 			val.emplace_back(coeff[dim-1][i]);
-- 
2.43.0


From 98104eca3c6e8ea326a9496772541d66077e1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 24/91] fix: ChainComplex::update_basis_general moved deleted
 cells by the wrong permutation and skipped complexes of dimension 0

---
 include/chain/chain_complex.hpp | 35 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 96f69ab..e8aae66 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -178,28 +178,6 @@ template <typename Information_type>
 		std::vector<size_t> add_ind_row = UI.addition_indices[k]; // row addition indices
 		std::vector<size_t> add_ind_col = UI.addition_indices[k+1]; // column addition indices
 
-		// if k == 0, boundary[0] are all zeros
-		if (k == 0) {
-			// step 1. delete columns
-			if (!del_ind_row.empty()){
-				// std::cout << "do deletion" << std::endl;
-				for (size_t i = 0; i < del_ind_row.size(); i++){
-					boundary[0].erase_column();
-				}
-			}
-			// step 2. permute columns(no need here since are all zeros)
-
-			// step 3. addition
-			if (!add_ind_row.empty()){
-				// std::cout << "do addition" << std::endl;
-				for (size_t i = 0; i < add_ind_row.size(); i++){
-					boundary[0].append_column();
-				}
-			}
-		}
-		// std::cout << "\nafter modification of boundary[0]" << std::endl;
-		// boundary[0].print();
-
 		// Start for boundary[k+1]:
 		// Step 1. delete columns(we assume the deletion indices in A are in ascending order)
 		if (!del_ind_col.empty()){
@@ -209,7 +187,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // permute
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -226,7 +204,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].ipermute_rows(perm); // permute
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
@@ -238,7 +216,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].ipermute_rows(PI_row);
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
@@ -292,6 +270,13 @@ template <typename Information_type>
 
 	template <typename Information_type>
 	void update_basis_general(const Information_type &UI_fast) {
+		// boundary[0] is all zeros, so only the number of columns can change
+		for (size_t i = 0; i < UI_fast.deletion_indices[0].size(); i++) {
+			boundary[0].erase_column();
+		}
+		for (size_t i = 0; i < UI_fast.addition_indices[0].size(); i++) {
+			boundary[0].append_column();
+		}
 		for (size_t k = 0; k < UI_fast.max_dim; k++) {
 			update_basis_general(k, UI_fast);
 		}
-- 
2.43.0


From 7fca0a605032086eb4dd58546a28d1a7185a13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 25/91] fix: general basis updates inserted a wrong identity
 column and left the top differential stale

---
 include/homology/basis.hpp   |  4 +--
 include/homology/dgbasis.hpp | 61 ++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index d322652..98e05f0 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -406,8 +406,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// find the index of the column appended to U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..ada05e2 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -486,9 +486,7 @@ public:
 		if (UI.ndeletions[k] == 0) { return; } // quick exit
 
 		if (degree == -1) {
-			if (k < UI.perm.size()-1) {
-				R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);
-			}
+			R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);
 			U[k].erase_final_columns(UI.ndeletions[k]);
 			U[k].erase_final_rows_unsafe(UI.ndeletions[k]);
 			R[k].erase_final_columns(UI.ndeletions[k]);
@@ -512,10 +510,8 @@ public:
 		if (UI.insertion_indices[k].size() == 0) { return; } // quick exit
 		std::cout << "\t\t_insert_cells " << k << std::endl;
 		if (degree == -1) {
-			if ( k < UI.perm.size() - 1 ) {
-				// insert rows one dimension up
-				R[k+1].insert_rows(UI.insertion_indices[k]);
-			}
+			// insert rows one dimension up
+			R[k+1].insert_rows(UI.insertion_indices[k]);
 
 			// create vectors of columns to insert
 			std::vector<VectT> Ucols;
@@ -645,8 +641,8 @@ public:
 
 		// finalize reduction
 		if (degree == -1) {
-			for (ssize_t k = UI.perm.size()-1; k >= 0; --k) {
-				if (k < (ssize_t) UI.perm.size() - 1) {
+			for (ssize_t k = UI.perm.size(); k >= 0; --k) {
+				if (k < (ssize_t) UI.perm.size()) {
 					p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 				} else {
 					p2c[k] = reduce_matrix(R[k], U[k]);
@@ -663,6 +659,23 @@ public:
 		set_indices(); // update homology indices
 	}
 
+	/**
+	helper function for updates
+
+	the differential next to the top dimension is trivial,
+	but has to match the number n of cells in the top dimension
+	*/
+	void _resize_trivial_differential(size_t n) {
+		size_t top = R.size() - 1;
+		if (degree == -1) {
+			R[top] = MT(n, 0);
+			p2c[top].assign(n, bats::NO_IND);
+		} else { // degree == +1
+			R[top] = MT(0, n);
+			U[top] = MT::identity(n);
+		}
+	}
+
 	/*
 	General Update factorization DU = R by Updating Information
 	Note:
@@ -851,8 +864,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -972,14 +985,7 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
-		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
-		}
+		_resize_trivial_differential(UI.F_Y_vals[max_dim].size());
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
@@ -1220,8 +1226,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -1335,14 +1341,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = ssize_t(max_dim)-1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k <= max_dim; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1355,12 +1361,7 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add zero columns
-		if(degree == +1){
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-		}
+		_resize_trivial_differential(UI.F_Y_vals[max_dim].size());
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
-- 
2.43.0


From 423a6649b9dbe997f5876e0e2ff6efe2f27b1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 26/91] fix: SparseTrie assignment leaked or kept the children
 of the overwritten trie

---
 include/util/trie.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..3e1bfe6 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -45,12 +45,17 @@ public:
     SparseTrie() : val(T(0)), children(nullptr) {};
 
     ~SparseTrie() {
+        release_children();
+    }
+
+	// delete each child, and the dictionary of children
+	void release_children() {
         if (children != nullptr) {
-			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
@@ -61,7 +66,7 @@ public:
 		if (&t == this) {return *this;}
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -83,7 +88,7 @@ public:
 			return *this;
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From fc65a1d06a154e8ab18fbeb4692abf519cb4f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 27/91] fix: Filtration recorded a value for cells that the
 complex refused, out of bounds

---
 include/filtration/filtration.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..1c813b2 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -61,6 +61,15 @@ private:
         }
     }
 
+	// record value of a cell that was passed to the complex
+	// no value is recorded if the complex refused the cell
+	inline void set_value(const cell_ind &c, const TF t) {
+		reserve(c.dim);
+		if (c.ind == bats::NO_IND) { return; }
+		reserve(c.dim, c.ind+1);
+		val[c.dim][c.ind] = t;
+	}
+
 public:
 
 
@@ -139,8 +148,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
-		reserve(ret.dim, ret.ind+1);
-		val[ret.dim][ret.ind] = t;
+		set_value(ret, t);
 		return ret;
 	}
 
@@ -153,8 +161,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
-		reserve(ret.dim, ret.ind+1);
-		val[ret.dim][ret.ind] = t;
+		set_value(ret, t);
 		return ret;
 	}
 
-- 
2.43.0


From e389628c1db97581b302ee0f6dea585a89df7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 28/91] fix: sublevelset of a light complex collided when
 vertex labels exceed the number of vertices

---
 include/filtration/filtration.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 1c813b2..d6c31e9 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <vector>
 
 namespace bats {
@@ -213,7 +214,12 @@ public:
 	@param a upper bound of levelset
 	*/
 	CpxT sublevelset(const TF a) const {
-		CpxT Y(X.ncells(0), X.maxdim()); // initialize new complex
+		// vertex labels need not be smaller than the number of vertices
+		size_t n = X.ncells(0);
+		for (size_t i = 0; i < X.ncells(0); ++i) {
+			for (size_t v : X.get_cell(0, i)) { n = std::max(n, v + 1); }
+		}
+		CpxT Y(n, X.maxdim()); // initialize new complex
 		for (size_t k = 0; k < maxdim() + 1; ++k) {
 			for (size_t i = 0; i < ncells(k); ++i) {
 				if (val[k][i] <= a) {
-- 
2.43.0


From b7b4a1be1690d6812ca1420f7fd1a1bc9bc634a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 29/91] fix: LightSimplicialComplex boundaries read before the
 offset table and the boundary of vertices

---
 include/complex/light_simplicial_complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..dcdb51f 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			c = -c;
 			i--;
@@ -385,6 +385,7 @@ public:
 		auto k = index_to_key[dim][i];
 		std::vector<size_t> ind;
 		std::vector<int> val;
+		if (dim == 0) { return std::make_tuple(ind, val); } // vertices have no boundary
 		auto bdry = simplex_boundary_iterator(k, dim, this);
 		while (bdry) {
 			auto [f, c] = bdry.next();
-- 
2.43.0


From 22e9ac65d95b589cc5c5e64457d7d09fb70b3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 30/91] fix: ncells of a dimension above maxdim read out of
 bounds (maps into complexes of lower dimension)

---
 include/complex/cubical_complex.hpp          | 2 +-
 include/complex/light_simplicial_complex.hpp | 2 +-
 include/complex/simplicial_complex.hpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..950ba51 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -286,7 +286,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index dcdb51f..0ba85d4 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -183,7 +183,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 4c1ca4d..2367497 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -345,7 +345,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From 8be63ad3c080c4a5c810596dcf77329fdc929b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 31/91] fix: graded spaces of degree +1 used the wrong
 dimension for representatives and induced maps

---
 include/homology/dgbasis.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index ada05e2..830e5f9 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -278,7 +278,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[k + ((degree == -1) ? 0 : 1)], v);
 	}
 
 	/**
@@ -286,7 +286,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[k + ((degree == -1) ? 0 : 1)] * v;
 	}
 
 
@@ -294,8 +294,9 @@ public:
 	// get preferred representative j in dimension k
 	vect_type get_preferred_representative(
 		const size_t j,
-		const size_t k
+		size_t k
 	) const {
+		k += (degree == -1) ? 0 : 1;
 		return U[k][I[k][j]];
 	}
 
@@ -307,7 +308,9 @@ public:
 	) const {
 		int dg_offset = (degree == -1) ? 0 : 1;
 		k += dg_offset;
-		if (k == R.size()-1) {
+		// index of the differential whose image lies in dimension k
+		size_t kin = (degree == -1) ? k+1 : k-1;
+		if (kin >= R.size()) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
@@ -315,18 +318,18 @@ public:
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kin].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
 			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[kin][j] != bats::NO_IND) {
+				auto i = p2c[kin].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kin][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 6b6c943b979922551576ea0ff12181e5c5d422c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 32/91] fix: CellularMap::operator[] grew the map one dimension
 short

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..afa3997 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From 21ee85b93d627fc073717226162827647d5709ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 33/91] fix: cells of a zigzag filtration used copies of their
 boundary from other intervals

---
 include/zigzag/zigzag_filtration.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..51464dc 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -181,6 +181,11 @@ struct ZigzagChainComplex
 	std::vector<std::vector<std::pair<T, T>>> val; // zigzag filtration values
 	std::vector<std::vector<size_t>> cind; // maps back to original index in complex
 
+	// true if interval a is contained in interval b
+	static bool _present_during(const std::pair<T, T>& a, const std::pair<T, T>& b) {
+		return b.first <= a.first && a.second <= b.second;
+	}
+
 	/**
 	correct the indices in column j in dimension k
 
@@ -191,16 +196,16 @@ struct ZigzagChainComplex
 	void _correct_indices(
 		size_t k,
 		size_t j,
-		const std::vector<std::vector<size_t>> extra_cells
+		const std::vector<std::vector<size_t>>& extra_cells
 	) {
 		auto it = C[k][j].nzbegin();
 		while (it != C[k][j].nzend()) {
 			auto i = it->ind;
-			// if this column enters after the original boundary exits, we need
-			// to search for copy of boundary
-			if (val[k][j].first > val[k-1][i].second) {
+			// if this column is not present while the original boundary is, we need
+			// to search for the copy of the boundary that is
+			if (!_present_during(val[k][j], val[k-1][i])) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (_present_during(val[k][j], val[k-1][i2])) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -259,6 +264,10 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the original column is corrected after it has been duplicated
+				if (k > 0) {
+					_correct_indices(k, i, extra_cells);
+				}
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From 956d8cd31d1618ade47868ebd603fa37a717983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 34/91] fix: zigzag bars named copies of cells instead of cells
 of the complex

---
 include/zigzag/zigzag_filtration.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 51464dc..90f6da3 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -343,7 +343,7 @@ auto prepare_ChainComplex(
 				rfilt_val<T>(
 					k, // dimension
 					permk[i], // index in permuted chain complex
-					i, // index in original complex
+					ZC.cind[k][i], // index in original complex
 					pair.first, // entry time
 					true // entry
 				)
@@ -352,7 +352,7 @@ auto prepare_ChainComplex(
 				rfilt_val<T>(
 					k, // dimension
 					permk[i], // index in permuted chain complex
-					i, // index in original complex
+					ZC.cind[k][i], // index in original complex
 					pair.second, // removal time
 					false // removal
 				)
@@ -484,7 +484,7 @@ auto prepare_ChainComplex(
 				rfilt_val<T>(
 					k, // dimension
 					permk[i], // index in permuted chain complex
-					i, // index in original complex
+					ZC.cind[k][i], // index in original complex
 					pair.first, // entry time
 					true // entry
 				)
@@ -493,7 +493,7 @@ auto prepare_ChainComplex(
 				rfilt_val<T>(
 					k, // dimension
 					permk[i], // index in permuted chain complex
-					i, // index in original complex
+					ZC.cind[k][i], // index in original complex
 					pair.second, // removal time
 					false // removal
 				)
@@ -507,13 +507,13 @@ auto prepare_ChainComplex(
 			return (a.val != b.val) ?
 				a.val < b.val : // increasing value order
 				(a.entry && b.entry) ? // else, if both entries
-				detail::lex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]) : // use lexicographical comparison
+				detail::lex_cmp(X, a.dim, a.cind, b.dim, b.cind) : // use lexicographical comparison
 				(a.entry ^ b.entry) ? // one entry and one removal
 				a.entry : // process entry first - doesn't matter
 				(a.dim == b.dim) ? // else, both are removals - check if dim is the same
 				a.ind > b.ind : // process later index first
 				// a.dim > b.dim; // otherwise, we process larger dimension first for removal
-				detail::rlex_cmp(X, a.dim, ZC.cind[a.dim][a.cind], b.dim, ZC.cind[b.dim][b.cind]);
+				detail::rlex_cmp(X, a.dim, a.cind, b.dim, b.cind);
 			}
 	);
 
-- 
2.43.0


From 7605cd617633af521e25f2c8e29cd1d7f8d69098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 35/91] fix: witness_edges and the lazy WitnessComplex did not
 compile

---
 include/topology/dowker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..a58f3ca 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -164,7 +164,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
@@ -226,7 +226,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From 16bac7312ed7591d5e7940045925206fb6565d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 36/91] fix: FlagComplex added edges whose end points were not
 listed in order as unsorted simplices

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..9515c2f 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -92,6 +92,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From 97c80a634b98949e4227d822e139bbb44fd8cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 37/91] fix: flag and Rips constructions with maximum dimension
 0 added edges

---
 include/filtration/flag.hpp | 4 ++++
 include/topology/flag.hpp   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..2ee84dc 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -302,6 +302,8 @@ Filtration<T, CpxT> FlagFiltration(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
 
+    if (maxdim == 0) { return F; } // no edges
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -367,6 +369,8 @@ auto FlagFiltration_extension(
         inds[0].emplace_back(k);
     }
 
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // no edges
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 9515c2f..a299486 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -81,6 +81,8 @@ CpxT FlagComplex(
         X.add(spx_idxs);
     }
 
+    if (maxdim == 0) { return X; } // no edges
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
-- 
2.43.0


From 91cf265f48ec1a4944d283fe8662a9c9934a3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 38/91] fix: CompleteFlagFiltration returned an empty complex
 and ignored maximum dimensions below 2

---
 include/filtration/flag.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index 2ee84dc..3f08fe7 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -453,6 +453,8 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
 
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); } // no edges
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -475,10 +477,12 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
-- 
2.43.0


From bf43b5d857d339ad94c2c304bac7b1f16a1d712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 39/91] fix: radius neighborhoods were appended after empty
 ones, from several threads

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..0564ba3 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -59,7 +59,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}
 
 	return nbrs;
-- 
2.43.0


From 0580d63dab0f8ecd082c74b73b91dfebd0706979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 40/91] fix: linear_cover_intersection_diagram attached its
 maps to the wrong node

---
 include/topology/inclusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..d4d5ccd 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
-- 
2.43.0


From 90472719b2f10458dbe170264c72837fcbf4273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 41/91] fix: landmark_eps_cover left points at distance exactly
 eps, and with eps = 0 every point, uncovered

---
 include/topology/cover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 803067c..92c06b8 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -155,7 +155,7 @@ bats::Cover landmark_eps_cover(
 		auto di = dist(X[i], L); // distance from X[i] to points in L
 		auto it = std::min_element(di.cbegin(), di.cend());
 		for (size_t j = 0; j < L.size(); j++) {
-			if (di[j] < *it + eps) {
+			if (di[j] <= *it + eps) {
 				// add i to any landmark set that is within eps of closest landmark
 				// this should include closest point
 				cover[j].emplace(i);
-- 
2.43.0


From 8ba40d8f0ac698ba6a3d856bd3ad08c5b66a9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 42/91] fix: RPCosineDist was evaluated as CosineDist

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..97cefbb 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
-- 
2.43.0


From dbf9225d8e388dee506901778b4582a4f6f2862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 43/91] fix: get_m skipped zero and repeated distances

---
 include/topology/dowker.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index a58f3ca..afab338 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -42,11 +42,16 @@ std::vector<T> get_m(
 ) {
     size_t N = pdist.ncol();
     std::vector<T> m(N, T(0));
+    if (nu == 0) { return m; }
+    if (nu > pdist.nrow()) { return std::vector<T>(N, std::numeric_limits<T>::max()); }
 
-    while (nu > 0) {
-        // update m with next largest entry
-        increment_m(pdist, m);
-        nu--;
+    std::vector<T> col(pdist.nrow());
+    for (size_t j = 0; j < N; j++) {
+        for (size_t i = 0; i < col.size(); i++) {
+            col[i] = pdist(i,j);
+        }
+        std::nth_element(col.begin(), col.begin() + (nu - 1), col.end());
+        m[j] = col[nu - 1];
     }
 
     return m;
-- 
2.43.0


From dec12ab32427489fad88fdf9ebaa08ecd0dd7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 44/91] fix: witness parameters relaxed the wrong number of
 landmarks

---
 include/topology/dowker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index afab338..6b68a50 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -113,7 +113,7 @@ Matrix<T> witness_edge_param(
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < pdist.nrow(); i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
-- 
2.43.0


From 449ba25ffad76d0f0e345f4f57e6fbf191d4c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 45/91] fix: witness_neighborhoods used edge parameters between
 landmarks in place of witnesses

---
 include/topology/dowker.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 6b68a50..6b3e635 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -94,10 +94,9 @@ Matrix<T> dowker_edge_param(
     return R;
 }
 
-// get witness edge parameters
-// for witness filtration
+// distances from landmarks to witnesses, relaxed by the nu-th smallest distance of each witness
 template <typename T, typename M>
-Matrix<T> witness_edge_param(
+Matrix<T> witness_pdist(
     const DataSet<T> &X,
     const DataSet<T> &L,
     const M &dist,
@@ -119,7 +118,19 @@ Matrix<T> witness_edge_param(
         }
     }
 
-    return dowker_edge_param(pdist);
+    return pdist;
+}
+
+// get witness edge parameters
+// for witness filtration
+template <typename T, typename M>
+Matrix<T> witness_edge_param(
+    const DataSet<T> &X,
+    const DataSet<T> &L,
+    const M &dist,
+    const size_t nu
+) {
+    return dowker_edge_param(witness_pdist(X, L, dist, nu));
 }
 
 
@@ -242,7 +253,7 @@ inline auto witness_neighborhoods(
     const size_t nu,
     const T rmax
 ) {
-    auto pdist = witness_edge_param(X, L, dist, nu);
+    auto pdist = witness_pdist(X, L, dist, nu);
     // get cover
     return neighborhoods(pdist, rmax);
 }
-- 
2.43.0


From 9eea03fb2ca9db28c2956674ca12b7782912bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 46/91] fix: dowker_edge_param left the diagonal uninitialised

---
 include/topology/dowker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 6b3e635..dfe4276 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -87,6 +87,7 @@ Matrix<T> dowker_edge_param(
         for (size_t i = 0; i < j; i++) {
             R(i,j) = R(j,i); // symmetry
         }
+        R(j,j) = T(0); // vertices are present from the start
         for (size_t i = j+1; i < nL; i++) {
             R(i,j) = dowker_edge_param(pdist, i, j);
         }
-- 
2.43.0


From db2d31dae39212c5780cefc686f4755215934c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 47/91] fix: Nerve with maximum dimension 0 added edges

---
 include/topology/nerve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..0b06043 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // no edges
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From 155ef6db18fbd1a9ecf96b8cb0322f6453ec494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 48/91] fix: angular distances of parallel vectors could be NaN

---
 include/topology/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index 97cefbb..e7d103a 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From 57fc98a55fa3e5292fcfad2ed12da0d388041495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 49/91] fix: greedy landmarks repeated a point, or never ended,
 when the data has equal points

---
 include/topology/landmark.hpp | 45 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/topology/landmark.hpp b/include/topology/landmark.hpp
index 1f31d14..8632c88 100755
--- a/include/topology/landmark.hpp
+++ b/include/topology/landmark.hpp
@@ -29,6 +29,21 @@ DataSet<T> random_landmarks(
 	return D[inds];
  }
 
+// index of a furthest point from the landmark set among the points that are not landmarks
+// d is vector of distances to landmark set
+// chosen marks the landmarks
+template <typename T>
+size_t furthest_point(
+	const std::vector<T> &d,
+	const std::vector<bool> &chosen
+) {
+	size_t i = d.size();
+	for (size_t j = 0; j < d.size(); j++) {
+		if (!chosen[j] && (i == d.size() || d[i] < d[j])) { i = j; }
+	}
+	return i;
+}
+
 // greedy landmarking
 // D is dataset
 // k is number of landmarks
@@ -44,16 +59,18 @@ DataSet<T> greedy_landmarks(
 ) {
 	std::set<size_t> inds;
 	inds.insert(i0);
+	std::vector<bool> chosen(D.size(), false);
+	chosen[i0] = true;
 
 	std::vector<T> d = dist(D[i0], D);
 
 	while (inds.size() < k) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = furthest_point(d, chosen);
 
 		// insert point
 		inds.insert(i);
+		chosen[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -127,17 +144,19 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	std::vector<size_t> inds; // index order
 	std::vector<T>      hds; // Hausdorff distance to full data set of indices up that point
 	inds.emplace_back(i0);
+	std::vector<bool> chosen(D.size(), false);
+	chosen[i0] = true;
 
 	std::vector<T> d = dist(D[i0], D);
 
 	while (inds.size() < D.size()) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = furthest_point(d, chosen);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		chosen[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -173,17 +192,19 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	inds.reserve(k);
 	hds.reserve(k);
 	inds.emplace_back(i0);
+	std::vector<bool> chosen(D.size(), false);
+	chosen[i0] = true;
 
 	std::vector<T> d = dist(D[i0], D);
 
 	while (inds.size() < k) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = furthest_point(d, chosen);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		chosen[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -214,6 +235,8 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 	std::vector<size_t> inds; // index order
 	std::vector<T>      hds; // Hausdorff distance to full data set of indices up that point
 	inds.emplace_back(i0);
+	std::vector<bool> chosen(pdist.ncol(), false);
+	chosen[i0] = true;
 
 	std::vector<T> d(pdist.ncol());
 	auto dit = d.begin();
@@ -223,12 +246,12 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 	while (inds.size() < pdist.ncol()) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = furthest_point(d, chosen);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		chosen[i] = true;
 
 		// get all distances
 		auto di = pdist[i]; // distance from point i
-- 
2.43.0


From 314bbeb4e2219e117bfcb08e8406f945a304d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 50/91] fix: tensor products of vectors recursed forever and of
 matrices used the wrong column

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index f91df54..893f364 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1078,7 +1078,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].tensor(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index e14c329..87db385 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1243,5 +1243,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 5b4aea804e925087e2f9d570aca87ef7cb3e3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 51/91] fix: tensor_product of chain complexes read index
 shifts before the start of their table

---
 include/chain/chain_complex.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index e8aae66..ae64215 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -310,8 +310,14 @@ template <typename Information_type>
 				for (size_t iA = 0; iA < A.dim(Adim); iA++) {
 					// loop over simplices of dimension dY
 					for (size_t iB = 0; iB < B.dim(Bdim); iB++) {
-						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(ind_shift[Adim-1][Bdim])\
-						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						VT dxy;
+						// the boundary of a 0-dimensional cell is zero
+						if (Adim > 0) {
+							dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(ind_shift[Adim-1][Bdim]);
+						}
+						if (Bdim > 0) {
+							dxy = dxy + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						}
 						C[n].append_column(dxy);
 					}
 				}
-- 
2.43.0


From d81e2ce5de996425fe0c0e5691b8575e1c24f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 52/91] fix: EilenbergZilber lost isolated vertices and shuffle
 signs, mayer_vietoris_boundary left columns unsorted

---
 include/topology/eilenberg_zilber.hpp | 71 ++++++++++++++++++++++-----
 include/topology/mayer_vietoris.hpp   | 12 ++---
 2 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..47af8d9 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -12,6 +12,41 @@ Input is 2 simplicial complexes, X, Y
 
 namespace bats {
 
+// sign of the orientation used for k-simplices in CpxT (k = 0,...,maxdim)
+// relative to the orientation by increasing vertices
+template <typename CpxT>
+std::vector<int> simplex_orientation(const size_t maxdim) {
+	std::vector<size_t> s(maxdim + 1);
+	std::iota(s.begin(), s.end(), 0);
+	CpxT D(maxdim + 1, maxdim); // standard simplex
+	D.add_recursive(s);
+
+	std::vector<int> orient(maxdim + 1, 1);
+	for (size_t k = 1; k <= maxdim; k++) {
+		// the face opposite vertex 0 has coefficient +1 for the standard orientation
+		const std::vector<size_t> cell(s.begin(), s.begin() + k + 1);
+		const std::vector<size_t> face(s.begin() + 1, s.begin() + k + 1);
+		const int c = D.boundary_csc(k).getval(D.find_idx(face), D.find_idx(cell));
+		orient[k] = orient[k-1] * c;
+	}
+	return orient;
+}
+
+// sign of the shuffle of steps in the directions of X and Y
+// along the vertices of a simplex in the product
+inline int shuffle_sign(const std::vector<size_t>& s, const size_t n) {
+	int sgn = 1;
+	int ysteps = 1; // (-1)^(number of steps in direction Y)
+	for (size_t i = 1; i < s.size(); i++) {
+		if (s[i] / n == s[i-1] / n) {
+			sgn *= ysteps; // step in direction X
+		} else {
+			ysteps = -ysteps;
+		}
+	}
+	return sgn;
+}
+
 /*
 Eilenberg-Zilberg map
 returns:
@@ -31,7 +66,11 @@ auto EilenbergZilber(
 	using MT = ColumnMatrix<VT>;
 
 	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n*n, maxdim); // product simplicial complex
+	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
+
+	// orient[k] relates the orientation of k-simplices in CpxT
+	// to the orientation by increasing vertices
+	const std::vector<int> orient = simplex_orientation<CpxT>(maxdim);
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
@@ -51,7 +90,14 @@ auto EilenbergZilber(
 			// just do this explicitly
 			ind_shift[0][0] = 0;
 			CXCY[0] = MT(1, X.ncells(0) * Y.ncells(0));
-			F[0] = MT::identity(X.ncells(0) * Y.ncells(0));
+			F[0] = MT(X.ncells(0) * Y.ncells(0), 0);
+			for (size_t iX = 0; iX < X.ncells(0); iX++) {
+				for (size_t iY = 0; iY < Y.ncells(0); iY++) {
+					s.assign(1, prod_ind(X.get_simplex(0, iX)[0], Y.get_simplex(0, iY)[0], n));
+					F[0].append_column(VT(XY.add(s).ind));
+				}
+			}
+			s.clear();
 			continue;
 		}
 		CXCY[dim] = MT(CXCY[dim-1].ncol(), 0);
@@ -83,22 +129,25 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					VT dxy;
+					if (dX > 0) {
+						dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY]);
+					}
+					if (dY > 0) {
+						dxy = dxy + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					}
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
 					// map this basis vector in tensor product
 					// to linear combination of simplices in XY
-					// TODO: dump inds in ci to column vector
-					std::vector<size_t> ind;
-					std::vector<T> val;
-
+					// each simplex appears with the sign of its shuffle
+					std::vector<std::tuple<size_t, int>> col;
 					for (auto& c: ci) {
-						ind.emplace_back(c.ind);
-						val.emplace_back(T(1));
+						int sgn = orient[dX] * orient[dY] * orient[dim];
+						col.emplace_back(c.ind, sgn * shuffle_sign(XY.get_simplex(dim, c.ind), n));
 					}
-					F[dim].append_column(ind, val);
+					F[dim].append_column(VT(col));
 				}
 			}
 		}
diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..8afb1af 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -29,8 +29,7 @@ auto mayer_vietoris_boundary(
     col.reserve(n);
     std::vector<size_t> face;
     face.reserve(k+1);
-    std::vector<size_t> inds;
-    std::vector<int> vals;
+    std::vector<std::tuple<size_t, int>> indvals;
 
     for (auto& s : X.get_simplices(k+1)) {
         if (A.find_idx(s) != bats::NO_IND) {
@@ -39,8 +38,7 @@ auto mayer_vietoris_boundary(
             // loop over faces in lexicographical order
             size_t dim = k+1;
             size_t spx_len = dim + 1;
-            inds.clear();
-            vals.clear();
+            indvals.clear();
             for (size_t i = 0; i < spx_len; i++) {
 
                 size_t i2 = dim-i; // index to skip
@@ -55,12 +53,12 @@ auto mayer_vietoris_boundary(
                 size_t ind = Y.find_idx(face);
                 // if face is in Y, add it to boundary
                 if (ind != bats::NO_IND) {
-                    inds.emplace_back(ind);
-                    vals.emplace_back(c);
+                    indvals.emplace_back(ind, c);
                 }
                 c = -c;
             }
-            col.emplace_back(TC(inds, vals));
+            // sorts by index
+            col.emplace_back(TC(indvals));
 
         } else {
             // boundary is 0
-- 
2.43.0


From cc91622942fef6e63b7959a759d2f8a9ccd595ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 53/91] fix: products of complexes identified vertices when the
 labels are not consecutive

---
 include/complex/simplicial_complex.hpp | 16 +++++++++++++---
 include/topology/eilenberg_zilber.hpp  |  8 ++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 2367497..264b721 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -637,6 +637,16 @@ public:
 inline size_t  prod_ind(size_t i, size_t j, size_t n) {
 	return i + n*j;
 }
+// smallest n so that every vertex of X is one of 0,...,n-1
+template <typename CpxT>
+size_t vertex_bound(const CpxT& X) {
+	size_t n = 0;
+	for (size_t i = 0; i < X.ncells(0); i++) {
+		const size_t v = X.get_simplex(0, i)[0];
+		if (v >= n) { n = v + 1; }
+	}
+	return n;
+}
 // std::tuple<size_t, size_t> ind_prod(size_t k, size_t n) {
 // 	return std::tie(k % n, k / n);
 // }
@@ -720,7 +730,7 @@ CpxT TriangulatedProduct(
 	const size_t n
 ) {
 
-	CpxT XY(n * Y.ncells(0), maxdim);
+	CpxT XY(n * vertex_bound(Y), maxdim);
 
 	std::vector<size_t> s; // placeholder simplex
 	// loop over simplex dimension of product
@@ -755,12 +765,12 @@ inline CpxT TriangulatedProduct(
 	const CpxT& X,
 	const CpxT& Y,
 	const size_t maxdim
-) { return TriangulatedProduct(X, Y, maxdim, X.ncells(0)); }
+) { return TriangulatedProduct(X, Y, maxdim, vertex_bound(X)); }
 
 template <typename CpxT>
 inline CpxT TriangulatedProduct(
 	const CpxT& X,
 	const CpxT& Y
-) { return TriangulatedProduct(X, Y, X.maxdim() + Y.maxdim(), X.ncells(0)); }
+) { return TriangulatedProduct(X, Y, X.maxdim() + Y.maxdim(), vertex_bound(X)); }
 
 } // namespace bats
diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 47af8d9..00493cd 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -65,8 +65,8 @@ auto EilenbergZilber(
 	using VT = SparseVector<T, size_t>;
 	using MT = ColumnMatrix<VT>;
 
-	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
+	const size_t n = vertex_bound(X); // number of possible 0-cells in X
+	CpxT XY( n * vertex_bound(Y), maxdim); // product simplicial complex
 
 	// orient[k] relates the orientation of k-simplices in CpxT
 	// to the orientation by increasing vertices
@@ -319,8 +319,8 @@ auto EilenbergZilber(
 	auto ABinds = kron_index(X, Ainds, Y, Binds, maxdim);
 	auto RCXCY = CXCY.relative_complex(ABinds);
 
-	CpxT R = TriangulatedProduct(X, B, maxdim, X.ncells(0));
-	R.union_add(TriangulatedProduct(A, Y, maxdim, X.ncells(0)));
+	CpxT R = TriangulatedProduct(X, B, maxdim, vertex_bound(X));
+	R.union_add(TriangulatedProduct(A, Y, maxdim, vertex_bound(X)));
 
 	auto Rinds = XY.get_indices(R);
 	ChainComplex<MT> RCXY(XY, R); // relative chain complex
-- 
2.43.0


From 2858602a9392ee6e87607059a1276950fcd62fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 54/91] fix: kron_homology reduced chains that were not in the
 homology basis

---
 include/topology/eilenberg_zilber.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 00493cd..8f40ce3 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -227,8 +227,9 @@ auto kron_homology(
 			// form kronecker product of chains
 			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);
 			// find preferred representative in RXRY
-			RXRY.find_preferred_representative(cxcy, dim);
-			col.emplace_back(cxcy[RXRY.I[dim]]);
+			auto y = RXRY.to_hom_basis(cxcy, dim);
+			RXRY.find_preferred_representative(y, dim);
+			col.emplace_back(y[RXRY.I[dim]]);
 		}
 	}
 
-- 
2.43.0


From 67cb54e56ea52baaa55ed14be531dd5b4b950a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 55/91] fix: TriangulatedProduct moved backwards through
 iterators that LightSimplicialComplex cannot reverse

---
 include/complex/simplicial_complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 264b721..d35c067 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -742,14 +742,16 @@ CpxT TriangulatedProduct(
 
 			// loop over simplices of dimension dX
 			for (size_t iX = 0; iX < X.ncells(dX); iX++) {
+				auto sX = X.get_simplex(dX, iX);
 				// loop over simplices of dimension dY
 				for (size_t iY = 0; iY < Y.ncells(dY); iY++) {
+					auto sY = Y.get_simplex(dY, iY);
 					product_paths(
 						XY,
-						X.simplex_begin(dX, iX),
-						X.simplex_end(dX, iX),
-						Y.simplex_begin(dY, iY),
-						Y.simplex_end(dY, iY),
+						sX.begin(),
+						sX.end(),
+						sY.begin(),
+						sY.end(),
 						s,
 						n
 					);
-- 
2.43.0


From 57b8c7b7858599cbf0e06a79bbde8cc3156a122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 56/91] fix: relative EilenbergZilber took complements of
 unsorted indices

---
 include/topology/eilenberg_zilber.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 8f40ce3..eb9081a 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -247,6 +247,10 @@ std::vector<std::vector<size_t>> kron_index(
 ) {
 	std::vector<std::vector<size_t>> ABinds(maxdim+1);
 
+	// indices must be sorted to take complements
+	for (auto& inds : Ainds) { std::sort(inds.begin(), inds.end()); }
+	for (auto& inds : Binds) { std::sort(inds.begin(), inds.end()); }
+
 	// loop over simplex dimension of product
 	for (size_t dim = 0; dim <=maxdim; dim++) {
 		if (dim == 0) {
-- 
2.43.0


From 004f1ef50a04c5e59878d39028e630c2bf778af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 57/91] fix: reading a vector or matrix of rationals dropped
 the denominators

---
 include/linalg/abstract_vector.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 5d8345a..11a0257 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -3,6 +3,20 @@
 #include <iostream>
 #include <string>
 #include <sstream>
+#include <type_traits>
+
+// parse a value as written by operator<<
+// fractions are written as numerator/denominator
+template <typename TV>
+TV parse_value(const std::string &str) {
+	if constexpr (std::is_constructible<TV, int, int>::value) {
+		const auto k = str.find('/');
+		if (k != std::string::npos) {
+			return TV(std::stoi(str.substr(0, k)), std::stoi(str.substr(k + 1)));
+		}
+	}
+	return TV(std::stoi(str));
+}
 
 /*
 struct that holds index value pairs
@@ -22,7 +36,7 @@ struct nzpair {
   		getline(iss, token, ':');
   		ind = TI(std::stoi(token));
   		getline(iss, token);
-  		val = TV(std::stoi(token));
+  		val = parse_value<TV>(token);
     }
 
     inline bool operator==(const nzpair &other) const { return (ind == other.ind) && (val == other.val); }
-- 
2.43.0


From 6e7a7f71871d6b284d283be3313280853bd0bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 58/91] fix: reading a CellularMap from a file failed at the
 end of the file

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index afa3997..6b0e595 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -39,7 +39,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
-- 
2.43.0


From 0d71dc17a810b865964e4e08da176d88b2b8cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 59/91] fix: read_point_cloud scrambled the coordinates of the
 points

---
 include/topology/data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..1589f9d 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -55,7 +55,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // each line is a point
 }
 
 
-- 
2.43.0


From a83d3f9ba45a9a63baeec6e4684ca5823d06bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 60/91] fix: indices and labels that do not fit an int could be
 written but not read back

---
 include/complex/cubical_complex.hpp | 2 +-
 include/linalg/abstract_vector.hpp  | 2 +-
 include/linalg/col_matrix.hpp       | 4 ++--
 include/util/simplex.hpp            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 950ba51..fa94305 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -477,7 +477,7 @@ public:
 			std::string ind;
 			cube.clear();
 			while(std::getline(lstream, ind, ',')) {
-				i = std::stoi(ind);
+				i = std::stoull(ind);
 				cube.emplace_back(i);
 			}
 			add(cube);
diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 11a0257..c0b07b1 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -34,7 +34,7 @@ struct nzpair {
       std::string token;
   		std::istringstream iss(str);
   		getline(iss, token, ':');
-  		ind = TI(std::stoi(token));
+  		ind = TI(std::stoull(token));
   		getline(iss, token);
   		val = parse_value<TV>(token);
     }
diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 893f364..8337230 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -94,9 +94,9 @@ public:
 		// get dimensions from first line
 		std::istringstream iss(line);
 		getline(iss, token, ',');
-		m = std::stoi(token);
+		m = std::stoull(token);
 		getline(iss, token);
-		n = std::stoi(token);
+		n = std::stoull(token);
 		col.resize(n);
 		for (size_t j = 0; j < n; j++) {
 			getline(io, line);
diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 15d5733..7e89db0 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -109,7 +109,7 @@ void read_simplex(std::string &line, std::vector<T> &s) {
     while (getline(iss, token, ',')) {
         // std::cout << token << ',' << std::endl;
         if (token.size() > 0) {
-            s.emplace_back(std::stoi(token));
+            s.emplace_back(std::stoull(token));
         }
     }
 }
-- 
2.43.0


From 0ea31f10b41fedbfce1c8757b5a40cc433e3f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 61/91] fix: Kendall_tau compared entries that had been
 truncated to int

---
 include/util/permutation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..b07e2ca 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -520,8 +520,8 @@ size_t Kendall_tau_merge(TI array[], int const left, int const mid, int const ri
     auto const subArrayTwo = right - mid;
 
     // Create temp arrays
-    auto *leftArray = new int[subArrayOne],
-         *rightArray = new int[subArrayTwo];
+    auto *leftArray = new TI[subArrayOne],
+         *rightArray = new TI[subArrayTwo];
 
     // Copy data to temp arrays leftArray[] and rightArray[]
     for (auto i = 0; i < subArrayOne; i++)
@@ -590,7 +590,7 @@ size_t Kendall_tau(const std::vector<T>& perm)
 {
     // Create temp array
     size_t len = perm.size();
-    auto *arr = new int[len];
+    auto *arr = new T[len];
     // Copy data to temp array
     for (size_t i = 0; i < len; i++)
         arr[i] = perm[i];
-- 
2.43.0


From 6047682aac145799a51bf6fbeacfeae21980e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 62/91] fix: intersect_sorted_lt did not apply the bound to the
 first elements

---
 include/util/sorted.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..e64a5a3 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,19 +87,16 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             c.emplace_back(*ia);
             ++ia;
             ++ib;
-          if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) {break;}
         }
     }
 }
@@ -110,13 +107,11 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             return true;
-- 
2.43.0


From bb8d3b1134c1b92b35be05976add5201626867b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 63/91] fix: find_sorted_lt and find_last_nz stepped before the
 start of the list

---
 include/linalg/sparse_vector.hpp | 2 +-
 include/util/sorted.hpp          | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 87db385..fb76631 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -394,7 +394,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index e64a5a3..cd85d97 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -194,12 +194,9 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
-    it--;
-    if (*it < v) {
-        return it - begin;
-    }
-    return bats::NO_IND;
-    //return it--;
+    // it is the first element that is not < v
+    if (it == begin) { return bats::NO_IND; }
+    return (it - begin) - 1;
 }
 
 // return complement of sorted vector in range [0,n)
-- 
2.43.0


From 39a19203aa86926c776f9874f21f853b596dea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 64/91] fix: sort_sum_reduce read past the end of an empty
 range

---
 include/util/sorted.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index cd85d97..e76dfe3 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -155,6 +155,9 @@ void sort_sum_reduce(
     apply_perm(ind.data() + offset, tmpind, perm);
     apply_perm(val.data() + offset, tmpval, perm);
 
+    // nothing to reduce
+    if (ind.size() == offset) { return; }
+
     size_t fill_ptr = offset;
     size_t look_ptr = offset + 1;
     while (ind.cbegin() + look_ptr < ind.cend()) {
-- 
2.43.0


From f1aba34f2bee8e18091732c432660b89f885f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 65/91] fix: extend_levelset could not be instantiated

---
 include/zigzag/extension.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..5eb13e9 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -130,7 +130,7 @@ complex.  The filtration progresses from low to high values.
 @return val vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From 4e15cff2f4f1cd7a483fece0bb578a13f52aea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 66/91] fix: zigzag extensions took the smallest positive
 number for the lowest value

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 5eb13e9..e18277d 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
-- 
2.43.0


From 7c0d035d5ef6caf15a58cc24d701475e6ab5ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 67/91] fix: zigzag extension read boundary keys of a
 LightSimplicialComplex as vertices

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index e18277d..e44fc0b 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -54,13 +54,13 @@ auto extend_zigzag_filtration(
     for (size_t k = 0; k < X.maxdim() + 1; ++k) {
         val[k].resize(X.ncells(k));
         for (size_t i = 0; i < X.ncells(k); ++i) {
+            auto spx = X.get_simplex(k, i);
             auto minmax = detail::simplex_extrema(
-                X.simplex_begin(k, i), X.simplex_end(k, i), f0
+                spx.begin(), spx.end(), f0
             );
             T entry = minmax.second - eps;
             T removal = minmax.first + eps;
             if (entry > removal) {
-                auto spx = X.get_simplex(k, i);
                 for (auto s : spx) { std::cout << s << ","; }
                 std::cout << std::endl;
                 std::cout << minmax.first << ", " << minmax.second << ", eps = " << eps << std::endl;
-- 
2.43.0


From ca3674850c5d2bef2a595aeea4bd68f00d7f8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 68/91] fix: zigzag_toplex ended the interval of an edge at the
 last pixel instead of the largest

---
 include/topology/levelset.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..aed4039 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -85,19 +85,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -111,19 +111,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -137,19 +137,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
-- 
2.43.0


From 04e68e92ea8a76911c7ad3373a538af7bc535bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 69/91] fix: ZigzagFiltration::levelset missed cells present
 throughout the window or in a later interval

---
 include/zigzag/zigzag_filtration.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 90f6da3..e2174f4 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -150,14 +150,22 @@ public:
 	@param s1 upper bound of levelset
 	*/
 	CpxT levelset(T s0, T s1) const {
-		CpxT Y(X.ncells(0), X.maxdim());
+		// labels of 0-cells need not be consecutive
+		size_t n = X.ncells(0);
+		for (size_t i = 0; i < X.ncells(0); ++i) {
+			for (auto v : X.get_cell(0, i)) { n = std::max(n, size_t(v) + 1); }
+		}
+		CpxT Y(n, X.maxdim());
 
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
-				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
-					Y.add(X.get_cell(k, i));
+				// the cell is in the levelset if any of its intervals meets [s0,s1]
+				for (auto& bd : val[k][i]) {
+					if (bd.first <= s1 && bd.second >= s0) {
+						Y.add(X.get_cell(k, i));
+						break;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 4e46e402032e922435cefe928716de19e34b83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 70/91] fix: Rips functors terminated the program instead of
 reporting a decreasing parameter

---
 include/multigraph/functors.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..a02abb1 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -88,6 +88,17 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 }
 
 
+// check that Rips parameters do not decrease along any edge
+// an exception can not leave an OpenMP parallel region, so this is done beforehand
+template <typename NT, typename ET, typename T>
+void check_rips_parameters(const Diagram<NT, ET> &D, const std::vector<T> &rmax) {
+	for (auto& e : D.elist) {
+		if (rmax[e.targ] < rmax[e.src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+}
+
 // Create diagram of Rips complexes from subsets
 // uses a different rips parameter for each node
 template <typename T, typename M>
@@ -99,6 +110,8 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	const size_t dmax // maximum simplex dimension
 ) {
 
+	check_rips_parameters(D, rmax);
+
 	size_t n = D.nnode();
 	size_t m = D.nedge();
 	// Diagram of simplicial complexes and maps
@@ -116,9 +129,6 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
@@ -275,6 +285,8 @@ auto RipsHom(
 	using MT = ColumnMatrix<VT>;
 	using CpxT = SimplicialComplex;
 
+	check_rips_parameters(D, rmax);
+
 	size_t n = D.nnode();
 	size_t m = D.nedge();
 	// Diagram of dimensions and induced maps
@@ -287,9 +299,6 @@ auto RipsHom(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 		// handle nodes
 		auto Is = get_subset(X, D.node[s]);
 		auto It = get_subset(X, D.node[t]);
-- 
2.43.0


From 79c6f419d47b56b471688fb767dfd892a09db8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 71/91] fix: RipsHom reported dimension zero for nodes without
 an edge

---
 include/multigraph/functors.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index a02abb1..0414979 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -319,6 +319,7 @@ auto RipsHom(
 	// extract dimensions for nodes
 	// we do this by iterating over edges
 	// do this sequentially to avoid race conditions
+	std::vector<bool> has_edge(n, false);
 	for (size_t i = 0; i < m; i++) {
 		auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
@@ -326,6 +327,16 @@ auto RipsHom(
 		auto dt = TD.edata[i].nrow();
 		TD.set_node(s, ds);
 		TD.set_node(t, dt);
+		has_edge[s] = true;
+		has_edge[t] = true;
+	}
+
+	// nodes that are not on any edge
+	for (size_t i = 0; i < n; i++) {
+		if (has_edge[i]) { continue; }
+		auto Ii = get_subset(X, D.node[i]);
+		auto Xi = RipsComplex<CpxT>(Ii, dist, rmax[i], hdim+1);
+		TD.set_node(i, Reduce(Xi, FT()).hdim(hdim));
 	}
 
 	return TD;
-- 
2.43.0


From 07626edede680da0a9f3ccd089881031b1539496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 72/91] fix: ModP<2> could not be negated through a const
 reference

---
 include/linalg/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index ec0b72c..77debed 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -277,7 +277,7 @@ public:
     return *this;
   }
 
-  inline ModP& operator-() {
+  inline ModP operator-() const {
     return *this; // no-op
   }
 
-- 
2.43.0


From ef3bdebb6aa1ee5d8e587c2dfa76a3cee4a950e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:58 +0000
Subject: [PATCH 73/91] fix: Smith reductions used iterators invalidated by the
 column and row operations

---
 include/linalg/pid.hpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..8463e6d 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -94,17 +94,16 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = A[j].nzbegin();
             for (size_t j2 = j+1; j2 < A.ncol(); j2++) {
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(A[j].firstnz().val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
                 }
             }
 
             // now we loop over rows
             continue_reduction = false;
-            p = A[j].nzbegin();
+            auto p = A[j].nzbegin();
             auto rp = A[j].nzend() - 1;
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
@@ -215,10 +214,9 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(S[j].firstnz().val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                     C.mix_rows(j, j2, w, z, -y, x);
                 }
@@ -227,17 +225,18 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
+                const size_t pind = p->ind, rind = rp->ind; // the entry at rp is erased
                 if (!continue_reduction && p->val == g) {
-                    S[j].mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S[j].mix_rows(pind, rind, x, y, -z, w);
+                    R.mix_cols(pind, rind, w, -y, z, x);
                 } else {
                     // we're going to mix a row with the pivot row.
                     continue_reduction = true;
-                    S.mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S.mix_rows(pind, rind, x, y, -z, w);
+                    R.mix_cols(pind, rind, w, -y, z, x);
                 }
                 rp = S[j].nzend() - 1;
             }
@@ -322,10 +321,9 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(S[j].firstnz().val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                 }
             }
@@ -333,17 +331,18 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
+                const size_t pind = p->ind, rind = rp->ind; // the entry at rp is erased
                 if (!continue_reduction && p->val == g) {
-                    S[j].mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S[j].mix_rows(pind, rind, x, y, -z, w);
+                    R.mix_cols(pind, rind, w, -y, z, x);
                 } else {
                     // we're going to mix a row with the pivot row.
                     continue_reduction = true;
-                    S.mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S.mix_rows(pind, rind, x, y, -z, w);
+                    R.mix_cols(pind, rind, w, -y, z, x);
                 }
                 rp = S[j].nzend() - 1;
             }
-- 
2.43.0


From 113c61ef72c3584e71d57b1eed3d2896a2fbe687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:58 +0000
Subject: [PATCH 74/91] fix: extended Euclid exchanged its arguments when the
 first divides the second, so Smith factorizations were wrong or did not
 terminate

---
 include/linalg/pid.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 8463e6d..7cfcbd7 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -25,6 +25,15 @@ std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID&
     //
     // }
 
+    // if a divides b, then a is a gcd and must be returned as such:
+    // the Smith reductions rely on this to keep the pivot.
+    if (a != 0) {
+        PID quotient = b / a;
+        if (b - quotient * a == 0) {
+            return std::make_tuple(PID(1), PID(0), a, PID(1), quotient);
+        }
+    }
+
     PID s(0), old_s(1);
     PID t(1), old_t(0);
     PID r(b), old_r(a);
-- 
2.43.0


From 56cdcc5b819936621457e32aa6d9cb12ff67a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 75/91] fix: RCF_basis listed one vector too many for every
 block

---
 include/linalg/rcf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..b0b51b3 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,7 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            for (size_t k = 1; k < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From 59a5f0794f57f26d8cbe177540e8adcc27401965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 76/91] fix: companion matrices stored explicit zeros and
 failed for constant polynomials

---
 include/linalg/polynomial.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index 892e56e..091ae93 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -267,7 +267,7 @@ public:
 	}
 
 	inline bool is_monic() const {
-		return leading_coeff() == T(1);
+		return !is_zero() && leading_coeff() == T(1);
 	}
 
     // companion matrix
@@ -275,14 +275,16 @@ public:
 		if (!is_monic()) {throw std::runtime_error("Companion matrix requires monic polynomial!");}
 		size_t n = dim(); // size of companion matrix
 		std::vector<SparseVector<T>> cols(n);
+		if (n == 0) {return ColumnMatrix<SparseVector<T>>(n,n,cols);}
 		for (size_t j = 0; j < n-1; j++) {
 			cols[j] = SparseVector<T>({j+1}, {T(1)});
 		}
-		std::vector<size_t> ind(n);
-		std::vector<T> val(n);
+		std::vector<size_t> ind;
+		std::vector<T> val;
 		for (size_t i = 0; i < n; i++) {
-			ind[i] = i;
-			val[i] = -c[i];
+			if (c[i] == 0) {continue;} // only store non-zeros
+			ind.emplace_back(i);
+			val.emplace_back(-c[i]);
 		}
 		cols[n-1] = SparseVector<T>(ind, val);
 
-- 
2.43.0


From 6fd6e8a7ce0b14fee6ddc52cd99cb668b8704197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 77/91] fix: ReducedCochainComplex and CochainComplex used the
 coboundaries of the wrong dimensions

---
 include/chain/cochain_complex.hpp | 27 ++++---------------
 include/homology/cohom_basis.hpp  | 43 +++++++++++++++++--------------
 2 files changed, 28 insertions(+), 42 deletions(-)

diff --git a/include/chain/cochain_complex.hpp b/include/chain/cochain_complex.hpp
index 43e645c..6c6ed47 100755
--- a/include/chain/cochain_complex.hpp
+++ b/include/chain/cochain_complex.hpp
@@ -47,18 +47,10 @@ struct CochainComplex {
 	}
 
 	// permute basis in dimension k
+	// coboundary[k] maps into C^k, and coboundary[k+1] maps out of C^k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			coboundary[maxdim()].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].permute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
-		}
+		coboundary[k].permute_rows(perm);
+		if (k < maxdim()) { coboundary[k+1].permute_cols(perm); }
 	}
 
 	// permute basis in all dimensions
@@ -69,17 +61,8 @@ struct CochainComplex {
 	}
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(bats::util::inv_perm(perm));
-		} else if (k == maxdim()) {
-			coboundary[k].ipermute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].ipermute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
-		}
+		coboundary[k].permute_rows(bats::util::inv_perm(perm));
+		if (k < maxdim()) { coboundary[k+1].ipermute_cols(perm); }
 	}
 
 };
diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index fb5ec28..2aafe86 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -18,7 +18,7 @@ public:
 	using cochain_type = typename MT::col_type;
 
 	std::vector<size_t> dim;
-	std::vector<MT> U; // basis matrices
+	std::vector<MT> U; // basis matrices: U[k+1] is the basis of C^k
 	std::vector<MT> R; // reduced matrix
 	std::vector<std::vector<size_t>> I;
 	std::vector<p2c_type> p2c;
@@ -36,12 +36,20 @@ public:
 
 private:
 	// set cohomology indices after reduction is completed
+	// coboundary[k] maps C^{k-1} -> C^k, so the cocycles in dimension k are
+	// the zero columns of R[k+1], and the pivots of R[k] are coboundaries
 	void set_indices() {
 		// TODO: can parallelize this
 		for (size_t k = 0; k < maxdim(); k++) {
-			I[k] = extract_basis_indices(R[k], p2c[k+1]);
+			I[k] = extract_basis_indices(R[k+1], p2c[k]);
+		}
+		// in top dimension, every cochain is a cocycle
+		I[maxdim()].clear();
+		for (size_t j = 0; j < dim[maxdim()]; j++) {
+			if (p2c[maxdim()][j] == bats::NO_IND) {
+				I[maxdim()].emplace_back(j);
+			}
 		}
-		I[maxdim()] = extract_basis_indices(R[maxdim()]);
 	}
 
 public:
@@ -52,7 +60,7 @@ public:
 	ReducedCochainComplex(const CochainComplex<MT> &C) {
 		size_t dmax = C.maxdim() + 1;
 		dim = C.dim;
-		U.resize(dmax);
+		U.resize(dmax + 1);
 		R.resize(dmax);
 		I.resize(dmax);
 		p2c.resize(dmax);
@@ -63,6 +71,7 @@ public:
 			R[k] = C.coboundary[k];
 			p2c[k] = reduce_matrix(R[k], U[k]);
 		}
+		U[dmax] = MT::identity(C.dim[dmax-1]);
 
 		set_indices();
 
@@ -96,7 +105,7 @@ public:
 		size_t dmax = C.maxdim() + 1;
 		dim = C.dim;
 		R.resize(dmax);
-		U.resize(dmax);
+		U.resize(dmax + 1);
 		p2c.resize(dmax);
 		I.resize(dmax);
 
@@ -106,6 +115,7 @@ public:
 			U[k] = (k == 0) ? MT::identity(1) : MT::identity(C.dim[k-1]);
 			p2c[k] = reduce_matrix(R[k], U[k], algflag());
 		}
+		U[dmax] = MT::identity(C.dim[dmax-1]);
 
 		set_indices();
 	}
@@ -195,12 +205,12 @@ public:
 	// put vector/matrix in homology-revealing basis in dimension k
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[k+1], v);
 	}
 
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[k+1] * v;
 	}
 
 
@@ -215,7 +225,7 @@ public:
 			Iptr++;
 			i--;
 		}
-		return U[k][*Iptr];
+		return U[k+1][*Iptr];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -224,25 +234,18 @@ public:
 		typename MT::col_type &y,
 		const size_t k
 	) const {
-		if (k == maxdim()) {
-			// all cycles generate homology, so nothing to do
-			return;
-		}
-		// else we need to find the preferred representative
-		// const ColumnMatrix<TVec> &bdry,
-		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		// coboundaries in dimension k are the columns of R[k]
+		size_t j = R[k].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[k][j] != bats::NO_IND) {
+				auto i = p2c[k].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k+1], R[k][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 9008f6cfd0bc436779601695b91d727218d03cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 78/91] fix: CSCMatrix submatrix and block_select returned
 unsorted or wrong columns

---
 include/linalg/csc_matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..98f84d2 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -165,6 +165,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // rows need not be listed in increasing order
         return A;
 
     }
@@ -193,7 +194,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
@@ -203,6 +204,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // prow need not be increasing
     }
 
     /*
-- 
2.43.0


From f421e9832fa4fa127ab9b65b6287ebdb2b97d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 79/91] fix: CSC triangular solve did not compile and used
 entries before dividing by the diagonal

---
 include/linalg/csc_matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 98f84d2..9d331ba 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -424,13 +424,13 @@ public:
                 C.val.emplace_back(B.val[pBj]);
             }
 
-            size_t lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
+            size_t lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
 
             while (lastnz != bats::NO_IND) {
 
                 TI i = *(C.rowind.cbegin() + offsetCj + lastnz);
-                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 *(C.val.begin() + offsetCj + lastnz) /= A.val[A.colptr[i+1] - 1]; // y[i] = y[i] / U[i,i]
+                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 // y[:i-1] += y[i]*U[:i-1, i]
                 size_t offsetAi = A.colptr[i];
 
@@ -453,7 +453,7 @@ public:
                     }
                 }
 
-                lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
+                lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
             }
             C.colptr[j+1] = C.rowind.size();
         }
-- 
2.43.0


From 349835c5c90c786e52ef198ce6e0695dedb4d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 80/91] fix: CSCMatrix built without a size left the number of
 rows uninitialised

---
 include/linalg/csc_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 9d331ba..16cdebb 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -84,7 +84,8 @@ public:
         const std::vector<TI> &colptr,
         const std::vector<TI> &rowind,
         const std::vector<TV> &val
-    ) : colptr(colptr), rowind(rowind), val(val), n(colptr.size()-1) {
+    ) : colptr(colptr), rowind(rowind), val(val), m(0), n(colptr.size()-1) {
+        for (const TI& i : rowind) { if (i >= m) { m = i + 1; } } // smallest number of rows
         sort();
     }
 
-- 
2.43.0


From d32af493b569e15d57c70459613c606b7f2da5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:44 +0000
Subject: [PATCH 81/91] fix: zigzag barcodes with a maximum dimension crashed
 when cells above it exit and enter again

---
 include/zigzag/reduction.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..bdc205c 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -453,6 +453,10 @@ auto zigzag_barcode_reduction(
 		ssize_t k = fval.dim; // dimension
 		// std::cout << fval << std::endl;
 
+		// cells above dimension maxdim + 1 do not affect the barcode.  Their
+		// pivots would not be removed from p2c when they exit.
+		if (k > maxdim + 1) { continue; }
+
 		if (fval.entry) {
 			// right arrow -->
 			// PLEU factorization
-- 
2.43.0


From 47d21aae0e849001ab7a05643d1d308d4763f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 82/91] fix: Sierpinski diagram sends the third edge of a
 triangle to its two halves

The map between consecutive levels sent the edge from c to a to the edges
f-e and d-a, which is not a path from c to a, so that the maps did not
commute with the boundaries and, from the third level on, the boundary of
a filled triangle was not a cycle.
---
 include/topology/extras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index c9f52bf..7140205 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -101,7 +101,7 @@ Diagram<CellComplex, CellularMap> serpinski_diagram(
 
             col1[tri.ab] = Vint({t1.ab, t2.ab}, {1, 1});
             col1[tri.bc] = Vint({t2.bc, t3.bc}, {1, 1});
-            col1[tri.ca] = Vint({t2.ca, t1.ca}, {1, 1});
+            col1[tri.ca] = Vint({t1.ca, t3.ca}, {1, 1});
 
             tri_bdry.emplace_back(Vint({t1.bc, t2.ca, t3.ab}, {-1, -1, -1}));
         }
-- 
2.43.0


From 9dc483b0f6aefe3b989b98ed734e6c3be6b1ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 83/91] fix: postfix steps of strided and range iterators
 returned the advanced iterator

The postfix operators moved the iterator and returned the new position, so
that scaling or adding rows and columns of a dense matrix skipped the first
entry and wrote one entry past the end.
---
 include/future/dense.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index c0b4a45..5156f12 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -47,9 +47,9 @@ public:
 	strided_iterator(T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator it(*this); pos_ += stride_; return it; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator it(*this); pos_ -= stride_; return it; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -79,9 +79,9 @@ public:
 	const_strided_iterator(const T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~const_strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator it(*this); pos_ += stride_; return it; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator it(*this); pos_ -= stride_; return it; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -140,9 +140,9 @@ public:
 		const_iterator(const T v, const T s) : val_(v), stride_(s) {}
 		~const_iterator() {}
 
-		iterator operator++(int) { return iterator(val_+=stride_, stride_); } // postfix
+		iterator operator++(int) { iterator it(*this); val_ += stride_; return it; } // postfix
 		iterator& operator++() {val_+=stride_; return *this; } // prefix
-		iterator operator--(int) {return iterator(val_-=stride_, stride_); } // postfix
+		iterator operator--(int) { iterator it(*this); val_ -= stride_; return it; } // postfix
 		iterator& operator--() {val_-=stride_; return *this; } // prefix
 		reference operator*() const { return val_; }
 		pointer operator->() const { return &val_; }
-- 
2.43.0


From 60fb709044262df92841cf56cbb20e46f05996f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 84/91] fix: dense LU returned the inverse permutations and
 mishandled non-square matrices

The recorded row and column swaps already satisfy A = PLUQ, but their
transposes were returned.  A matrix with more rows than columns was not
eliminated in its last column and its lower part was read past the last
column; one with more columns than rows was read past its last row.
---
 include/future/lu.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index ee3f84c..bfee15d 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -137,7 +137,7 @@ MT unit_lower(const MT &A) {
 	MT L = MT::identity(m);
 	// loop in row major order
 	for (size_t i = 1; i < m; i++) {
-		for (size_t j = 0; j < i; j++ ) {
+		for (size_t j = 0; j < i && j < n; j++ ) {
 			L(i,j) = A(i,j);
 		}
 	}
@@ -172,9 +172,9 @@ LUFact<MT> LU(const MT &A0) {
 
 	MT P = MT::identity(m);
 	MT Q = MT::identity(n);
-	// maintain invariant P^T A Q^T
+	// maintain invariant A0 = P A Q
 
-	for (size_t k = 0; k < n-1; k++) {
+	for (size_t k = 0; k < m && k < n; k++) {
 		auto [mu, lam] = find_pivot_complete(A, k);
 		// do pivoting
 		A.swap_rows(k, mu);
@@ -195,7 +195,7 @@ LUFact<MT> LU(const MT &A0) {
 		}
 	}
 
-	return LUFact(P.transpose(), unit_lower(A), upper(A), Q.transpose());
+	return LUFact(std::move(P), unit_lower(A), upper(A), std::move(Q));
 }
 
 }
-- 
2.43.0


From 3d78eef6c14995e1eff4397a62210896ab30ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 85/91] fix: Span::contains wrote past its buffer and reported
 every vector as contained

---
 include/future/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/future/span.hpp b/include/future/span.hpp
index 5f1599b..cef3188 100755
--- a/include/future/span.hpp
+++ b/include/future/span.hpp
@@ -80,14 +80,14 @@ public:
 	// returns false if vector is not in span
 	template <typename TV>
 	bool contains(const TV &v) const {
-		std::vector<T> v_copy(dim());
+		std::vector<T> v_copy(vdim());
 
 		// put P^T*v in v_copy
 		gemv(Pt, v, v_copy);
 
 		l_residual(L, v_copy);
 
-		auto piv = find_pivot_high(v, vdim(), dim());
+		auto piv = find_pivot_high(v_copy, dim(), vdim());
 
 		// if v_copy has been zeroed out, then in span.
 		return piv == -1 ? true : false;
-- 
2.43.0


From b541ba941fab1896fb19ef1c80c66086a9c32db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 86/91] fix: l_solve reported inconsistent systems as
 consistent

---
 include/future/lu.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index bfee15d..f31301a 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -35,6 +35,10 @@ bool l_solve(const MT &L, I1& y, I2& x) {
 		}
 	}
 
+	// the system is consistent if there is no residual
+	for (size_t i = L.ncol(); i < L.nrow(); i++) {
+		if (y[i] != 0) { return false; }
+	}
 	return true;
 }
 
-- 
2.43.0


From 3809ee583639f245559d82205e64e114a81f8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:05 +0000
Subject: [PATCH 87/91] fix: permute_basis of a graded space of degree +1
 permuted the wrong maps

---
 include/dgvs/dgvs.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..f51c939 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,18 +97,29 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (k == 0) {
-			// only worry about boundary[1]
-			differential[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			differential[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			differential[k].permute_cols(perm);
-			differential[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+		if (degree == -1) {
+			if (k == 0) {
+				// only worry about boundary[1]
+				differential[1].permute_rows(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_cols(perm);
+				// only worry about boundary[maxdim()]
+			} else {
+				// need to handle boundary[k] and boundary[k+1]
+				differential[k].permute_cols(perm);
+				differential[k+1].permute_rows(perm);
+				// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+			}
+		} else { // degree == +1
+			// differential[k+1] : C^k -> C^{k+1}
+			if (k == 0) {
+				differential[1].permute_cols(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_rows(perm);
+			} else {
+				differential[k+1].permute_cols(perm);
+				differential[k].permute_rows(perm);
+			}
 		}
 	}
 
-- 
2.43.0


From ef77f36b16b6ecf761334bf31e3f1d541a4e4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 88/91] fix: stepping back over the faces of a light simplex
 lost vertices

---
 include/complex/light_simplicial_complex.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 0ba85d4..21fbdb1 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -128,9 +128,9 @@ private:
 
 		// prefix decrement
 		simplex_boundary_iterator& operator--() {
-			// TODO: calculate before/after
-			index_type v = after / p->offset(i);
-			after = after % p->offset(i);
+			// the vertex passed last is the lowest digit of after
+			index_type v = (after % p->offset(i+1)) / p->offset(i);
+			after -= v * p->offset(i);
 			before += v * p->offset(i+1);
 
 			c = -c;
-- 
2.43.0


From 4e920c162ab06a71f9712df50b45d8bf888ddb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 89/91] fix: ranged axpy of SetVector adds the entries in the
 range and only those

---
 include/linalg/set_vector.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index 3602098..aa7890b 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -178,8 +178,8 @@ public:
 
 		// set i2 to find first ind >= firstind
 		auto i2 = x.lower_bound(firstind);
-		if (!((*i2).ind < lastind) || i2 == x.nzend()) { return; } // nothing to do
-		while (i1 != indval.end() && i2 != x.nzend()) {
+		if (i2 == x.nzend() || !((*i2).ind < lastind)) { return; } // nothing to do
+		while (i1 != indval.end() && i2 != x.nzend() && (*i2).ind < lastind) {
 			if ((*i1).ind == (*i2).ind) {
 				TV val = (a * (*i2).val) + (*i1).val;
 				// delete the current key
@@ -190,7 +190,6 @@ public:
 					++i1;
 				}
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			} else if (*i1 < *i2) {
 				// need to catch up i1
 				++i1;
@@ -198,11 +197,10 @@ public:
 				// i2 has lower index
 				i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			}
 		}
 		// run through rest of entries in i2
-		while (i2 != x.nzend() && !((*i2).ind < lastind)) {
+		while (i2 != x.nzend() && (*i2).ind < lastind) {
 			i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 			++i2;
 		}
-- 
2.43.0


From 33b558ecf5edf4afedcfe8f15d9c9e30840f67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:56 +0000
Subject: [PATCH 90/91] fix: in-place dense matrix-vector products start from
 zero

---
 include/linalg/naive_dense.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 1e4019e..82bf44d 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -505,8 +505,8 @@ auto matmul(A<Dense<F,Acc1>> m1, A<Dense<F,Acc2>> m2){
 //inplace
 template< typename F,typename Acc1>
 void matmul(A<Dense<F,Acc1>> m1, VectorView<F> y){
-    F temp[m1.m];
-    A<Dense<F,Acc1>> prod(m1.m,1,temp);
+    std::vector<F> temp(m1.m, F(0));
+    A<Dense<F,Acc1>> prod(m1.m,1,temp.data());
     for(size_t i=0;i<m1.m;i++)
             for(size_t k=0;k<m1.n;k++){
                 prod(i,0) += m1(i,k)*y[k];
@@ -516,10 +516,10 @@ void matmul(A<Dense<F,Acc1>> m1, VectorView<F> y){
 
 template< typename F,typename Acc1>
 void matmul(VectorView<F> y, A<Dense<F,Acc1>> m1 ){
-    F temp[m1.n];
-    A<Dense<F,Acc1>> prod(1,m1.n,temp);
+    std::vector<F> temp(m1.n, F(0));
+    A<Dense<F,Acc1>> prod(1,m1.n,temp.data());
     for(size_t j=0;j<m1.n;j++)
-            for(size_t k=0;k<m1.n;k++){
+            for(size_t k=0;k<m1.m;k++){
                 prod(0,j) += y[k]*m1(k,j);
             }
     y=prod.r(0);
-- 
2.43.0


From 7e7d46aaca65489010bb32946af13bb959002e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:56 +0000
Subject: [PATCH 91/91] fix: dense pivot search and commutation check the index
 before they read

---
 include/linalg/naive_dense.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 82bf44d..d2ca1e8 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -562,7 +562,7 @@ L<Dense<F,Acc2>> commute(EL<Dense<F,Acc1>> ELmat, L<Dense<F,Acc2>> Lmat) {
     // loop over columns of ELmat
     for (j = 0; j < n && i < m; j++) {
         // increment i until we find a non-zero, or run out of column
-        while (ELmat(i,j) == F(0) && i < m) {
+        while (i < m && ELmat(i,j) == F(0)) {
             i++;
         }
         // column is all zero
@@ -732,7 +732,7 @@ auto find_pivot(M mat,size_t pr, size_t pc){
         prow ++; // try new row
         pcol = pc;
         //search col, give up if u reach last col
-        while( (mat(prow,pcol)==F(0)) & (pcol < mat.n)){
+        while( (pcol < mat.n) && (mat(prow,pcol)==F(0)) ){
             pcol++;
         }
     }while((pcol == mat.n) && !(prow == mat.m-1));
-- 
2.43.0

