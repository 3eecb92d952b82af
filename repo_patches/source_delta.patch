From 65975df35dc8f39c519d92075a0c97c48165a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 01/12] fix: mzd_slice_rescale_row rescales row 0 of its
 one-row copy, not row r

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From d8556d354857944c51857d4863fa91f50397966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 02/12] fix: _mzed_mul clears the destination before the
 Karatsuba path

---
 src/mzed.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..d9ebd07 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -100,8 +100,10 @@ mzed_t *mzed_addmul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 }
 
 mzed_t *_mzed_mul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
-  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512)
+  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512) {
+    mzed_set_ui(C, 0);
     return _mzed_addmul_karatsuba(C, A, B);
+  }
 
   const rci_t cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
-- 
2.43.0


From 13be2d0861e859e6c4833f70067dacdd019e6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 03/12] fix: gf2e_t16_init only looks up field elements

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..8ca80de 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* the top bits of each w-bit slot are unused if degree < w */
+  const word mask_w = (1<<ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From 73a4c17895cc448adcb62efbb7fb8329fb32cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 04/12] fix: Strassen recursion stops before blocks become
 empty

---
 src/strassen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..89d9ead 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -49,7 +49,9 @@ mzed_t *_mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cuto
   rci_t n = B->ncols;
 
   /* handle case first, where the input matrices are too small already */
-  if (CLOSER(m, m/2, cutoff) || CLOSER(k, k/2, cutoff) || CLOSER(n, n/2, cutoff)) {
+  const rci_t step = m4ri_radix/A->w; /* blocks have to start at a word boundary */
+  if (CLOSER(m, m/2, cutoff) || CLOSER(k, k/2, cutoff) || CLOSER(n, n/2, cutoff) ||
+      m/2 < step || k/2 < step || n/2 < step) {
     /* we copy the matrix first since it is only constant memory
        overhead and improves data locality, if you remove it make sure
        there are no speed regressions */
@@ -193,7 +195,9 @@ mzed_t *_mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int c
   rci_t n = B->ncols;
 
   /* handle case first, where the input matrices are too small already */
-  if (CLOSER(m, m/2, cutoff) || CLOSER(k, k/2, cutoff) || CLOSER(n, n/2, cutoff)) {
+  const rci_t step = m4ri_radix/A->w; /* blocks have to start at a word boundary */
+  if (CLOSER(m, m/2, cutoff) || CLOSER(k, k/2, cutoff) || CLOSER(n, n/2, cutoff) ||
+      m/2 < step || k/2 < step || n/2 < step) {
     /* we copy the matrix first since it is only constant memory
        overhead and improves data locality, if you remove it make sure
        there are no speed regressions */
-- 
2.43.0


From 65d0febabb69ec23e5997cef4e4f52c071dd3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 05/12] fix: mzed_combine8 accepts windows which are aligned
 differently than the tables

---
 src/newton_john.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..12536af 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -93,6 +93,12 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
+  if (__M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
+    /* _mzd_combine_8() expects equally aligned rows but C may be a window */
+    for(wi_t i=0; i<C->x->width; i++)
+      C->x->rows[rc][i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
+    return;
+  }
   _mzd_combine_8(C->x->rows[rc], t, C->x->width);
 }
 
-- 
2.43.0


From fcb71bcd326081cb61cc2000fde915778a6e3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 06/12] fix: crt_init returns a usable list for short operands

---
 src/blm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..2900108 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <m4ri/djb.h>
 #include <m4rie/blm.h>
 #include <m4rie/mzd_ptr.h>
@@ -104,7 +105,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = INT_MAX;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
@@ -344,7 +345,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++) 
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
-- 
2.43.0


From 5b9d2f0b1ca1fe78ba7e2f99be2cb8d87b8acf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 07/12] fix: blm_free accepts maps without DJB encoding

---
 src/blm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 2900108..fb45a30 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -613,10 +613,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
+  if (f->g && f->f != f->g)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f)
+    djb_free(f->f);
+  if (f->h)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From 2eef1baead6fcde6ebbc0f4b8665003b5835b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 08/12] fix: _mzd_poly_adapt_depth makes room for the new
 coefficients

---
 src/mzd_poly.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..54887d2 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -131,6 +131,11 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       A->x[i] = NULL;
     }
   } else {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
+    m4ri_mm_free(A->x);
+    A->x = x;
     for(int i=A->depth; i<new_depth; i++) {
       A->x[i] = mzd_init(A->nrows,A->ncols);
     }
-- 
2.43.0


From b720a805f29c36a26013feb5c13e0378f5922c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 09/12] fix: _mzd_poly_addmul_ext1 handles products of length 1
 and 2

---
 src/mzd_poly.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..d7eb11c 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,7 +11,11 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
-  const int log2d = (int)ceil(log2( (double)d ));
+  if (d == 1) {
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
+  const int log2d = (d <= 4) ? 2 : (int)ceil(log2( (double)d ));
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From 09aff89f4882eda42e56bb92d1bf49b747de8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 10/12] fix: _blm_finish_polymult handles operands of different
 length

The pivot search read rows of G_T out of range for f_ncols > g_ncols and never
terminated when the pointwise products of monomials do not span everything.
---
 src/blm.c | 94 ++++++++++++-------------------------------------------
 1 file changed, 20 insertions(+), 74 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index fb45a30..d44ddad 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -383,93 +383,39 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   assert( (f != NULL) & (f->F != NULL) & (f->G != NULL) );
 
   const rci_t m = f->F->nrows;
-  const rci_t c_nrows = f->F->ncols + f->G->ncols - 1;
-
-  mzd_t *H = mzd_init(c_nrows, m);
+  const rci_t f_ncols = f->F->ncols;
+  const rci_t g_ncols = f->G->ncols;
+  const rci_t c_nrows = f_ncols + g_ncols - 1;
+  const rci_t n = f_ncols * g_ncols;
 
   mzd_t *F_T = mzd_transpose(NULL, f->F);
   mzd_t *G_T = mzd_transpose(NULL, f->G);
 
-  mzd_t *C = mzd_init(m, m);
-
-  /* we find a full rank matrix */
-
-  word v = 0;
-  word w = 0;
-  rci_t r = 0;
-  rci_t rank = 0;
-
-  mzd_t *pivots = mzd_init(m, m4ri_radix*2);
-
-  mzp_t *P = mzp_init(m);
-  mzp_t *Q = mzp_init(m);
+  /* for all monomials x^v and x^w we need H * ((F*x^v) x (G*x^w)) == x^(v+w), i.e. C * H^T == X where
+     the rows of C are the pointwise products of the images of all pairs of monomials. */
 
-  while(rank < m) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
+  mzd_t *C = mzd_init(n, m);
+  mzd_t *X = mzd_init(MAX(n, m), c_nrows);
 
-    pivots->rows[r][0] = v;
-    pivots->rows[r][1] = w;
-
-    w++;
-    if (w == (word)f->G->ncols) {
-      v++;
-      if (v == (word)f->F->ncols)
-        v = 0;
-      w = v;
-    }
-    r++;
-    if (r == C->nrows) {
-      mzd_t *D = mzd_copy(NULL, C);
-      rank = mzd_ple(D, P, Q, 0);
-      mzd_apply_p_left(pivots, P);
-      mzd_apply_p_left(C, P);
-      mzd_free(D);
-
-      if (rank < m)
-        r = rank;
+  for(rci_t v=0; v<f_ncols; v++) {
+    for(rci_t w=0; w<g_ncols; w++) {
+      const rci_t r = v*g_ncols + w;
+      for(wi_t j=0; j<C->width; j++)
+        C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
+      mzd_write_bit(X, r, v+w, 1);
     }
   }
-  mzp_free(P);
-  mzp_free(Q);
-
-  for(r=0; r<m; r++) {
-    /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
-    v = pivots->rows[r][0];
-    w = pivots->rows[r][1];
-    for(wi_t j=0; j< C->width; j++)
-      C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
-  }
   mzd_free(F_T);
   mzd_free(G_T);
 
-  // This should be replaced by TRSM calls
-  mzd_t *D = mzd_inv_m4ri(NULL, C, 0); 
+  if (mzd_solve_left(C, X, 0, 1) != 0)
+    m4ri_die("_blm_finish_polymult: F and G do not determine the product.\n");
   mzd_free(C);
-  mzd_t *DT = mzd_transpose(NULL, D);
-  mzd_free(D);
-
-  mzd_t *a = mzd_init(1, m);
-  mzd_t *b = mzd_init(1, H->ncols);
-
-  for(rci_t i=0; i<H->nrows; i++) {
-    mzd_set_ui(a, 0);
-    for(rci_t j=0; j<m; j++) {
-      v = pivots->rows[j][0];
-      w = pivots->rows[j][1];
-      if ((v+w) == (word)i)
-        mzd_write_bit(a, 0, j, 1);
-    }
-    mzd_mul(b, a, DT, 0);
 
-    /* copy result to H */
-    for(rci_t j=0; j<H->ncols; j++)
-      mzd_write_bit(H, i, j, mzd_read_bit(b, 0, j ));
-  }
-  mzd_free(a);
-  mzd_free(b);
-  mzd_free(pivots);
+  mzd_t *H_T = mzd_init_window(X, 0, 0, m, c_nrows);
+  mzd_t *H = mzd_transpose(NULL, H_T);
+  mzd_free(H_T);
+  mzd_free(X);
 
   if (ff == NULL) {
     f->H = H;
-- 
2.43.0


From 130e51cf605e7a80115d39a6ebfc024c2a730d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/12] fix: applying a bilinear map writes to X instead of
 adding to it

As documented, and as expected by _mzd_slice_mul_blm for a given C.
---
 src/blm.c     | 3 +++
 src/mzd_ptr.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index d44ddad..15b1ec5 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -13,6 +13,9 @@ void _mzd_ptr_apply_blm_mzd(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
   mzd_t *t1 = mzd_init(A[0]->nrows, A[0]->ncols);
   mzd_t *t2 = mzd_init(B[0]->nrows, B[0]->ncols);
 
+  for(rci_t i=0; i < f->H->nrows; i++)
+    mzd_set_ui(X[i], 0);
+
   for(rci_t i=0; i < f->F->nrows; i++) {
     mzd_set_ui(t1, 0);
     for(rci_t j=0; j < f->F->ncols; j++) {
diff --git a/src/mzd_ptr.c b/src/mzd_ptr.c
index 25d59eb..1fc331f 100644
--- a/src/mzd_ptr.c
+++ b/src/mzd_ptr.c
@@ -25,5 +25,8 @@ void djb_apply_mzd_ptr(djb_t *m, mzd_t **W, const mzd_t **V) {
       }
     }
   }
+  for(int i = 0; i < m->nrows; ++i)
+    if (iszero[i])
+      mzd_set_ui(W[i], 0);
   m4ri_mm_free(iszero);
 }
-- 
2.43.0


From 8fe0200a362eb67953abe34cf683dbe6d5f4e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 12/12] fix: _mzd_poly_addmul_blm adds the product to C,
 _mzd_poly_addmul_crt returns it

---
 src/mzd_poly.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 54887d2..99f4b4c 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -218,7 +218,11 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   if (C == NULL)
     C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  /* applying f overwrites its target */
+  mzd_poly_t *T = mzd_poly_init(A->depth+B->depth-2, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  _mzd_ptr_add(C->x, (const mzd_t**)C->x, (const mzd_t**)T->x, T->depth);
+  mzd_poly_free(T);
   return C;
 }
 
@@ -230,7 +234,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0

