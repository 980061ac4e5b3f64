From 9320957d261589c3261e91e0f20bb065c6cad480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:58 +0000
Subject: [PATCH 01/51] fix: refuse decompositions whose Grids are smaller than
 the ghost zones

A Grid with fewer active zones than nghost cannot fill the ghost zones of its
neighbors: the run silently depended on the decomposition, or deadlocked when
a Grid was left with a single zone.
---
 src/init_mesh.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..71122d4 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -529,6 +529,12 @@ void init_mesh(MeshS *pM)
         if(pD->NGrid[i] > 1 && pD->Nx[i] <= 1)
           ath_error("[init_mesh]: %s/NGrid_x%d = %d and Nx%d = %d\n",block,
           (i+1),pD->NGrid[i],(i+1),pD->Nx[i]);
+
+/* each Grid must hold all the ghost zones it sends to its neighbors */
+
+        if(pD->NGrid[i] > 1 && pD->Nx[i]/pD->NGrid[i] < nghost)
+          ath_error("[init_mesh]: %s/NGrid_x%d = %d leaves Grids with fewer than %d of Nx%d = %d zones\n",
+          block,(i+1),pD->NGrid[i],nghost,(i+1),pD->Nx[i]);
       }
 
 /* check there are more processors than Grids needed by this Domain. */
-- 
2.43.0


From 5712eeead5bb4d91221e635c98038690974d7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 02/51] fix: size the shearing-box MPI buffers for every
 exchange that uses them

The exchange of the y-boundaries of the shifted ghost zones sends
nghost*nghost*(Nx3+1)*NVAR_SHARE values, and RemapVar sends
nghost*(Nx1+1)*(Nx3+1), but the buffers only allowed for
nghost*Nx2*(Nx3+1)*(NREMAP+NSCALARS), so Grids narrow in x2 wrote past
the end of the buffers.
---
 src/bvals_shear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index af9ff34..973d04a 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5501,6 +5501,12 @@ void bvals_shear_init(MeshS *pM)
 
 #ifdef MPI_PARALLEL
   size1 = nghost*pG->Nx[1]*(pG->Nx[2]+1)*(NREMAP+NSCALARS);
+/* exchange of the y-boundaries of the shifted ghost zones (all variables) */
+  size1 = MAX(size1, nghost*nghost*(pG->Nx[2]+1)*NVAR_SHARE);
+#if defined(SELF_GRAVITY) && defined(FFT_ENABLED)
+/* exchange of the y-boundaries in RemapVar */
+  size1 = MAX(size1, nghost*(pG->Nx[0]+1)*(pG->Nx[2]+1));
+#endif
 #ifdef FARGO
   size2 = nfghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)*(NFARGO+NSCALARS);
 #endif
-- 
2.43.0


From 610b606f316b7f5f1bead13081c3d36f2c1d451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 03/51] fix: reuse a 1D FFT plan only for the same number of
 transforms

The block-decomposed FFTs reused the plan of the first axis for any other
axis of equal length, although the number of 1D transforms a process holds
differs between axes when the lengths are not divisible by the process
factors.  Some rows were then left untransformed and the gravitational
potential depended on the decomposition.
---
 src/fftsrc/fft_2d.c | 2 +-
 src/fftsrc/fft_3d.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftsrc/fft_2d.c b/src/fftsrc/fft_2d.c
index 22ecb69..982a3cd 100644
--- a/src/fftsrc/fft_2d.c
+++ b/src/fftsrc/fft_2d.c
@@ -327,7 +327,7 @@ struct fft_plan_2d *fft_2d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
diff --git a/src/fftsrc/fft_3d.c b/src/fftsrc/fft_3d.c
index 5c64698..ecfd7fb 100644
--- a/src/fftsrc/fft_3d.c
+++ b/src/fftsrc/fft_3d.c
@@ -411,7 +411,7 @@ struct fft_plan_3d *fft_3d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_mid_forward = plan->plan_fast_forward;
     plan->plan_mid_backward = plan->plan_fast_backward;
   }
@@ -426,11 +426,11 @@ struct fft_plan_3d *fft_3d_create_plan(
                          NULL,1,plan->length2,FFTW_BACKWARD,FFTW_ESTIMATE);
   }
 
-  if (plan->length3 == plan->length1) {
+  if (plan->length3 == plan->length1 && plan->total3 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
-  else if (plan->length3 == plan->length2) {
+  else if (plan->length3 == plan->length2 && plan->total3 == plan->total2) {
     plan->plan_slow_forward = plan->plan_mid_forward;
     plan->plan_slow_backward = plan->plan_mid_backward;
   }
-- 
2.43.0


From 3b064ef4ef7e094ade0b49f54b89b649e2a2cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:30 +0000
Subject: [PATCH 04/51] fix: reflect particles about the inner x3 wall, not
 about x3=0 offsets

---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From b58d077c9bd5c2b31409c628ff1f4759f2130594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:29 +0000
Subject: [PATCH 05/51] fix: give every Grid a defined time step before the
 initial restriction

---
 src/init_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/init_grid.c b/src/init_grid.c
index 5b3fa3b..bd8fe2b 100644
--- a/src/init_grid.c
+++ b/src/init_grid.c
@@ -71,6 +71,7 @@ void init_grid(MeshS *pM)
       pG = pM->Domain[nl][nd].Grid;          /* set ptr to Grid */
 
       pG->time = pM->time;
+      pG->dt = 0.0;
 
 /* get (l,m,n) coordinates of Grid being updated on this processor */
 
-- 
2.43.0


From 4f787c4defb4633cdfd1e21af5a24320a2a4e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/51] fix: address child processes by their rank in the
 parent/child communicator

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 71122d4..a6ddc76 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -790,7 +790,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From b2601a40bb895594793766662be97143878f51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:06 +0000
Subject: [PATCH 07/51] fix: compute the CFL speed of each Grid from that Grid
 alone

---
 src/new_dt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..1c4e549 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -77,6 +77,7 @@ void new_dt(MeshS *pM)
 
   if (pM->Domain[nl][nd].Grid != NULL) {
     pGrid=(pM->Domain[nl][nd].Grid);
+    max_v1 = max_v2 = max_v3 = 0.0;
 
 /* Maximum velocity is always c with special relativity */
 #ifdef SPECIAL_RELATIVITY
-- 
2.43.0


From 398fe71335fbbe61c0ff369c47b73f01ca931e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:06 +0000
Subject: [PATCH 08/51] fix: size the SMR request arrays for parents as well as
 children

---
 src/smr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..21128c8 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -2002,7 +2002,7 @@ void SMR_init(MeshS *pM)
         max1 = MAX(max1,(pG->Nx[0]+1));
         max2 = MAX(max2,(pG->Nx[1]+1));
         max3 = MAX(max3,(pG->Nx[2]+1));
-        maxCG = MAX(maxCG,pG->NCGrid);
+        maxCG = MAX(maxCG,MAX(pG->NCGrid,pG->NPGrid));
       }
     }
   }
-- 
2.43.0


From 1532372bec2f88b2f4e0aea024b1c98dada00fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:16 +0000
Subject: [PATCH 09/51] fix: read restricted face fields for overlaps one
 coarse zone wide

---
 src/smr.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 21128c8..c6e40eb 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -242,16 +242,16 @@ void RestrictCorrect(MeshS *pM)
         if (nDim == 2){  /* 2D problem */
 /* Restrict B1i */
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[kcs][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[kcs][j][i] = *(pRcv++);
             }
 
-            pG->B1i[kcs][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -263,7 +263,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B2i */
           /* Set B2i at jcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[2] == NULL) {pG->B2i[kcs][jcs][i] = *(pRcv++);}
             else {pRcv++;}
@@ -277,7 +277,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B2i at jce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[3] == NULL) {pG->B2i[kcs][jce+1][i] = *(pRcv++);}
             else {pRcv++;}
@@ -296,16 +296,16 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B1i */
           for (k=kcs  ; k<=kce; k++) {
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[k][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[k][j][i] = *(pRcv++);
             }
 
-            pG->B1i[k][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -316,7 +316,7 @@ void RestrictCorrect(MeshS *pM)
           }}}
 
 /* Restrict B2i */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (k=kcs  ; k<=kce; k++) {
             /* Set B2i at jcs if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
@@ -342,7 +342,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B3i */
           /* Set B3i at kcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[4] == NULL) {pG->B3i[kcs][j][i] = *(pRcv++);}
@@ -357,7 +357,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B3i at kce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[5] == NULL) {pG->B3i[kce+1][j][i] = *(pRcv++);}
-- 
2.43.0


From d9fc29051194b0f313cfb6308a9bf6a85c258641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 10/51] fix: recompute cell-centred fields next to faces
 corrected across touching Grids

---
 src/smr.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index c6e40eb..39a0045 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -532,7 +532,14 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q2*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
               pG->B1i[k][jce+1][ib] +=
                 q2*(pCO->myEMF3[dim][kk][jce-jcs+1] - SMRemf3[kk][jce-jcs+1]);
+              for (i=ib-1; i<=ib; i++) {
+                pG->U[k][jcs-1][i].B1c =
+                  0.5*(pG->B1i[k][jcs-1][i] + pG->B1i[k][jcs-1][i+1]);
+                pG->U[k][jce+1][i].B1c =
+                  0.5*(pG->B1i[k][jce+1][i] + pG->B1i[k][jce+1][i+1]);
+              }
             }
+            i = (dim == 0) ? (ics-1) : (ice+1);
           }
 
           if (nDim == 3){ /* 3D problem */
@@ -571,7 +578,14 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                   q3*(pCO->myEMF2[dim][0][jj] - SMRemf2[0][jj]);
                 pG->B1i[kce+1][j][ib] -=
                   q3*(pCO->myEMF2[dim][kce-kcs+1][jj] - SMRemf2[kce-kcs+1][jj]);
+                for (i=ib-1; i<=ib; i++) {
+                  pG->U[kcs-1][j][i].B1c =
+                    0.5*(pG->B1i[kcs-1][j][i] + pG->B1i[kcs-1][j][i+1]);
+                  pG->U[kce+1][j][i].B1c =
+                    0.5*(pG->B1i[kce+1][j][i] + pG->B1i[kce+1][j][i+1]);
+                }
               }
+              i = (dim == 0) ? (ics-1) : (ice+1);
             }
 
             for (k=kcs-1; k<=kce+1; k++) {
@@ -642,7 +656,14 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q1*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
               pG->B2i[k][jb][ice+1] -= 
                 q1*(pCO->myEMF3[dim][kk][ice-ics+1] - SMRemf3[kk][ice-ics+1]);
+              for (j=jb-1; j<=jb; j++) {
+                pG->U[k][j][ics-1].B2c =
+                  0.5*(pG->B2i[k][j][ics-1] + pG->B2i[k][j+1][ics-1]);
+                pG->U[k][j][ice+1].B2c =
+                  0.5*(pG->B2i[k][j][ice+1] + pG->B2i[k][j+1][ice+1]);
+              }
             }
+            j = (dim == 2) ? (jcs-1) : (jce+1);
           }
 
           if (nDim == 3){ /* 3D problem */
@@ -681,7 +702,14 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                   q3*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
                 pG->B2i[kce+1][jb][i] += 
                   q3*(pCO->myEMF1[dim][kce-kcs+1][ii] - SMRemf1[kce-kcs+1][ii]);
+                for (j=jb-1; j<=jb; j++) {
+                  pG->U[kcs-1][j][i].B2c =
+                    0.5*(pG->B2i[kcs-1][j][i] + pG->B2i[kcs-1][j+1][i]);
+                  pG->U[kce+1][j][i].B2c =
+                    0.5*(pG->B2i[kce+1][j][i] + pG->B2i[kce+1][j+1][i]);
+                }
               }
+              j = (dim == 2) ? (jcs-1) : (jce+1);
             }
 
             for (k=kcs-1; k<=kce+1; k++) {
@@ -775,13 +803,26 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q1*(pCO->myEMF2[dim][jj][0] - SMRemf2[jj][0]);
               pG->B3i[kb][j][ice+1] +=
                 q1*(pCO->myEMF2[dim][jj][ice-ics+1] - SMRemf2[jj][ice-ics+1]);
+              for (k=kb-1; k<=kb; k++) {
+                pG->U[k][j][ics-1].B3c =
+                  0.5*(pG->B3i[k][j][ics-1] + pG->B3i[k+1][j][ics-1]);
+                pG->U[k][j][ice+1].B3c =
+                  0.5*(pG->B3i[k][j][ice+1] + pG->B3i[k+1][j][ice+1]);
+              }
             }
             for (i=ics, ii=0; i<=ice; i++, ii++) {
               pG->B3i[kb][jcs-1][i] +=
                 q2*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
               pG->B3i[kb][jce+1][i] -=
                 q2*(pCO->myEMF1[dim][jce-jcs+1][ii] - SMRemf1[jce-jcs+1][ii]);
+              for (k=kb-1; k<=kb; k++) {
+                pG->U[k][jcs-1][i].B3c =
+                  0.5*(pG->B3i[k][jcs-1][i] + pG->B3i[k+1][jcs-1][i]);
+                pG->U[k][jce+1][i].B3c =
+                  0.5*(pG->B3i[k][jce+1][i] + pG->B3i[k+1][jce+1][i]);
+              }
             }
+            k = (dim == 4) ? (kcs-1) : (kce+1);
           }
 
           for (j=jcs; j<=jce; j++) {
-- 
2.43.0


From b12a838b4ab5d15e7719f1318ce9f58dcd7e5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:19 +0000
Subject: [PATCH 11/51] fix: compute and write PDFs of every Domain of a
 refined mesh

---
 src/output_pdf.c | 51 +++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..6df8a27 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -44,14 +44,14 @@ void output_pdf(MeshS *pM, OutputS *pOut)
   char fmt[80];
   char fid[80]; /* File "id" for the statistics table */
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL;
-  char levstr[8],domstr[8],dirstr[8];
+  char levstr[8],domstr[8],dirstr[20];
   int nl,nd,i,j,k,is,ie,js,je,ks,ke;
   int n, data_cnt;
   double dmin, dmax, delta, dpdf, dat, scl;
-  double mean=0.0, var=0.0; /* mean and variance of the distribution */
-  double adev=0.0, sdev=0.0; /* average & standard deviation */
-  double skew=0.0, kurt=0.0; /* skewness and kurtosis of the distribution */
-  double r, s, ep=0.0; /* Temp. variables for calculating the variance, etc. */
+  double mean, var; /* mean and variance of the distribution */
+  double adev, sdev; /* average & standard deviation */
+  double skew, kurt; /* skewness and kurtosis of the distribution */
+  double r, s, ep; /* Temp. variables for calculating the variance, etc. */
 #ifdef MPI_PARALLEL
   DomainS *pD;
   int ierr, cd_data_cnt, myID_Comm_Domain;
@@ -68,6 +68,10 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           (pOut->ndomain == -1 || pOut->ndomain == nd)){
         pG = pM->Domain[nl][nd].Grid;
 
+/* The statistics are of this Domain alone */
+        mean = var = adev = sdev = skew = kurt = ep = 0.0;
+        plev = pdom = pdir = NULL;
+
 #ifdef MPI_PARALLEL
         pD = (DomainS*)&(pM->Domain[nl][nd]);
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
@@ -78,30 +82,34 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         ks = pG->ks, ke = pG->ke;
         data_cnt = (ie - is + 1)*(je - js + 1)*(ke - ks + 1);
 
-/* Are the requisite arrays allocated? */
-        if(data == NULL){
+/* Are the requisite arrays allocated, and large enough for this Domain? */
+        if(data_cnt > size_dat){
+          free(data);
           size_dat = data_cnt;
           data = (double *)calloc(size_dat,sizeof(double));
           if(data == NULL)
             ath_error("[output_pdf]: Failed to allocate data array\n");
+        }
 
 /* This choice for size_pdf represents a balance between
  * resolution in the PDF and "shot noise" in the data binning. */
 #ifdef MPI_PARALLEL
-          size_pdf = (int)sqrt((double)cd_data_cnt);
+        n = (int)sqrt((double)cd_data_cnt);
 #else /* MPI_PARALLEL */
-          size_pdf = (int)sqrt((double)size_dat);
+        n = (int)sqrt((double)data_cnt);
 #endif /* MPI_PARALLEL */
+        if(n != size_pdf){
+          size_pdf = n;
+          free(pdf);
           pdf = (int *)calloc(size_pdf,sizeof(int));
           if(pdf == NULL)
             ath_error("[output_pdf]: Failed to allocate pdf array\n");
 
 #ifdef MPI_PARALLEL
-          if(myID_Comm_Domain == 0){ /* I'm the parent */
-            cd_pdf = (int *)calloc(size_pdf,sizeof(int));
-            if(cd_pdf == NULL)
-              ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
-          }
+          free(cd_pdf);
+          cd_pdf = (int *)calloc(size_pdf,sizeof(int));
+          if(cd_pdf == NULL)
+            ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
 #endif /* MPI_PARALLEL */
         }
 
@@ -160,6 +168,9 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           dat = var;
           ierr = MPI_Allreduce(&dat,&var,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
+          dat = adev;
+          ierr = MPI_Allreduce(&dat,&adev,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+
           dat = skew;
           ierr = MPI_Allreduce(&dat,&skew,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
@@ -213,7 +224,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 #ifdef MPI_PARALLEL
 /* For parallel calculations, only the parent writes the output. */
-        if(myID_Comm_Domain != 0) return;
+        if(myID_Comm_Domain != 0) continue;
 #endif /* MPI_PARALLEL */
 
 /* Create filename and open file.  pdf files are always written in lev#
@@ -223,7 +234,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
           pdir = &dirstr[0];
-          sprintf(pdir,"../lev%d",nl);
+          sprintf(pdir,"../id0/lev%d",nl);
         }
 #else
         if (nl>0) {
@@ -241,11 +252,11 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         fname = ath_fname(pdir,pM->outfilename,plev,pdom,num_digit,
           pOut->num,pOut->id,"prb");
         if(fname == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to create filename\n");
+          ath_error("[output_pdf]: Unable to create filename\n");
         }
         pfile = fopen(fname,"w");
         if(pfile == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to open pdf file\n");
+          ath_error("[output_pdf]: Unable to open pdf file\n");
         }
         free(fname);
 
@@ -297,11 +308,11 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
         fname = ath_fname(pdir,pM->outfilename,plev,pdom,0,0,fid,"tab");
         if(fname == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to create stats filename\n");
+          ath_error("[output_pdf]: Unable to create stats filename\n");
         }
         pfile = fopen(fname,"a");
         if(pfile == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to open stats file\n");
+          ath_error("[output_pdf]: Unable to open stats file\n");
         }
         free(fname);
 
-- 
2.43.0


From cebe2aa9b3a0c3aace9b0d4586f6f01d665a9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:02 +0000
Subject: [PATCH 12/51] fix: name each Domain's output after that Domain only

---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 6 files changed, 7 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..6b8cfe8 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -90,6 +90,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..ae6f5ae 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -326,6 +326,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
 
 /* Create filename and open file.  History files are always written in lev#
  * directories of root process (rank=0 in MPI_COMM_WORLD) */
+          plev = pdom = pdir = NULL;
 #ifdef MPI_PARALLEL
           if (nl>0) {
             plev = &levstr[0];
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..b609f95 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -69,6 +69,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
@@ -319,6 +320,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..915ec34 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -90,6 +90,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..84e0621 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -60,6 +60,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..ced7732 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -72,6 +72,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
-- 
2.43.0


From 979e23663eb5931ebe2b2ada62d7a26028ececd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:28 +0000
Subject: [PATCH 13/51] fix: let only the first process of a Domain write its
 history

---
 src/dump_history.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index ae6f5ae..2642123 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -101,7 +101,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
   FILE *pfile;
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL,fmt[80];
   char levstr[8],domstr[8],dirstr[20];
-  int n, total_hst_cnt, mhst, myID_Comm_Domain=1;
+  int n, total_hst_cnt, mhst, myID_Comm_Domain=0;
 #ifdef MPI_PARALLEL
   double my_scal[NSCAL + NSCALARS + MAX_USR_H_COUNT]; /* My Volume averages */
   int ierr;
@@ -305,12 +305,12 @@ void dump_history(MeshS *pM, OutputS *pOut)
 #endif
 
 /* Only the parent (rank=0) process computes the average and writes output.
- * For single-processor jobs, myID_Comm_world is always zero. */
+ * For single-processor jobs, myID_Comm_Domain is always zero. */
 
 #ifdef MPI_PARALLEL
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
 #endif
-        if((myID_Comm_Domain==0) || (myID_Comm_world==0)){  /* I'm the parent */
+        if(myID_Comm_Domain==0){  /* I'm the parent */
 
 /* Compute volume averages */
 
@@ -350,11 +350,11 @@ void dump_history(MeshS *pM, OutputS *pOut)
 
           fname = ath_fname(pdir,pM->outfilename,plev,pdom,0,0,NULL,"hst");
           if(fname == NULL){
-            ath_perr(-1,"[dump_history]: Unable to create history filename\n");
+            ath_error("[dump_history]: Unable to create history filename\n");
           }
           pfile = fopen(fname,"a");
           if(pfile == NULL){
-            ath_perr(-1,"[dump_history]: Unable to open the history file\n");
+            ath_error("[dump_history]: Unable to open the history file\n");
           }
           free(fname);
 
-- 
2.43.0


From a3d47d9f55f1d7b06d7c5f06c18a8f40d660dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:28 +0000
Subject: [PATCH 14/51] fix: create the lev# directories before any process
 writes in them

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 01de31d..bd2bf91 100644
--- a/src/main.c
+++ b/src/main.c
@@ -463,6 +463,11 @@ int main(int argc, char *argv[])
     sprintf(level_dir,"lev%d",nl);
     mkdir(level_dir, 0775); /* Create directories for levels > 0 */
   }
+#ifdef MPI_PARALLEL
+/* Processes other than rank 0 write (history, pdf) into the directories rank 0
+ * has just created */
+  MPI_Barrier(MPI_COMM_WORLD);
+#endif
 
   gettimeofday(&tvs,NULL);
   if((have_times = times(&tbuf)) > 0)
-- 
2.43.0


From 480236e7f5cc3355a4a04d431a1698f61ae102ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:53 +0000
Subject: [PATCH 15/51] fix: allow more than MAXOUT_DEFAULT output blocks in
 data_output

---
 src/output.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 30c419e..b6e4a15 100644
--- a/src/output.c
+++ b/src/output.c
@@ -104,6 +104,7 @@
 
 static int out_count = 0;           /* Number of elements in the OutArray */
 static OutputS *OutArray = NULL;    /* Array of Output modes */
+static int *dump_flag = NULL;       /* Write output now? (last: restart) */
 static OutputS rst_out;             /* Restart Output */
 static int rst_flag = 0;            /* (0,1) -> Restart Outputs are (off,on) */
 
@@ -168,6 +169,9 @@ void init_output(MeshS *pM)
   if((OutArray = (OutputS *)malloc(maxout*sizeof(OutputS))) == NULL){
     ath_error("[init_output]: Error allocating output array\n");
   }
+  if((dump_flag = (int *)malloc((maxout+1)*sizeof(int))) == NULL){
+    ath_error("[init_output]: Error allocating output flags\n");
+  }
 
 /*--- loop over maxout output blocks, reading parameters into a temporary -----*
  *--- OutputS called new_out --------------------------------------------------*/
@@ -485,7 +489,6 @@ void data_output(MeshS *pM, const int flag)
   PropFun_t mypar_prop = NULL;
 #endif
   int n;
-  int dump_flag[MAXOUT_DEFAULT+1];
   char block[80];
 
 /* Loop over all elements in output array
@@ -610,6 +613,8 @@ void data_output_destruct(void)
     free(OutArray);
     OutArray = NULL;
     out_count = 0;
+    free(dump_flag);
+    dump_flag = NULL;
   }
 
   return;
-- 
2.43.0


From db1eaa297a3ad877f1b9e0e4758bb839fb38c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:53 +0000
Subject: [PATCH 16/51] fix: store next output times in restart files without
 rounding

---
 src/output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.c b/src/output.c
index b6e4a15..9b58cff 100644
--- a/src/output.c
+++ b/src/output.c
@@ -524,13 +524,13 @@ void data_output(MeshS *pM, const int flag)
           } else {
 	    par_seti(block,"num","%d",OutArray[n].num,"Next Output Number");
           }
-	  par_setd(block,"time","%.15e",OutArray[n].t,"Next Output Time");
+	  par_setd(block,"time","%.16e",OutArray[n].t,"Next Output Time");
 	}
       }
 /* Now do the same for the restart output block */
       sprintf(block,"output%d",rst_out.n);
       par_seti(block,"num","%d",rst_out.num+1,"Next Output Number");
-      par_setd(block,"time","%.15e",rst_out.t,"Next Output Time");
+      par_setd(block,"time","%.16e",rst_out.t,"Next Output Time");
 
 /* Write the restart file */
       (*(rst_out.res_fun))(pM,&(rst_out));
-- 
2.43.0


From 89ae5021c47d25d46bd77729a42ad47a0e729857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 17/51] fix: average cylindrical B1 on restart with the same
 expression as the integrators

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index bb66cef..8d6354d 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -261,7 +261,8 @@ void restart_grids(char *res_file, MeshS *pM)
 #if defined(CARTESIAN)
           pG->U[k][j][i].B1c = 0.5*(pG->B1i[k][j][i] +pG->B1i[k][j][i+1]);
 #elif defined(CYLINDRICAL)
-          pG->U[k][j][i].B1c = 0.5*(pG->ri[i]*pG->B1i[k][j][i] + pG->ri[i+1]*pG->B1i[k][j][i+1])/pG->r[i];
+          pG->U[k][j][i].B1c = 0.5*((pG->ri[i]/pG->r[i])*pG->B1i[k][j][i] +
+            (pG->ri[i+1]/pG->r[i])*pG->B1i[k][j][i+1]); /* as in integrators */
 #elif defined(SPHERICAL)
           pG->U[k][j][i].B1c = ((pG->px1i[i+1]-pG->px1v[i])*pG->B1i[k][j][i] + (pG->px1v[i]-pG->px1i[i])*pG->B1i[k][j][i+1])/pG->dx1;
 #endif
-- 
2.43.0


From 61627310023e62c7ddb6f071dcadfee2a844b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 18/51] fix: evaluate magnetic diffusivities before the first
 step of a restarted run

---
 src/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.c b/src/main.c
index bd2bf91..480ad65 100644
--- a/src/main.c
+++ b/src/main.c
@@ -429,6 +429,18 @@ int main(int argc, char *argv[])
 /* For new runs, set initial timestep */
 
   if(ires == 0) new_dt(&Mesh);
+#ifdef RESISTIVITY
+/* new_dt() also evaluates the magnetic diffusivities used in the next step; for
+ * restarts this must be done from the solution that was read */
+  else {
+    for (nl=0; nl<(Mesh.NLevels); nl++){
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
+        if (Mesh.Domain[nl][nd].Grid != NULL)
+          get_eta(Mesh.Domain[nl][nd].Grid);
+      }
+    }
+  }
+#endif
 
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
-- 
2.43.0


From 15de5bba096e38047da2307bd1419cbb89ceb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 19/51] fix: advance the time before solving for the potential
 of the new density

---
 src/main.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/main.c b/src/main.c
index 480ad65..ef2ab85 100644
--- a/src/main.c
+++ b/src/main.c
@@ -586,6 +586,22 @@ int main(int argc, char *argv[])
     Userwork_in_loop(&Mesh);
 
 /*--- Step 9f. ---------------------------------------------------------------*/
+/* Update Mesh time, and time in all Grid's.  Must precede the self-gravity
+ * solvers, which in a shearing box depend on the time of the new density. */
+
+    Mesh.nstep++;
+    Mesh.time += Mesh.dt;
+    for (nl=0; nl<(Mesh.NLevels); nl++){
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
+        if (Mesh.Domain[nl][nd].Grid != NULL){
+          Mesh.Domain[nl][nd].Grid->time = Mesh.time;
+        }
+      }
+    }
+
+    dt_done = Mesh.dt;
+
+/*--- Step 9g. ---------------------------------------------------------------*/
 /* Compute gravitational potential using new density, and add second-order
  * correction to fluxes for accelerations due to self-gravity. */
 
@@ -601,21 +617,6 @@ int main(int argc, char *argv[])
     }
 #endif
 
-/*--- Step 9g. ---------------------------------------------------------------*/
-/* Update Mesh time, and time in all Grid's. */
-
-    Mesh.nstep++;
-    Mesh.time += Mesh.dt;
-    for (nl=0; nl<(Mesh.NLevels); nl++){
-      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
-        if (Mesh.Domain[nl][nd].Grid != NULL){
-          Mesh.Domain[nl][nd].Grid->time = Mesh.time;
-        }
-      }
-    }
-
-    dt_done = Mesh.dt;
-
 /*--- Step 9h. ---------------------------------------------------------------*/
 /* Boundary values must be set after time is updated for t-dependent BCs.
  * With SMR, ghost zones at internal fine/coarse boundaries set by Prolongate */
-- 
2.43.0


From f3f74577e274c31a0703d76dd5c84caf7f3fbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 20/51] fix: keep interface fields equal to flux-corrected
 cell-centred fields in 1D/2D SMR

---
 src/smr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 39a0045..0a70cd4 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,9 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+/* Fields not updated by CT are cell-centered: keep interface values the same */
+            if (nDim == 1) pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+            if (nDim <= 2) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
@@ -431,6 +434,7 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q2*(pCO->myFlx[dim][kk][ii].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q2*(pCO->myFlx[dim][kk][ii].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q2*(pCO->myFlx[dim][kk][ii].B3c - *(pRcv++));
+            if (nDim == 2) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From bac8a5aa6decdbb5a9670186ea4fb3309e277951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:00 +0000
Subject: [PATCH 21/51] fix: keep B3i equal to B3c in the 2D
 special-relativistic integrator

---
 src/integrators/integrate_2d_vl_sr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..8efff8a 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -887,6 +887,8 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* BAROTROPIC */
 #ifdef MHD
       pG->U[ks][j][i].B3c -= dtodx2*(x2Flux[j+1][i].By - x2Flux[j][i].By);
+/* For consistency, set B3i to cell-centered value. */
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
       for (n=0; n<NSCALARS; n++)
@@ -1644,6 +1646,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
   for (i=(ix.i-1); i<=(ix.i+1); i++) {
     pG->U[ks][j][i].B1c = 0.5*(pG->B1i[ks][j][i] + pG->B1i[ks][j][i+1]);
     pG->U[ks][j][i].B2c = 0.5*(pG->B2i[ks][j][i] + pG->B2i[ks][j+1][i]);
+    pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;  /* for completeness */
   }}
 #endif /* MHD */
 
-- 
2.43.0


From 85e4676751fadbb4e0a5dc2300451127dae0bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:48 +0000
Subject: [PATCH 22/51] fix: refuse restart files that end before <par_end>
 instead of reading on forever

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index 8d6354d..a024e3d 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -78,7 +78,8 @@ void restart_grids(char *res_file, MeshS *pM)
 /* Skip over the parameter file at the start of the restart file */
 
   do{
-    fgets(line,MAXLEN,fp);
+    if(fgets(line,MAXLEN,fp) == NULL)
+      ath_error("[restart_grids]: No <par_end> in restart file %s\n",res_file);
   }while(strncmp(line,"<par_end>",9) != 0);
 
 /* read nstep */
-- 
2.43.0


From e1f36c27231b25d83cb59733204e073e3f89c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:21 +0000
Subject: [PATCH 23/51] fix: do not discard a signal that arrives while
 processes agree on stopping

---
 src/ath_signal.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ath_signal.c b/src/ath_signal.c
index 824db28..561e642 100644
--- a/src/ath_signal.c
+++ b/src/ath_signal.c
@@ -61,10 +61,14 @@ int ath_sig_act(int *piquit)
 
 #endif /* MPI_PARALLEL */
 
-  if(sig_caught == SIGTERM)
-    ath_pout(0,"Caught SIGTERM: Terminating program execution\n");
-
-  sig_caught = 0; /* Reset the signal */
+  if(*piquit != 0){
+    if(sig_caught == SIGTERM)
+      ath_pout(0,"Caught SIGTERM: Terminating program execution\n");
+
+/* Reset the signal only once it is acted upon: one that arrived after its value
+ * was sampled above must be seen by the next call */
+    sig_caught = 0;
+  }
 
   return *piquit;
 }
-- 
2.43.0


From 7b3cdc2611b6d7562ae515ef0133f777ca2ce69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:57 +0000
Subject: [PATCH 24/51] fix: report output files that could not be written
 completely

---
 src/ath_files.c                       | 21 +++++++++-
 src/ath_log.c                         | 23 +++++++++--
 src/dump_binary.c                     |  4 +-
 src/dump_history.c                    |  4 +-
 src/dump_tab.c                        |  8 ++--
 src/dump_vtk.c                        |  4 +-
 src/output_pdf.c                      |  8 ++--
 src/output_pgm.c                      |  4 +-
 src/output_ppm.c                      |  4 +-
 src/output_tab.c                      | 12 +++---
 src/output_vtk.c                      |  8 ++--
 src/particles/dump_particle_history.c |  2 +-
 src/particles/output_particle.c       |  3 +-
 src/prototypes.h                      |  1 +
 src/restart.c                         |  4 +-
 src/utils.c                           | 56 +++++++++++++--------------
 16 files changed, 101 insertions(+), 65 deletions(-)

diff --git a/src/ath_files.c b/src/ath_files.c
index e6b884d..688a27e 100644
--- a/src/ath_files.c
+++ b/src/ath_files.c
@@ -19,7 +19,8 @@
  *     -   ext      = file extension, e.g. ".tab", ".bin", ".dx", ".vtk"
  *
  * CONTAINS PUBLIC FUNCTIONS: 
- *   ath_fname()							      */
+ *   ath_fname()
+ *   ath_fclose()							      */
 /*============================================================================*/
 #include <stdio.h>
 #include <stdlib.h>
@@ -128,3 +129,21 @@ char *ath_fname(const char *path, const char *basename,
 
   return fname;
 }
+
+/*----------------------------------------------------------------------------*/
+/*! \fn void ath_fclose(FILE *fp, const char *fname)
+ *  \brief Closes an output file, and reports any error made in writing it.
+ *
+ *   Data is buffered, so whether all of it could be stored (e.g. disk full) is
+ *   only known for certain after the file has been closed.  */
+void ath_fclose(FILE *fp, const char *fname)
+{
+  int err = ferror(fp);
+
+  if(fclose(fp) != 0) err = 1;
+  if(err)
+    ath_perr(-1,"[ath_fclose]: Error writing file \"%s\": it is incomplete\n",
+             fname);
+
+  return;
+}
diff --git a/src/ath_log.c b/src/ath_log.c
index 087c867..959de1e 100644
--- a/src/ath_log.c
+++ b/src/ath_log.c
@@ -112,6 +112,21 @@ static int ath_log_err_open(void)
   return 0;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static void ath_log_fclose(FILE *fp, const char *fname)
+ *  \brief Closes a log file, and reports on stderr if it is incomplete.
+ */
+static void ath_log_fclose(FILE *fp, const char *fname)
+{
+  int err = ferror(fp);
+
+  if(fclose(fp) != 0) err = 1;
+  if(err)
+    fprintf(stderr,"[ath_log_close]: Error writing log file \"%s\"\n",fname);
+
+  return;
+}
+
 /*----------------------------------------------------------------------------*/
 /*! \fn void ath_log_set_level(const int out, const int err)
  *  \brief Sets "output level" and "error level" from input 
@@ -182,14 +197,14 @@ void ath_log_close(void)
 /* clear the flags to open the log files */
   open_out_flag = open_err_flag = 0;
 
+/* close the files, and report on stderr if anything in them was lost */
+  if(ath_fp_out != NULL){ ath_log_fclose(ath_fp_out,out_fname); ath_fp_out=NULL; }
+  if(ath_fp_err != NULL){ ath_log_fclose(ath_fp_err,err_fname); ath_fp_err=NULL; }
+
 /* free the log file names */
   if(out_fname != NULL){ free(out_fname);  out_fname = NULL; }
   if(err_fname != NULL){ free(err_fname);  err_fname = NULL; }
 
-/* close the files */
-  if(ath_fp_out != NULL){ fclose(ath_fp_out);  ath_fp_out = NULL; }
-  if(ath_fp_err != NULL){ fclose(ath_fp_err);  ath_fp_err = NULL; }
-
   return;
 }
 
diff --git a/src/dump_binary.c b/src/dump_binary.c
index 6b8cfe8..9be8e86 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -108,7 +108,6 @@ void dump_binary(MeshS *pM, OutputS *pOut)
           ath_error("[dump_binary]: Unable to open binary dump file\n");
           return;
         }
-        free(fname);
 
 /* Write the coordinate system information */
 #if defined CARTESIAN
@@ -257,7 +256,8 @@ void dump_binary(MeshS *pM, OutputS *pOut)
 #endif
 
 /* close file and free memory */
-        fclose(p_binfile); 
+        ath_fclose(p_binfile,fname);
+        free(fname); 
         free(datax); 
         free(datay); 
         free(dataz); 
diff --git a/src/dump_history.c b/src/dump_history.c
index 2642123..53cd610 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -356,7 +356,6 @@ void dump_history(MeshS *pM, OutputS *pOut)
           if(pfile == NULL){
             ath_error("[dump_history]: Unable to open the history file\n");
           }
-          free(fname);
 
 /* Write out column headers, but only for first dump */
 
@@ -461,7 +460,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             fprintf(pfile,fmt,scal[i]);
           }
           fprintf(pfile,"\n");
-          fclose(pfile);
+          ath_fclose(pfile,fname);
+          free(fname);
   
         }
       }
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b609f95..b9f877f 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -88,7 +88,6 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         if((pfile = fopen(fname,"w")) == NULL){
           ath_error("[dump_tab]: Unable to open tab file %s\n",fname);
         }
-        free(fname);
 
 /* Upper and Lower bounds on i,j,k for data dump */
         il = pG->is; iu = pG->ie;
@@ -268,7 +267,8 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
             }
           }
         }
-        fclose(pfile);
+        ath_fclose(pfile,fname);
+        free(fname);
       }}
     } /* end loop over domains */
   } /* end loop over levels */
@@ -339,7 +339,6 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         if((pfile = fopen(fname,"w")) == NULL){
           ath_error("[dump_tab]: Unable to open ppm file %s\n",fname);
         }
-        free(fname);
 
 /* Upper and Lower bounds on i,j,k for data dump */
 
@@ -522,7 +521,8 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
             }
           }
         }
-        fclose(pfile);
+        ath_fclose(pfile,fname);
+        free(fname);
       }}
     } /* end loop over domains */
   } /* end loop over levels */
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 915ec34..fc71ba7 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -108,7 +108,6 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
           ath_error("[dump_vtk]: Unable to open vtk dump file\n");
           return;
         }
-        free(fname);
 
 /* Allocate memory for temporary array of floats */
 
@@ -317,7 +316,8 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
 
 /* close file and free memory */
 
-        fclose(pfile);
+        ath_fclose(pfile,fname);
+        free(fname);
         free(data);
         if(strcmp(pOut->out,"prim") == 0) free_3d_array(W);
       }}
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 6df8a27..55bd5f9 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -258,7 +258,6 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         if(pfile == NULL){
           ath_error("[output_pdf]: Unable to open pdf file\n");
         }
-        free(fname);
 
 /* Write out some extra information in a header */
         fprintf(pfile,"# Time = %21.15e\n",pG->time);
@@ -301,7 +300,8 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         else
           fprintf(pfile,fmt,dmax,1.0);
 
-        fclose(pfile);
+        ath_fclose(pfile,fname);
+        free(fname);
 
 /* Also write a history type file on the statistics */
         sprintf(fid,"prb_stat.%s",pOut->id);
@@ -314,7 +314,6 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         if(pfile == NULL){
           ath_error("[output_pdf]: Unable to open stats file\n");
         }
-        free(fname);
 
         if(pOut->num == 0){
           fprintf(pfile,"# expr = \"%s\"\n#\n",pOut->out);
@@ -339,7 +338,8 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         fprintf(pfile,fmt,kurt);
         fprintf(pfile,"\n");
 
-        fclose(pfile);
+        ath_fclose(pfile,fname);
+        free(fname);
       }}
     }
   }
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 84e0621..7d29790 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -80,7 +80,6 @@ void output_pgm(MeshS *pM, OutputS *pOut)
             ath_error("[output_pgm]: Unable to open pgm file %s\n",fname);
             return;
           }
-          free(fname);
 
           fprintf(pfile,"P5\n%d %d\n255\n",nx1,nx2);
 
@@ -125,7 +124,8 @@ void output_pgm(MeshS *pM, OutputS *pOut)
 
 /* Close the file, free memory */
 
-          fclose(pfile); 
+          ath_fclose(pfile,fname);
+          free(fname); 
           free_2d_array(data);
         }
       }}
diff --git a/src/output_ppm.c b/src/output_ppm.c
index ced7732..5bd0d1a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -91,7 +91,6 @@ void output_ppm(MeshS *pM, OutputS *pOut)
           if((pfile = fopen(fname,"w")) == NULL){
             ath_error("[output_ppm]: Unable to open ppm file %s\n",fname);
           }
-          free(fname);
 
 /* Store the global min / max, for output at end of run */
           minmax2(data,nx2,nx1,&dmin,&dmax);
@@ -117,7 +116,8 @@ void output_ppm(MeshS *pM, OutputS *pOut)
           }
 
 /* Close the file, free memory */
-          fclose(pfile);
+          ath_fclose(pfile,fname);
+          free(fname);
           free_2d_array(data);
           data = NULL;
         }
diff --git a/src/output_tab.c b/src/output_tab.c
index 857c553..c3fe3b0 100644
--- a/src/output_tab.c
+++ b/src/output_tab.c
@@ -116,7 +116,6 @@ void output_tab_1d(MeshS *pM, OutputS *pOut, int nl, int nd)
   if (pFile == NULL) {
     ath_error("[output_tab]: Unable to open tab file %s\n",fname);
   }
-  free(fname);
 
 /* write data */
   for (i=0; i<nx1; i++) {
@@ -130,7 +129,8 @@ void output_tab_1d(MeshS *pM, OutputS *pOut, int nl, int nd)
   pOut->gmin = MIN(dmin,pOut->gmin);
   pOut->gmax = MAX(dmax,pOut->gmax);
 
-  fclose(pFile);
+  ath_fclose(pFile,fname);
+  free(fname);
   free_1d_array(data); /* Free the memory we malloc'd */
 }
 
@@ -182,7 +182,6 @@ void output_tab_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   if (pFile == NULL) {
     ath_error("[output_tab]: Unable to open tab file %s\n",fname);
   }
-  free(fname);
 
 /* write data */
   for (j=0; j<nx2; j++) {
@@ -205,7 +204,8 @@ void output_tab_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
     pOut->gmax = MAX(dmax,pOut->gmax);
   }
 
-  fclose(pFile);
+  ath_fclose(pFile,fname);
+  free(fname);
   free_2d_array(data); /* Free the memory we malloc'd */
 }
 
@@ -254,7 +254,6 @@ void output_tab_3d(MeshS *pM, OutputS *pOut, int nl, int nd)
   if (pFile == NULL) {
     ath_error("[output_tab]: Unable to open tab file %s\n",fname);
   }
-  free(fname);
 
 /* write data */
   for (k=0; k<nx3; k++) {
@@ -281,6 +280,7 @@ void output_tab_3d(MeshS *pM, OutputS *pOut, int nl, int nd)
     pOut->gmax = MAX(dmax,pOut->gmax);
   }
 
-  fclose(pFile);
+  ath_fclose(pFile,fname);
+  free(fname);
   free_3d_array(data); /* Free the memory we malloc'd */
 }
diff --git a/src/output_vtk.c b/src/output_vtk.c
index eee6d5c..67187ca 100644
--- a/src/output_vtk.c
+++ b/src/output_vtk.c
@@ -106,7 +106,6 @@ static void output_vtk_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   if((pfile = fopen(fname,"w")) == NULL){
     ath_error("[output_vtk]: Unable to open vtk file %s\n",fname);
   }
-  free(fname);
 
 /* Store the global min / max, for output at end of run */
   minmax2(data2d,nx2,nx1,&dmin,&dmax);
@@ -167,7 +166,8 @@ static void output_vtk_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
 
 /* close file and free memory */
 
-  fclose(pfile);
+  ath_fclose(pfile,fname);
+  free(fname);
   free(data);
   free_2d_array(data2d);
   return;
@@ -215,7 +215,6 @@ static void output_vtk_3d(MeshS *pM, OutputS *pOut, int nl, int nd)
   if((pfile = fopen(fname,"w")) == NULL){
     ath_error("[output_vtk]: Unable to open vtk file %s\n",fname);
   }
-  free(fname);
 
 /* Store the global min / max, for output at end of run */
   minmax3(data3d,nx3,nx2,nx1,&dmin,&dmax);
@@ -273,7 +272,8 @@ static void output_vtk_3d(MeshS *pM, OutputS *pOut, int nl, int nd)
 
 /* close file and free memory */
 
-  fclose(pfile);
+  ath_fclose(pfile,fname);
+  free(fname);
   free(data);
   free_3d_array(data3d);
   return;
diff --git a/src/particles/dump_particle_history.c b/src/particles/dump_particle_history.c
index cde9651..8284e06 100644
--- a/src/particles/dump_particle_history.c
+++ b/src/particles/dump_particle_history.c
@@ -408,7 +408,7 @@ void dump_particle_history(MeshS *pM, OutputS *pOut)
    }
    fprintf(fid,"\n");
 
-    fclose(fid);
+    ath_fclose(fid,fname);
     free(fname);
   }
 
diff --git a/src/particles/output_particle.c b/src/particles/output_particle.c
index 3bfbf60..2fa0d3a 100644
--- a/src/particles/output_particle.c
+++ b/src/particles/output_particle.c
@@ -266,7 +266,8 @@ void dump_particle_binary(MeshS *pM, OutputS *pOut)
     }
   }
 
-  fclose(pfile);
+  ath_fclose(pfile,fname);
+  free(fname);
 
   return;
 }
diff --git a/src/prototypes.h b/src/prototypes.h
index 6a18316..dd364b2 100644
--- a/src/prototypes.h
+++ b/src/prototypes.h
@@ -54,6 +54,7 @@ char *ath_fname(const char *path, const char *basename,
                 const char *levstr, const char *domstr,
                 const int dlen, const int idump, 
                 const char *id, const char *ext);
+void ath_fclose(FILE *fp, const char *fname);
 
 /*----------------------------------------------------------------------------*/
 /* ath_signal.c */
diff --git a/src/restart.c b/src/restart.c
index a024e3d..f89deb7 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -536,7 +536,6 @@ void dump_restart(MeshS *pM, OutputS *pout)
     ath_error("[dump_restart]: Unable to open restart file\n");
     return;
   }
-  free(fname);
 
 /* Add the current time & nstep to the parameter file */
 
@@ -974,7 +973,8 @@ void dump_restart(MeshS *pM, OutputS *pout)
   fprintf(fp,"\nUSER_DATA\n");
   problem_write_restart(pM, fp);
 
-  fclose(fp);
+  ath_fclose(fp,fname);
+  free(fname);
 
   free_1d_array(buf);
 
diff --git a/src/utils.c b/src/utils.c
index 6d52fd7..10ee6c2 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -491,7 +491,7 @@ void compute_l1_error(const char *problem, const MeshS *pM,
 
   fprintf(fp,"\n");
 
-  fclose(fp);
+  ath_fclose(fp,fname);
   free(fname);
 
   return;
@@ -1024,33 +1024,33 @@ Real fx(Real x)
 #endif
 }
 
-Real avgXZ(Real (*func)(Real, Real, Real), const GridS *pG, const int i, const
-int j, const int k) {
-  Real x1,x2,x3;
-
-  Real fXZ(Real z);
-
-  nrfunc=func;
-  cc_pos(pG,i,j,k,&x1,&x2,&x3);
-  xmin = x1 - 0.5*pG->dx1;  xmax = x1 + 0.5*pG->dx1;
-  zmin = x3 - 0.5*pG->dx3;  zmax = x3 + 0.5*pG->dx3;
-
-  ysav = x2;
-  return qsimp(fXZ,zmin,zmax)/(pG->dx1*pG->dx3);
-
-}
-
-Real fx2(Real x)
-{
-  return nrfunc(x,ysav,zsav);
-}
-
-Real fXZ(Real z) {
-  Real fx2(Real x);
-
-  zsav = z;
-  return qsimp(fx2,xmin,xmax);
-}
+Real avgXZ(Real (*func)(Real, Real, Real), const GridS *pG, const int i, const
+int j, const int k) {
+  Real x1,x2,x3;
+
+  Real fXZ(Real z);
+
+  nrfunc=func;
+  cc_pos(pG,i,j,k,&x1,&x2,&x3);
+  xmin = x1 - 0.5*pG->dx1;  xmax = x1 + 0.5*pG->dx1;
+  zmin = x3 - 0.5*pG->dx3;  zmax = x3 + 0.5*pG->dx3;
+
+  ysav = x2;
+  return qsimp(fXZ,zmin,zmax)/(pG->dx1*pG->dx3);
+
+}
+
+Real fx2(Real x)
+{
+  return nrfunc(x,ysav,zsav);
+}
+
+Real fXZ(Real z) {
+  Real fx2(Real x);
+
+  zsav = z;
+  return qsimp(fx2,xmin,xmax);
+}
 
 /*----------------------------------------------------------------------------*/
 /* FUNCTION vecpot2b1i,vecpot2b2i,vecpot2b3i
-- 
2.43.0


From 4fe5d565d4d4b537b3ad63c72c77762dc23a3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:46 +0000
Subject: [PATCH 25/51] fix: fatal errors end the whole MPI job

Several fatal-error paths called exit() after printing a message, which
ends only the calling process; the others may wait for it for ever.
Use ath_error(), which calls MPI_Abort().
---
 src/ath_log.c                  | 13 ++++++-------
 src/bvals_mhd.c                | 21 +++++++--------------
 src/gravity/bvals_grav.c       |  3 +--
 src/output.c                   |  4 ++--
 src/particles/bvals_particle.c | 21 +++++++--------------
 src/particles/exchange.c       | 21 +++++++--------------
 src/utils.c                    |  3 +--
 7 files changed, 31 insertions(+), 55 deletions(-)

diff --git a/src/ath_log.c b/src/ath_log.c
index 959de1e..5637ee4 100644
--- a/src/ath_log.c
+++ b/src/ath_log.c
@@ -159,17 +159,15 @@ void ath_log_open(const char *basename, const int lazy, const char *mode)
 
 /* ath_fp_out filename */
   if((out_fname = (char*)malloc(size*sizeof(char))) == NULL){
-    fprintf(stderr,"[ath_log_open]: Error constructing filename \"%s.out\"\n",
-	    basename);
-    exit(EXIT_FAILURE);
+    ath_error("[ath_log_open]: Error constructing filename \"%s.out\"\n",
+	      basename);
   }
   sprintf(out_fname,"%s.out",basename);
 
 /* ath_fp_err filename */
   if((err_fname = (char*)malloc(size*sizeof(char))) == NULL){
-    fprintf(stderr,"[ath_log_open]: Error constructing filename \"%s.err\"\n",
-	    basename);
-    exit(EXIT_FAILURE);
+    ath_error("[ath_log_open]: Error constructing filename \"%s.err\"\n",
+	      basename);
   }
   sprintf(err_fname,"%s.err",basename);
 
@@ -182,7 +180,8 @@ void ath_log_open(const char *basename, const int lazy, const char *mode)
   if(lazy == 0){
     /* open the files now and exit on failure! */
     if(ath_log_out_open() || ath_log_err_open())
-      exit(EXIT_FAILURE);
+      ath_error("[ath_log_open]: Error opening the log files of \"%s\"\n",
+		basename);
   }
 
   return;
diff --git a/src/bvals_mhd.c b/src/bvals_mhd.c
index f1218d4..651a3c1 100644
--- a/src/bvals_mhd.c
+++ b/src/bvals_mhd.c
@@ -579,8 +579,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ix1=%d unknown\n",pM->BCFlag_ix1);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ix1=%d unknown\n",pM->BCFlag_ix1);
             }
           }
         }
@@ -626,8 +625,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ox1=%d unknown\n",pM->BCFlag_ox1);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ox1=%d unknown\n",pM->BCFlag_ox1);
             }
           }
         }
@@ -679,8 +677,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ix2=%d unknown\n",pM->BCFlag_ix2);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ix2=%d unknown\n",pM->BCFlag_ix2);
             }
           }
         }
@@ -725,8 +722,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ox2=%d unknown\n",pM->BCFlag_ox2);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ox2=%d unknown\n",pM->BCFlag_ox2);
             }
           }
         }
@@ -777,8 +773,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ix3=%d unknown\n",pM->BCFlag_ix3);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ix3=%d unknown\n",pM->BCFlag_ix3);
             }
           }
         }
@@ -823,8 +818,7 @@ void bvals_mhd_init(MeshS *pM)
             break;
 
             default:
-              ath_perr(-1,"[bvals_init]:bc_ox3=%d unknown\n",pM->BCFlag_ox3);
-              exit(EXIT_FAILURE);
+              ath_error("[bvals_init]:bc_ox3=%d unknown\n",pM->BCFlag_ox3);
             }
           }
         }
@@ -934,8 +928,7 @@ void bvals_mhd_fun(DomainS *pD, enum BCDirection dir, VGFun_t prob_bc)
     pD->ox3_BCFun = prob_bc;
     break;
   default:
-    ath_perr(-1,"[bvals_fun]: Unknown direction = %d\n",dir);
-    exit(EXIT_FAILURE);
+    ath_error("[bvals_fun]: Unknown direction = %d\n",dir);
   }
   return;
 }
diff --git a/src/gravity/bvals_grav.c b/src/gravity/bvals_grav.c
index 59108d7..62c377a 100644
--- a/src/gravity/bvals_grav.c
+++ b/src/gravity/bvals_grav.c
@@ -817,8 +817,7 @@ void bvals_grav_fun(DomainS *pD, enum BCDirection dir, VGFun_t prob_bc)
     pD->ox3_GBCFun = prob_bc;
     break;
   default:
-    ath_perr(-1,"[bvals_grav_fun]: Unknown direction = %d\n",dir);
-    exit(EXIT_FAILURE);
+    ath_error("[bvals_grav_fun]: Unknown direction = %d\n",dir);
   }
   return;
 }
diff --git a/src/output.c b/src/output.c
index 9b58cff..c82e4d4 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1430,12 +1430,12 @@ float *getRGB(char *name)
 
 /* failed to find a matching palette: print them all and exit...  */
 
-  ath_perr(-1,"Fatal error: could not find palette=%s, valid names are:\n",
+  ath_perr(-1,"Could not find palette=%s, valid names are:\n",
     name);
   for (i=0; rgb[i].name && rgb[i].rgb; i++)
     ath_perr(-1,"%s ",rgb[i].name);
   ath_perr(-1,"\n");
-  exit(EXIT_FAILURE);
+  ath_error("[getRGB]: unknown palette \"%s\"\n",name);
 
   return NULL; /* Never reached, avoids compiler warnings */
 }
diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 6a36514..42cb7d5 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1105,9 +1105,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ix1 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ix1 = %d unknown\n",
                     pM->BCFlag_ix1);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1137,9 +1136,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ox1 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ox1 = %d unknown\n",
                     pM->BCFlag_ox1);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1174,9 +1172,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ix2 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ix2 = %d unknown\n",
                     pM->BCFlag_ix2);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1206,9 +1203,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ox2 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ox2 = %d unknown\n",
                                                          pM->BCFlag_ox2);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1243,9 +1239,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ix3 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ix3 = %d unknown\n",
                     pM->BCFlag_ix3);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1275,9 +1270,8 @@ void bvals_particle_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[set_bvals_particle_init]: bc_ox3 = %d unknown\n",
+	ath_error("[set_bvals_particle_init]: bc_ox3 = %d unknown\n",
                     pM->BCFlag_ox3);
-	exit(EXIT_FAILURE);
       }
 
     }
@@ -1313,8 +1307,7 @@ void set_bvals_particle_fun(enum BCDirection dir, VGFun_t prob_bc)
     apply_ox3 = prob_bc;
     break;
   default:
-    ath_perr(-1,"[set_bvals_particle_fun]: Unknown direction = %d\n",dir);
-    exit(EXIT_FAILURE);
+    ath_error("[set_bvals_particle_fun]: Unknown direction = %d\n",dir);
   }
   return;
 }
diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..7faaed8 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -1393,9 +1393,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ix1 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ix1 = %d unknown\n",
                     pM->BCFlag_ix1);
-	exit(EXIT_FAILURE);
       }
     }
 
@@ -1419,9 +1418,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ox1 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ox1 = %d unknown\n",
                     pM->BCFlag_ox1);
-	exit(EXIT_FAILURE);
       }
     }
   }
@@ -1449,9 +1447,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ix2 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ix2 = %d unknown\n",
                     pM->BCFlag_ix2);
-	exit(EXIT_FAILURE);
       }
     }
 
@@ -1475,9 +1472,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ox2 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ox2 = %d unknown\n",
                     pM->BCFlag_ox2);
-	exit(EXIT_FAILURE);
       }
     }
   }
@@ -1505,9 +1501,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ix3 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ix3 = %d unknown\n",
                     pM->BCFlag_ix3);
-	exit(EXIT_FAILURE);
       }
     }
 
@@ -1531,9 +1526,8 @@ void exchange_gpcouple_init(MeshS *pM)
 	break;
 
       default:
-	ath_perr(-1,"[exchange_init]: bc_ox3 = %d unknown\n",
+	ath_error("[exchange_init]: bc_ox3 = %d unknown\n",
                     pM->BCFlag_ox3);
-	exit(EXIT_FAILURE);
       }
     }
   }
@@ -1661,8 +1655,7 @@ void exchange_gpcouple_fun(enum BCDirection dir, VGFun_t prob_bc)
     apply_ox3 = prob_bc;
     break;
   default:
-    ath_perr(-1,"[set_bvals_particle_fun]: Unknown direction = %d\n",dir);
-    exit(EXIT_FAILURE);
+    ath_error("[set_bvals_particle_fun]: Unknown direction = %d\n",dir);
   }
   return;
 }
diff --git a/src/utils.c b/src/utils.c
index 10ee6c2..3252b86 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -248,8 +248,7 @@ Real compute_div_b(GridS *pG)
   return maxdivB;
 
 #else
-  fprintf(stderr,"[compute_div_b]: This only works for MHD!\n");
-  exit(EXIT_FAILURE);
+  ath_error("[compute_div_b]: This only works for MHD!\n");
   return 0.0;
 #endif /* MHD */
 }
-- 
2.43.0


From 66a6e07797a98985529cec0b1a280ea6f1f97bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:46 +0000
Subject: [PATCH 26/51] fix: arguments of two error messages

x1max < x1min in the input crashed in ath_error (a missing argument for
a %s); reversed slice limits printed meaningless numbers.
---
 src/init_mesh.c | 2 +-
 src/output.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index a6ddc76..2a5927c 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -184,7 +184,7 @@ void init_mesh(MeshS *pM)
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
         if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),block);
+          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
diff --git a/src/output.c b/src/output.c
index c82e4d4..e0da5ab 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1403,7 +1403,7 @@ static void parse_slice(char *block, char *axname, Real *l, Real *u, int *flag)
       *l = *u = atof(expr);
     }
     if (*l > *u) {
-      ath_error("[parse_slice]: lower slice limit %d > upper %d in %s\n",
+      ath_error("[parse_slice]: lower slice limit %g > upper %g in %s\n",
       *l,*u,expr);
     }
     free(expr);
-- 
2.43.0


From b5fa63eb3a5c6f1cdd44705e5ab6a888fcdd0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:12 +0000
Subject: [PATCH 27/51] fix: report read errors on input and restart files

A read error on the input file was taken for its end, so the run went on
without the parameters that follow; one on a restart file could leave
part of the grid unset.
---
 src/par.c     | 1 +
 src/restart.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/par.c b/src/par.c
index dc3b1b2..27cd515 100644
--- a/src/par.c
+++ b/src/par.c
@@ -182,6 +182,7 @@ void par_open(char *filename)
     }
     add_par_line(bp,cp);                /* add par to this block */
   }
+  if (ferror(fp)) ath_error("Error reading parameter file %s\n",filename);
   fclose(fp);
   return;
 }
diff --git a/src/restart.c b/src/restart.c
index f89deb7..56e44c5 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -470,6 +470,8 @@ void restart_grids(char *res_file, MeshS *pM)
     ath_error("[restart_grids]: Expected USER_DATA, found %s",line);
   problem_read_restart(pM, fp);
 
+  if(ferror(fp))
+    ath_error("[restart_grids]: Error reading restart file %s\n",res_file);
   fclose(fp);
 
   return;
-- 
2.43.0


From e6e110a469485b2327735470c4e22258bf8486c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:12 +0000
Subject: [PATCH 28/51] fix: reject a refined Domain outside of the level below

Only Domains that overlap one on the level below were checked, so one
that lies elsewhere was accepted and ran with unset boundary values.
---
 src/init_mesh.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 2a5927c..bc183fd 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -474,6 +474,25 @@ void init_mesh(MeshS *pM)
     }
   }}
 
+/* check for child Domains that lie outside of every Domain on the level below */
+
+  for (nl=1; nl<=maxlevel; nl++){
+  for (ncd=0; ncd<pM->DomainsPerLevel[nl]; ncd++){
+    pCD = (DomainS*)&(pM->Domain[nl][ncd]);
+
+    for (nd=0; nd<pM->DomainsPerLevel[nl-1]; nd++){
+      pD = (DomainS*)&(pM->Domain[nl-1][nd]);
+      for (i=0; i<nDim; i++) {
+        if (pCD->Disp[i] < 2*pD->Disp[i] ||
+            pCD->Disp[i] + pCD->Nx[i] > 2*(pD->Disp[i] + pD->Nx[i])) break;
+      }
+      if (i == nDim) break;  /* pD contains pCD */
+    }
+    if (nd == pM->DomainsPerLevel[nl-1])
+      ath_error("[init_mesh] Domain D%d at level %d has no parent Domain\n",
+        pCD->InputBlock,nl);
+  }}
+
 /*--- Step 6: Divide each Domain into Grids, and allocate to processor(s)  ---*/
 /* Get the number of Grids in each direction.  These are given either in the
  * <domain?> block in the input file, or by automatic decomposition given the
-- 
2.43.0


From cd0e2cb4c3c83eda327440d0cc89f2db9d173034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:54 +0000
Subject: [PATCH 29/51] fix: restart stops if it cannot read the number of
 particles

The number of particle types was used uninitialised after a read error.
---
 src/restart.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/restart.c b/src/restart.c
index 56e44c5..d1f9042 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -337,12 +337,14 @@ void restart_grids(char *res_file, MeshS *pM)
       fgets(line,MAXLEN,fp);
       if(strncmp(line,"PARTICLE LIST",13) != 0)
         ath_error("[restart_grids]: Expected PARTICLE LIST, found %s",line);
-      fread(&(pG->nparticle),sizeof(long),1,fp);
+      if(fread(&(pG->nparticle),sizeof(long),1,fp) != 1 || ferror(fp))
+        ath_error("[restart_grids]: Error reading restart file %s\n",res_file);
 
       if (pG->nparticle > pG->arrsize-2)
         particle_realloc(pG, pG->nparticle+2);
 
-      fread(&(npartypes),sizeof(int),1,fp);
+      if(fread(&(npartypes),sizeof(int),1,fp) != 1 || ferror(fp))
+        ath_error("[restart_grids]: Error reading restart file %s\n",res_file);
       for (i=0; i<npartypes; i++) {          /* particle property list */
 #ifdef FEEDBACK
         fread(&(grproperty[i].m),sizeof(Real),1,fp);
-- 
2.43.0


From 60d8d43fd6706d00a9d0436081ace347261c62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:21 +0000
Subject: [PATCH 30/51] fix: report a failure to create an FFT plan

The plan was used without a check, so that running out of memory in its
creation crashed or hung the job.
---
 src/fftsrc/ath_fft.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fftsrc/ath_fft.c b/src/fftsrc/ath_fft.c
index 2c65681..f64522b 100644
--- a/src/fftsrc/ath_fft.c
+++ b/src/fftsrc/ath_fft.c
@@ -141,6 +141,8 @@ struct ath_3d_fft_plan *ath_3d_fft_create_plan(DomainS *pD, int gnx3, int gnx2,
 					FFTW_BACKWARD, FFTW_MEASURE);
   }
 #endif /* FFT_BLOCK_DECOMP */
+  if (ath_plan->plan == NULL)
+    ath_error("Couldn't create FFT plan.\n");
 
   if (tmp) ath_3d_fft_free(data);
 
@@ -297,6 +299,8 @@ struct ath_2d_fft_plan *ath_2d_fft_create_plan(DomainS *pD, int gnx2, int gnx1,
 					FFTW_MEASURE);
   }
 #endif /* FFT_BLOCK_DECOMP */
+  if (ath_plan->plan == NULL)
+    ath_error("Couldn't create FFT plan.\n");
 
   if (tmp) ath_2d_fft_free(data);
 
-- 
2.43.0


From 9dffde1f0286c9bbf98cd6f73d446eea8a7854a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:04 +0000
Subject: [PATCH 31/51] fix: parameters of any length

par_dist_mpi() rebuilt each parameter in a buffer of MAXLEN characters
without a check, so a long value, comment or command-line setting
overflowed it, and par_open() cut lines at MAXLEN characters, so that a
restart file, in which par_dump() aligns the values and comments of a
block, could not be read back.
---
 src/par.c | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/par.c b/src/par.c
index 27cd515..37e766e 100644
--- a/src/par.c
+++ b/src/par.c
@@ -60,6 +60,8 @@
  * PRIVATE FUNCTION PROTOTYPES: 
  * - allocate()       - wrapper for calloc which terminates code on failure
  * - my_strdup()      - wrapper for strdup which terminates code on failure
+ * - line_size()      - make room for a line
+ * - get_line()       - read a line of any length
  * - skipwhite()      - returns pointer to next non-whitespace
  * - str_term()       - remove whitespace at end of string
  * - line_block_name()- extract block name
@@ -115,6 +117,8 @@ static int debug = 0;              /* debug level, set to 1 for debug output  */
  * PRIVATE FUNCTION PROTOTYPES: 
  *   allocate()       - wrapper for calloc which terminates code on failure
  *   my_strdup()      - wrapper for strdup which terminates code on failure
+ *   line_size()      - make room for a line
+ *   get_line()       - read a line of any length
  *   skipwhite()      - returns pointer to next non-whitespace
  *   str_term()       - remove whitespace at end of string
  *   line_block_name()- extract block name
@@ -131,6 +135,8 @@ static int debug = 0;              /* debug level, set to 1 for debug output  */
 
 static void *allocate(size_t size);
 static char *my_strdup(char *in);
+static void line_size(char **line, int *size, int n);
+static char *get_line(char **line, int *size, FILE *fp);
 static char *skipwhite(char *cp);
 static void str_term(char *cp);
 static char *line_block_name(char *line);
@@ -156,7 +162,8 @@ void par_debug(int level);
 void par_open(char *filename)
 {
   FILE *fp;
-  char line[MAXLEN];
+  char *line = NULL;
+  int size = 0;
   char *block_name, *cp;
   Block *bp = NULL;
 
@@ -170,7 +177,7 @@ void par_open(char *filename)
   now_open = 1;
   now_filename = my_strdup(filename);
 
-  while (fgets(line,MAXLEN,fp)) {      /* dumb approach: one line per command */
+  while (get_line(&line,&size,fp)) {   /* dumb approach: one line per command */
     cp = skipwhite(line);              /* skip whitespace first */
     if (*cp == '\0') continue;         /* blank line */
     if (*cp == '#') continue;          /* skip comments */
@@ -183,6 +190,7 @@ void par_open(char *filename)
     add_par_line(bp,cp);                /* add par to this block */
   }
   if (ferror(fp)) ath_error("Error reading parameter file %s\n",filename);
+  free(line);
   fclose(fp);
   return;
 }
@@ -435,7 +443,8 @@ void par_close(void)
 #ifdef MPI_PARALLEL
 void par_dist_mpi(const int mytid, MPI_Comm comm)
 {
-  char line[MAXLEN];
+  char *line = NULL;
+  int size = 0;
   Block *bp = NULL;
   Par *pp;
   int count;
@@ -457,6 +466,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 
     for(bp = base_block; bp != NULL; bp = bp->next){
 /* Rebuild the "<block>" string */
+      line_size(&line,&size,(int)strlen(bp->name) + 3);
       sprintf(line,"<%s>",bp->name);
 
 /* Broadcast the block string */
@@ -468,6 +478,8 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 
       for(pp = bp->p; pp != NULL; pp = pp->next){
 /* Rebuild the "name = value # comment" string */
+	line_size(&line,&size,(int)(strlen(pp->name) + strlen(pp->value)
+	  + (pp->comment == NULL ? 0 : strlen(pp->comment))) + 7);
 	if(pp->comment == NULL)
 	  sprintf(line,"%s = %s",pp->name,pp->value);
 	else
@@ -495,6 +507,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 /* printf("[tid=%d]: filename length = %d\n",mytid,count); */
+    line_size(&line,&size,count);
     if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
     now_filename = my_strdup(line);
@@ -507,6 +520,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
     while(count > 0){
+      line_size(&line,&size,count);
       if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 
@@ -524,6 +538,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(debug)
       fprintf(stdout,"[par_dist_mpi]: Child all done...\n");
   }
+  free(line);
 
   return;
 }
@@ -556,6 +571,35 @@ static char *my_strdup(char *in)
   return out;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static void line_size(char **line, int *size, int n)
+ *  \brief Make room for at least n characters in the buffer *line.  */
+
+static void line_size(char **line, int *size, int n)
+{
+  if(n <= *size) return;
+  *line = (char *)realloc(*line,n);
+  if(*line == NULL) ath_error("Error allocating memory for a line\n");
+  *size = n;
+}
+
+/*----------------------------------------------------------------------------*/
+/*! \fn static char *get_line(char **line, int *size, FILE *fp)
+ *  \brief Read a line of any length, or return NULL at the end of the file.  */
+
+static char *get_line(char **line, int *size, FILE *fp)
+{
+  int n = 0;
+
+  for(;;){
+    line_size(line,size,n + MAXLEN);
+    if(fgets(*line + n,MAXLEN,fp) == NULL) break;
+    n += (int)strlen(*line + n);
+    if(n > 0 && (*line)[n-1] == '\n') return *line;
+  }
+  return (n > 0 && !ferror(fp)) ? *line : NULL;
+}
+
 /*----------------------------------------------------------------------------*/
 /*! \fn static char *skipwhite(char *cp)
  *  \brief Skip whitespace, returning pointer to next location of
-- 
2.43.0


From 44d6804f9b35775eadaba9d48e700df4098def27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:04 +0000
Subject: [PATCH 32/51] fix: an empty value followed by a comment

"name = # comment" set the value to the comment, which then grew every
time the parameters were passed on.
---
 src/par.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par.c b/src/par.c
index 37e766e..34ed939 100644
--- a/src/par.c
+++ b/src/par.c
@@ -747,6 +747,7 @@ static void add_par_line(Block *bp, char *line)
     str_term(nul);                  /* Terminate the value string */
   }
   else{
+    *hash = '\0';                   /* The value may be empty */
     str_term(hash);                 /* Terminate the value string */
 
     if(*comment == '\0')
-- 
2.43.0


From 41d9cd7314c57c7b2b833c59aca156ce1ce3d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:16 +0000
Subject: [PATCH 33/51] fix: store default parameters with full precision

A default is written to the restart file and read back from there; 16
digits do not identify a double.
---
 src/par.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/par.c b/src/par.c
index 34ed939..947fcc3 100644
--- a/src/par.c
+++ b/src/par.c
@@ -333,7 +333,7 @@ double par_getd_def(char *block, char *name, double def)
     return atof(pp);
   }
 
-  par_setd(block,name,"%.15e",def,"Default Value");
+  par_setd(block,name,"%.16e",def,"Default Value");
   return def;
 }
 
-- 
2.43.0


From a3e9c5cac2fcd6d3d8492175ba9033577d0d36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:16 +0000
Subject: [PATCH 34/51] fix: long problem_id, short restart file name, output
 without out_fmt

A problem_id of nearly MAXLEN characters overflowed a buffer in the
children; a restart file name of fewer than five characters was read
before its start; init_output() used an uninitialised string for an
output that has a name but no out_fmt.
---
 src/main.c   | 9 +++++++--
 src/output.c | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ef2ab85..7408c44 100644
--- a/src/main.c
+++ b/src/main.c
@@ -209,9 +209,12 @@ int main(int argc, char *argv[])
 
   if(myID_Comm_world != 0){
     name = par_gets("job","problem_id");
-    sprintf(new_name,"%s-id%d",name,myID_Comm_world);
+    if((suffix = (char *)malloc(strlen(name) + 20)) == NULL)
+      ath_error("[main]: Error allocating memory for the problem_id\n");
+    sprintf(suffix,"%s-id%d",name,myID_Comm_world);
     free(name);
-    par_sets("job","problem_id",new_name,NULL);
+    par_sets("job","problem_id",suffix,NULL);
+    free(suffix);
   }
 
   show_config_par(); /* Add the configure block to the parameter database */
@@ -238,6 +241,8 @@ int main(int argc, char *argv[])
 
     if(len + 10 > MAXLEN)
       ath_error("[main]: Restart filename length = %d is too large\n",len);
+    if(len < 6)
+      ath_error("[main]: Restart filename length = %d is too small\n",len);
 
 /* Share the restart filename with the children */
 
diff --git a/src/output.c b/src/output.c
index e0da5ab..d5686f2 100644
--- a/src/output.c
+++ b/src/output.c
@@ -209,6 +209,7 @@ void init_output(MeshS *pM)
     sprintf(defid,"out%d",outn);
     new_out.id = par_gets_def(block,"id",defid);
 
+    fmt = "";
     if(par_exist(block,"out_fmt")) 
       fmt = new_out.out_fmt = par_gets(block,"out_fmt");
 
-- 
2.43.0


From 89dbc0a387a37479baaa1195129f9a8c81bf83b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:09 +0000
Subject: [PATCH 35/51] fix: history averages in 1D and 2D ignore the width of
 unresolved directions

The zone volume used for the sums included dx2 (dx3) of directions with a single
zone, the domain volume they are divided by does not.
---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 53cd610..4ee06df 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -174,8 +174,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
               if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pD->Nx[1] > 1) dVol *= pG->dx2;
+              if (pD->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From 1c9b65af9871bd92fe6f134fa2d330fe7dff7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:09 +0000
Subject: [PATCH 36/51] fix: room for all special-relativistic MHD history
 columns

18 default columns are written, the array held 14, so 30 user columns overran it.
---
 src/dump_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 4ee06df..315e9e9 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -74,7 +74,7 @@
 #include "prototypes.h"
 
 /* Maximum Number of default history dump columns. */
-#define NSCAL 14
+#define NSCAL 18
 
 /* Maximum number of history dump columns that the user routine can add. */
 #define MAX_USR_H_COUNT 30
-- 
2.43.0


From 2672c7732c0109e0dbe19019929fc95028e25cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:09 +0000
Subject: [PATCH 37/51] fix: zone-number columns of tab dumps ran together

Zone numbers include the ghost zones, the width of their columns did not: grids
with 6-9 (96-99) zones gave columns without a space between them.
---
 src/dump_tab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index b9f877f..12c8022 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -112,7 +112,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
@@ -364,7 +364,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
-- 
2.43.0


From 1b7d9b03c238e94010931b8b077148448063cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:09 +0000
Subject: [PATCH 38/51] fix: particle fields after a particle list are those of
 the selected particles

The list bins all particles; a later dump with its own particle selection, equal to
that of an earlier dump of the round, was not binned again.
---
 src/output.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output.c b/src/output.c
index d5686f2..479effd 100644
--- a/src/output.c
+++ b/src/output.c
@@ -554,6 +554,10 @@ void data_output(MeshS *pM, const int flag)
 #endif
       (*OutArray[n].out_fun)(pM,&(OutArray[n]));
 
+#ifdef PARTICLES
+/* the particle list bins all particles itself */
+      if (OutArray[n].out_fun == dump_particle_binary) mypar_prop = property_all;
+#endif
       OutArray[n].num++;
 
     }
-- 
2.43.0


From dfd7459ef1ce13a6fc12f9424b2c57335e3a3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:57 +0000
Subject: [PATCH 39/51] fix: prolongate a level's own ghost zones before
 sending data to its children

A child Domain nghost/2 zones from the edge of its (refined) parent needs one
ghost zone of the parent for its slopes.  Prolongate() packed that zone before
the parent's own ghost zones were prolongated, so the child used values of the
previous step (none at all in the first), and a restarted run differed from
the uninterrupted one.  Only moves the send step behind the get step.
---
 src/smr.c | 218 +++++++++++++++++++++++++++---------------------------
 1 file changed, 109 insertions(+), 109 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 0a70cd4..88899dd 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1434,8 +1434,8 @@ void Prolongate(MeshS *pM)
 
 #ifdef MPI_PARALLEL
 /* Post non-blocking receives at level nl+1 for data from parent Grids at this
- * level (nl). This data is sent in Step 1 below,
- * and will be read in Step 2 during the next iteration of nl */
+ * level (nl). This data is sent in Step 3 below,
+ * and will be read in Step 1 during the next iteration of nl */
 
   if (nl<(pM->NLevels)-1) {
     for (nd=0; nd<(pM->DomainsPerLevel[nl+1]); nd++){
@@ -1474,106 +1474,7 @@ void Prolongate(MeshS *pM)
   }
 #endif /* MPI_PARALLEL */
 
-/*=== Step 1. Send step ======================================================*/
-/* Loop over all Domains, and send ghost zones to all child Grids. */
-
-  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
-
-  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
-    pG=pM->Domain[nl][nd].Grid;
-    for(i=0; i<maxND; i++) start_addrP[i] = 0;
-    nZeroP = 0;
-
-    for (ncg=0; ncg<(pG->NCGrid); ncg++){
-
-/* Skip if no prolongation needed for this child (only flux correction) */
-    if (pG->CGrid[ncg].nWordsP == 0) { 
-        if(ncg >= pG->NmyCGrid)
-              nZeroP += 1;
-    } else {
-
-      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
-
-/* index send_buf with DomN of child, since could be multiple child Domains on
- * same processor.  Start address must be different for each DomN */
-      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
-
-      for (dim=0; dim<(2*nDim); dim++){
-        if (pCO->myFlx[dim] != NULL) {
-
-/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
-
-          ics = pCO->ijks[0] - (nghost/2) - 1;
-          ice = pCO->ijke[0] + (nghost/2) + 1;
-          if (pG->Nx[1] > 1) {
-            jcs = pCO->ijks[1] - (nghost/2) - 1;
-            jce = pCO->ijke[1] + (nghost/2) + 1;
-          } else {
-            jcs = pCO->ijks[1];
-            jce = pCO->ijke[1];
-          }
-          if (pG->Nx[2] > 1) {
-            kcs = pCO->ijks[2] - (nghost/2) - 1;
-            kce = pCO->ijke[2] + (nghost/2) + 1;
-          } else {
-            kcs = pCO->ijks[2];
-            kce = pCO->ijke[2];
-          }
-          if (dim == 0) ice = pCO->ijks[0];
-          if (dim == 1) ics = pCO->ijke[0];
-          if (dim == 2) jce = pCO->ijks[1];
-          if (dim == 3) jcs = pCO->ijke[1];
-          if (dim == 4) kce = pCO->ijks[2];
-          if (dim == 5) kcs = pCO->ijke[2];
-
-/*--- Step 1a. ---------------------------------------------------------------*/
-/* Load send buffer with values in zones that overlap child ghost zones */
-
-          for (k=kcs; k<=kce; k++) {
-          for (j=jcs; j<=jce; j++) {
-          for (i=ics; i<=ice; i++) {
-            *(pSnd++) = pG->U[k][j][i].d;
-            *(pSnd++) = pG->U[k][j][i].M1;
-            *(pSnd++) = pG->U[k][j][i].M2;
-            *(pSnd++) = pG->U[k][j][i].M3;
-#ifndef BAROTROPIC
-            *(pSnd++) = pG->U[k][j][i].E;
-#endif
-#ifdef MHD
-            *(pSnd++) = pG->U[k][j][i].B1c;
-            *(pSnd++) = pG->U[k][j][i].B2c;
-            *(pSnd++) = pG->U[k][j][i].B3c;
-            *(pSnd++) = pG->B1i[k][j][i];
-            *(pSnd++) = pG->B2i[k][j][i];
-            *(pSnd++) = pG->B3i[k][j][i];
-#endif
-#if (NSCALARS > 0)
-            for (ns=0; ns<NSCALARS; ns++) {
-               *(pSnd++) = pG->U[k][j][i].s[ns];
-            }
-#endif
-          }}}
-        }
-      }
-
-/*--- Step 1b. ---------------------------------------------------------------*/
-/* non-blocking send of data to child, using Domain number as tag. */
-#ifdef MPI_PARALLEL
-      if (ncg >= pG->NmyCGrid) {
-        mIndex = ncg - pG->NmyCGrid - nZeroP;
-        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
-          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
-          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
-      }
-#endif /* MPI_PARALLEL */
-
-      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
-
-    } /* end if/else on nWordsP */ 
-    } /* end loop over child grids */
-  }} /* end loop over Domains */
-
-/*=== Step 2. Get step =======================================================*/
+/*=== Step 1. Get step =======================================================*/
 /* Loop over all Domains, get data sent by parent Grids, and prolongate solution
  * into ghost zones. */
 
@@ -1599,7 +1500,7 @@ void Prolongate(MeshS *pM)
 
 #ifdef MPI_PARALLEL
 /* Check non-blocking receives posted above for data in ghost zone from parent
- * Grids, sent in Step 1.  Accept messages in any order. */
+ * Grids, sent in Step 3.  Accept messages in any order. */
 
         mCount = pG->NPGrid - pG->NmyPGrid - nZeroP;
         ierr = MPI_Waitany(mCount,recv_rq[nl][nd],&mIndex,MPI_STATUS_IGNORE);
@@ -1626,13 +1527,13 @@ void Prolongate(MeshS *pM)
 #endif /* MPI_PARALLEL */
       }
 
-/*=== Step 3. Set ghost zones ================================================*/
+/*=== Step 2. Set ghost zones ================================================*/
 /* Loop over 6 boundaries, set ghost zones */
 
       for (dim=0; dim<(2*nDim); dim++){
         if ((pPO->myFlx[dim] != NULL) && (pPO->nWordsP > 0)) {
 
-/*--- Steps 3a.  Set GZ and BFld arrays --------------------------------------*/
+/*--- Steps 2a.  Set GZ and BFld arrays --------------------------------------*/
 /* Compute size of array containing ghost zones from parent Grid.  Set
  * starting and ending indices of GZ array. */
 
@@ -1733,7 +1634,7 @@ void Prolongate(MeshS *pM)
 #endif /* MHD */
           }
 
-/*--- Steps 3b.  Prolongate cell-centered values -----------------------------*/
+/*--- Steps 2b.  Prolongate cell-centered values -----------------------------*/
 /* Get coordinates ON THIS GRID of ghost zones that overlap parent Grid */
 
           ips = pPO->ijks[0] - nghost;
@@ -1794,7 +1695,7 @@ void Prolongate(MeshS *pM)
             }}}
 
 #ifdef MHD
-/*--- Steps 3c.  Prolongate face-centered B ----------------------------------*/
+/*--- Steps 2c.  Prolongate face-centered B ----------------------------------*/
 /* Set prolonged face-centered B fields for 1D (trivial case)  */
 
             if (nDim == 1) {
@@ -1953,9 +1854,108 @@ void Prolongate(MeshS *pM)
     } /* end loop over parent grids */
   }} /* end loop over Domains */
 
+/*=== Step 3. Send step ======================================================*/
+/* Loop over all Domains, and send ghost zones to all child Grids. */
+
+  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+
+  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
+    pG=pM->Domain[nl][nd].Grid;
+    for(i=0; i<maxND; i++) start_addrP[i] = 0;
+    nZeroP = 0;
+
+    for (ncg=0; ncg<(pG->NCGrid); ncg++){
+
+/* Skip if no prolongation needed for this child (only flux correction) */
+    if (pG->CGrid[ncg].nWordsP == 0) { 
+        if(ncg >= pG->NmyCGrid)
+              nZeroP += 1;
+    } else {
+
+      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
+
+/* index send_buf with DomN of child, since could be multiple child Domains on
+ * same processor.  Start address must be different for each DomN */
+      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
+
+      for (dim=0; dim<(2*nDim); dim++){
+        if (pCO->myFlx[dim] != NULL) {
+
+/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
+
+          ics = pCO->ijks[0] - (nghost/2) - 1;
+          ice = pCO->ijke[0] + (nghost/2) + 1;
+          if (pG->Nx[1] > 1) {
+            jcs = pCO->ijks[1] - (nghost/2) - 1;
+            jce = pCO->ijke[1] + (nghost/2) + 1;
+          } else {
+            jcs = pCO->ijks[1];
+            jce = pCO->ijke[1];
+          }
+          if (pG->Nx[2] > 1) {
+            kcs = pCO->ijks[2] - (nghost/2) - 1;
+            kce = pCO->ijke[2] + (nghost/2) + 1;
+          } else {
+            kcs = pCO->ijks[2];
+            kce = pCO->ijke[2];
+          }
+          if (dim == 0) ice = pCO->ijks[0];
+          if (dim == 1) ics = pCO->ijke[0];
+          if (dim == 2) jce = pCO->ijks[1];
+          if (dim == 3) jcs = pCO->ijke[1];
+          if (dim == 4) kce = pCO->ijks[2];
+          if (dim == 5) kcs = pCO->ijke[2];
+
+/*--- Step 3a. ---------------------------------------------------------------*/
+/* Load send buffer with values in zones that overlap child ghost zones */
+
+          for (k=kcs; k<=kce; k++) {
+          for (j=jcs; j<=jce; j++) {
+          for (i=ics; i<=ice; i++) {
+            *(pSnd++) = pG->U[k][j][i].d;
+            *(pSnd++) = pG->U[k][j][i].M1;
+            *(pSnd++) = pG->U[k][j][i].M2;
+            *(pSnd++) = pG->U[k][j][i].M3;
+#ifndef BAROTROPIC
+            *(pSnd++) = pG->U[k][j][i].E;
+#endif
+#ifdef MHD
+            *(pSnd++) = pG->U[k][j][i].B1c;
+            *(pSnd++) = pG->U[k][j][i].B2c;
+            *(pSnd++) = pG->U[k][j][i].B3c;
+            *(pSnd++) = pG->B1i[k][j][i];
+            *(pSnd++) = pG->B2i[k][j][i];
+            *(pSnd++) = pG->B3i[k][j][i];
+#endif
+#if (NSCALARS > 0)
+            for (ns=0; ns<NSCALARS; ns++) {
+               *(pSnd++) = pG->U[k][j][i].s[ns];
+            }
+#endif
+          }}}
+        }
+      }
+
+/*--- Step 3b. ---------------------------------------------------------------*/
+/* non-blocking send of data to child, using Domain number as tag. */
+#ifdef MPI_PARALLEL
+      if (ncg >= pG->NmyCGrid) {
+        mIndex = ncg - pG->NmyCGrid - nZeroP;
+        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
+          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
+          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
+      }
+#endif /* MPI_PARALLEL */
+
+      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
+
+    } /* end if/else on nWordsP */ 
+    } /* end loop over child grids */
+  }} /* end loop over Domains */
+
 /*=== Step 4. Clear send_bufP ================================================*/
 /* For child/parent Grids on same processor, copy send_bufP into recv_bufP to
- * prevent "send" in Step 1 above from over-writing data in buffer on the next
+ * prevent "send" in Step 3 above from over-writing data in buffer on the next
  * iteration of the loop over levels (for nl=nl+1). */
 
   for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
@@ -1977,7 +1977,7 @@ void Prolongate(MeshS *pM)
   }
 
 #ifdef MPI_PARALLEL
-/* For MPI jobs, wait for all non-blocking sends in Step 1 to complete */
+/* For MPI jobs, wait for all non-blocking sends in Step 3 to complete */
 
   for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
     if (pM->Domain[nl][nd].Grid != NULL) {
-- 
2.43.0


From d43b1cb8ac01a6cd552d61153b21f3d91e9b7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:32 +0000
Subject: [PATCH 40/51] fix: keep particles near an inner x3 outflow boundary

Particles are removed in the outermost ghost zone of an outflow boundary.  At
the inner x3 boundary the sign was wrong, so that all particles in the first
nghost-1 zones of the Domain were deleted.
---
 src/particles/init_particle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..56cf48a 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,12 +282,12 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
   if ((pM->BCFlag_ox3 == 2) && (my_kproc == pD->NGrid[2]-1))
-    x3upar = pG->MaxX[2] + (nghost-1)*m2*pG->dx3;
+    x3upar = pG->MaxX[2] + (nghost-1)*m3*pG->dx3;
   else
     x3upar = pG->MaxX[2];
 
-- 
2.43.0


From 98c928de7da2024969ad387cd26a0e2ab18439d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:54 +0000
Subject: [PATCH 41/51] fix: do not lose particles that cross the sheared x1-
 and an x2-boundary in one step

The shifted position was wrapped into the Domain, but the particle goes to the
Grid its x2-neighbours go to: at the edge of the Domain it arrived with a
position on the other side of the Domain and was deleted as a ghost.
---
 src/particles/bvals_particle.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 42cb7d5..750655f 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -2426,7 +2426,8 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
   /* amount of shear, whole (yshear) and fractional (yshift) */
   Real yshear, yshift;
   /* x2c: y-coordinate marking the demarcation of the two regions */
-  Real x20, x2c;
+  /* x2d: y-coordinate of the middle of the Grid the particles are sent to */
+  Real x20, x2c, x2d, x2len;
   double *pd;
 
 /*---------------- Step.1 -----------------------*/
@@ -2434,7 +2435,9 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
   yshear = vshear*pG->time;
   yshift = fmod(yshear, Lx2);
   x20 = pG->MaxX[1];
-  x2c = x20 - fmod(yshear, pG->dx2*pG->Nx[1]);
+  x2len = pG->dx2*pG->Nx[1];
+  x2c = x20 - fmod(yshear, x2len);
+  x2d = pG->MinX[1] + (0.5 + (int)(yshift/x2len) + (reg == 1 ? 1 : 0))*x2len;
 
   /* get coordinate limits for particles to be packed*/
   ix1b = pG->MinX[0];
@@ -2454,8 +2457,9 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
 
       if (((reg == 1) && (gr->x2 >= x2c)) || ((reg == 2) && (gr->x2 < x2c)))
       {         /* region I */                      /* region II */
-        /* apply the shift */
-        gr->x2 = x2min + fmod(gr->x2 - x2min + yshift, Lx2);
+        /* apply the shift, to the image that belongs to the receiving Grid (the
+         * particle may have crossed the x2-boundary of this Grid as well) */
+        gr->x2 += yshift - floor((x2d - x2min)/Lx2)*Lx2;
 
         /* pack the particle */
         packing_one_particle(gr, n, gr->pos);
@@ -2493,7 +2497,8 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
   /* amount of shear, whole (yshear) and fractional (yshift) */
   Real yshear, yshift;
   /* x2c: y-coordinate marking the demarcation of the two regions */
-  Real x20, x2c;
+  /* x2d: y-coordinate of the middle of the Grid the particles are sent to */
+  Real x20, x2c, x2d, x2len;
   double *pd;
 
 /*---------------- Step.1 -----------------------*/
@@ -2501,7 +2506,9 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
   yshear = vshear*pG->time;
   yshift = fmod(yshear, Lx2);
   x20 = pG->MinX[1];
-  x2c = x20 + fmod(yshear, pG->dx2*pG->Nx[1]);
+  x2len = pG->dx2*pG->Nx[1];
+  x2c = x20 + fmod(yshear, x2len);
+  x2d = pG->MinX[1] + (0.5 - (int)(yshift/x2len) - (reg == 1 ? 1 : 0))*x2len;
 
   /* get coordinate limits for particles to be packed*/
   ox1b = pG->MaxX[0];
@@ -2522,8 +2529,9 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
       if (((reg == 1) && (gr->x2 < x2c)) || ((reg == 2) && (gr->x2 >= x2c)))
       {         /* region I */                      /* region II */
 
-        /* apply the shift */
-        gr->x2 = x2min + fmod(gr->x2 - x2min + Lx2 - yshift, Lx2);
+        /* apply the shift, to the image that belongs to the receiving Grid (the
+         * particle may have crossed the x2-boundary of this Grid as well) */
+        gr->x2 -= yshift + floor((x2d - x2min)/Lx2)*Lx2;
 
         /* pack the particle */
         packing_one_particle(gr, n, gr->pos);
-- 
2.43.0


From a5f789fe5279999f7a744b0bb9bdc975a961bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:20 +0000
Subject: [PATCH 42/51] fix: receive restricted solutions in a fixed order

A coarse zone next to two refined Domains is corrected by the fluxes of both.
The corrections were applied in the order in which the messages arrived, so the
last bits of the solution depended on the timing of the processes.
---
 src/smr.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 88899dd..6de4b53 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -165,13 +165,11 @@ void RestrictCorrect(MeshS *pM)
 #ifdef MPI_PARALLEL
 /* Check non-blocking receives posted above for restricted solution from child
  * Grids, sent in Step 3 during last iteration of loop over nl.  Accept messages
- * in any order. */
+ * in a fixed order: zones next to two child Domains are corrected by both, and
+ * the round-off must not depend on which message arrives first. */
 
-        mCount = pG->NCGrid - pG->NmyCGrid - nZeroRC;
-        ierr = MPI_Waitany(mCount,recv_rq[nl][nd],&mIndex,MPI_STATUS_IGNORE);
-        if(mIndex == MPI_UNDEFINED){
-          ath_error("[RestCorr]: Invalid request index nl=%i nd=%i\n",nl,nd);
-        }
+        mIndex = ncg - pG->NmyCGrid;
+        ierr = MPI_Wait(&(recv_rq[nl][nd][mIndex]),MPI_STATUS_IGNORE);
       
 /* Recv buffer is addressed from 0 for first MPI message, even if NmyCGrid>0 */
 
-- 
2.43.0


From 41ff3d3e2f454c0861f3bb484d35eee98f63e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:32 +0000
Subject: [PATCH 43/51] fix: keep the extrema of all Domains in the first round
 of tab output

Global min/max of a 2D or 3D table was reset by every Grid as long as the output
number is 0, so with mesh refinement values of other Domains were lost.
---
 src/output_tab.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/output_tab.c b/src/output_tab.c
index c3fe3b0..9463952 100644
--- a/src/output_tab.c
+++ b/src/output_tab.c
@@ -196,13 +196,8 @@ void output_tab_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   }
   
 /* Compute and store global min/max, for output at end of run */
-  if (pOut->num == 0) {
-    pOut->gmin = dmin;
-    pOut->gmax = dmax;
-  } else {
-    pOut->gmin = MIN(dmin,pOut->gmin);
-    pOut->gmax = MAX(dmax,pOut->gmax);
-  }
+  pOut->gmin = MIN(dmin,pOut->gmin);
+  pOut->gmax = MAX(dmax,pOut->gmax);
 
   ath_fclose(pFile,fname);
   free(fname);
@@ -272,13 +267,8 @@ void output_tab_3d(MeshS *pM, OutputS *pOut, int nl, int nd)
   }
   
 /* Compute and store global min/max, for output at end of run */
-  if (pOut->num == 0) {
-    pOut->gmin = dmin;
-    pOut->gmax = dmax;
-  } else {
-    pOut->gmin = MIN(dmin,pOut->gmin);
-    pOut->gmax = MAX(dmax,pOut->gmax);
-  }
+  pOut->gmin = MIN(dmin,pOut->gmin);
+  pOut->gmax = MAX(dmax,pOut->gmax);
 
   ath_fclose(pFile,fname);
   free(fname);
-- 
2.43.0


From 018e4187250fee9d8468f76edff0519486c9181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:20 +0000
Subject: [PATCH 44/51] fix: particle fields after a particle history are those
 of the selected particles

---
 src/output.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/output.c b/src/output.c
index 479effd..bb69ce4 100644
--- a/src/output.c
+++ b/src/output.c
@@ -555,8 +555,9 @@ void data_output(MeshS *pM, const int flag)
       (*OutArray[n].out_fun)(pM,&(OutArray[n]));
 
 #ifdef PARTICLES
-/* the particle list bins all particles itself */
-      if (OutArray[n].out_fun == dump_particle_binary) mypar_prop = property_all;
+/* the particle list and the particle history bin all particles themselves */
+      if (OutArray[n].out_fun == dump_particle_binary ||
+          OutArray[n].out_fun == dump_particle_history) mypar_prop = property_all;
 #endif
       OutArray[n].num++;
 
-- 
2.43.0


From 3bab422ef93c9dc4a5967ae4411cc7762ab1bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 45/51] fix: images of data that are not numbers read outside
 of the palette

---
 src/output_ppm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output_ppm.c b/src/output_ppm.c
index 5bd0d1a..3a9f7fd 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -149,8 +149,8 @@ static void compute_rgb(double data, double min, double max,
   }
 #if 1
   x = (data-min)*255.0/(max-min);
-  if (x<=0.0 || x>=255.0) {         /* out of bounds */
-    i=  (x <= 0.0 ? 0 : 255);
+  if (!(x>0.0 && x<255.0)) {        /* out of bounds, or not a number */
+    i=  (x >= 255.0 ? 255 : 0);
     *R = (int) (rgb[i*3+0] * 255.0);
     *G = (int) (rgb[i*3+1] * 255.0);
     *B = (int) (rgb[i*3+2] * 255.0);
-- 
2.43.0


From 10166b046c605153814a513094abf15cccd2edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 46/51] fix: histograms of data that are not numbers wrote
 outside of the bins

---
 src/output_pdf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 55bd5f9..63a8413 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -210,6 +210,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           scl = (double)size_pdf/(dmax - dmin);
           for(n=0; n<data_cnt; n++){
             i = (int)(scl*(data[n] - dmin));
+            i = i > 0 ? i : 0;  /* data may not be a number */
             i = i < size_pdf ? i : size_pdf - 1;
             pdf[i]++;
           }
-- 
2.43.0


From b9588cc9a37ac6f0db4bbebdb710ab1ab57cba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 47/51] fix: first-order flux correction at the edges of a 2D
 Grid changed the total mass

FixCell corrects the cells on both sides of a face; at the edge of a Grid only
the cell inside is corrected, so mass, momentum, energy and the divergence of
the field were not conserved there.  Leave these faces alone, as in 3D.
---
 src/integrators/integrate_2d_vl.c | 35 +++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/integrators/integrate_2d_vl.c b/src/integrators/integrate_2d_vl.c
index 7f3a39f..fa803d5 100644
--- a/src/integrators/integrate_2d_vl.c
+++ b/src/integrators/integrate_2d_vl.c
@@ -1617,6 +1617,41 @@ static void FixCell(GridS *pG, Int3Vect ix)
 #endif
   Real rsf=1.0,lsf=1.0;
 
+/* As in 3D, do not fix the faces at the edges of the Grid: the cell beyond is
+ * in the ghost region and cannot be corrected by the opposite amount. */
+
+  if (ix.i == pG->is){
+    x1FluxP[ix.j  ][ix.i  ] = x1Flux[ix.j  ][ix.i  ];
+#ifdef MHD
+    emf3P[ix.j  ][ix.i  ] = emf3[ix.j  ][ix.i  ];
+    emf3P[ix.j+1][ix.i  ] = emf3[ix.j+1][ix.i  ];
+#endif
+  }
+
+  if (ix.i == pG->ie){
+    x1FluxP[ix.j  ][ix.i+1] = x1Flux[ix.j  ][ix.i+1];
+#ifdef MHD
+    emf3P[ix.j  ][ix.i+1] = emf3[ix.j  ][ix.i+1];
+    emf3P[ix.j+1][ix.i+1] = emf3[ix.j+1][ix.i+1];
+#endif
+  }
+
+  if (ix.j == pG->js){
+    x2FluxP[ix.j  ][ix.i  ] = x2Flux[ix.j  ][ix.i  ];
+#ifdef MHD
+    emf3P[ix.j  ][ix.i  ] = emf3[ix.j  ][ix.i  ];
+    emf3P[ix.j  ][ix.i+1] = emf3[ix.j  ][ix.i+1];
+#endif
+  }
+
+  if (ix.j == pG->je){
+    x2FluxP[ix.j+1][ix.i  ] = x2Flux[ix.j+1][ix.i  ];
+#ifdef MHD
+    emf3P[ix.j+1][ix.i  ] = emf3[ix.j+1][ix.i  ];
+    emf3P[ix.j+1][ix.i+1] = emf3[ix.j+1][ix.i+1];
+#endif
+  }
+
 /* Compute difference of predictor and corrector fluxes at cell faces */
 
   x1FD_i.d = x1Flux[ix.j][ix.i].d - x1FluxP[ix.j][ix.i].d;
-- 
2.43.0


From 612a6fa03a7f3df86612d270c0d03086d47ffa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 48/51] fix: restarted runs of dmr, noh and shk_cloud had lost
 their boundary conditions

---
 src/prob/dmr.c       | 15 +++++++++++++++
 src/prob/noh.c       | 14 ++++++++++++++
 src/prob/shk_cloud.c | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 61 insertions(+)

diff --git a/src/prob/dmr.c b/src/prob/dmr.c
index 16894ca..c8b0920 100644
--- a/src/prob/dmr.c
+++ b/src/prob/dmr.c
@@ -108,6 +108,21 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  DomainS *pD;
+  int nl,nd;
+
+/* Set boundary value function pointers */
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      pD = &(pM->Domain[nl][nd]);
+      if (pD->Disp[0] == 0) bvals_mhd_fun(pD, left_x1,  dmrbv_iib);
+      if (pD->Disp[1] == 0) bvals_mhd_fun(pD, left_x2,  dmrbv_ijb);
+      if (pD->MaxX[1] == pD->RootMaxX[1])
+        bvals_mhd_fun(pD, right_x2, dmrbv_ojb);
+    }
+  }
+
   return;
 }
 
diff --git a/src/prob/noh.c b/src/prob/noh.c
index a7d6e07..14e9468 100644
--- a/src/prob/noh.c
+++ b/src/prob/noh.c
@@ -101,6 +101,20 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  DomainS *pD;
+  int nl,nd;
+
+/* Set boundary value function pointers */
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      pD = &(pM->Domain[nl][nd]);
+      bvals_mhd_fun(pD, right_x1,noh3d_oib);
+      bvals_mhd_fun(pD, right_x2,noh3d_ojb);
+      if (pM->Nx[2] > 1) bvals_mhd_fun(pD, right_x3,noh3d_okb);
+    }
+  }
+
   return;
 }
 
diff --git a/src/prob/shk_cloud.c b/src/prob/shk_cloud.c
index 3a769c3..a24e2d5 100644
--- a/src/prob/shk_cloud.c
+++ b/src/prob/shk_cloud.c
@@ -238,11 +238,43 @@ void problem(DomainS *pDomain)
 
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+/* Downstream state, used by shk_cloud_iib */
+  fwrite(&dl,sizeof(Real),1,fp);
+  fwrite(&pl,sizeof(Real),1,fp);
+  fwrite(&ul,sizeof(Real),1,fp);
+#ifdef MHD
+  fwrite(&bxl,sizeof(Real),1,fp);
+  fwrite(&byl,sizeof(Real),1,fp);
+  fwrite(&bzl,sizeof(Real),1,fp);
+#endif
+
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  DomainS *pD;
+  int nl,nd;
+
+/* Downstream state, used by shk_cloud_iib */
+  fread(&dl,sizeof(Real),1,fp);
+  fread(&pl,sizeof(Real),1,fp);
+  fread(&ul,sizeof(Real),1,fp);
+#ifdef MHD
+  fread(&bxl,sizeof(Real),1,fp);
+  fread(&byl,sizeof(Real),1,fp);
+  fread(&bzl,sizeof(Real),1,fp);
+#endif
+
+/* Set boundary value function pointers */
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      pD = &(pM->Domain[nl][nd]);
+      if (pD->Disp[0] == 0) bvals_mhd_fun(pD,left_x1,shk_cloud_iib);
+    }
+  }
+
   return;
 }
 
-- 
2.43.0


From 7d3863e319bee3daf156e73d4ee7574a27aca478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 49/51] fix: restarted runs of linear_wave and cpaw crashed
 after the main loop

---
 src/prob/cpaw.c        | 34 ++++++++++++++++++++++++++++++++
 src/prob/linear_wave.c | 44 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/src/prob/cpaw.c b/src/prob/cpaw.c
index 24c440a..c12ab31 100644
--- a/src/prob/cpaw.c
+++ b/src/prob/cpaw.c
@@ -450,11 +450,45 @@ void problem(DomainS *pDomain)
         
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pG = pM->Domain[0][0].Grid;
+  int j,k;
+
+/* Analytic solution on root Grid, used by Userwork_after_loop */
+  if (pG == NULL) return;
+  for (k=pG->ks; k<=pG->ke; k++) {
+    for (j=pG->js; j<=pG->je; j++) {
+      fwrite(&(RootSoln[k][j][pG->is]),sizeof(ConsS),pG->Nx[0],fp);
+    }
+  }
+
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pG = pM->Domain[0][0].Grid;
+  int j,k,nx1,nx2,nx3;
+
+  b_perp = par_getd("problem","b_perp");
+
+#ifdef RESISTIVITY
+  Q_Hall = par_getd("problem","Q_H");
+  d_ind  = 0.0;
+#endif
+
+/* Analytic solution on root Grid, used by Userwork_after_loop */
+  if (pG == NULL) return;
+  nx1 = pG->Nx[0] + 2*nghost;
+  nx2 = pG->Nx[1] + 2*nghost;
+  nx3 = pG->Nx[2] + 2*nghost;
+  if ((RootSoln = (ConsS***)calloc_3d_array(nx3,nx2,nx1,sizeof(ConsS)))
+    == NULL) ath_error("[problem]: Error alloc memory for RootSoln\n");
+  for (k=pG->ks; k<=pG->ke; k++) {
+    for (j=pG->js; j<=pG->je; j++) {
+      fread(&(RootSoln[k][j][pG->is]),sizeof(ConsS),pG->Nx[0],fp);
+    }
+  }
+
   return;
 }
 
diff --git a/src/prob/linear_wave.c b/src/prob/linear_wave.c
index 304b82a..3097aed 100644
--- a/src/prob/linear_wave.c
+++ b/src/prob/linear_wave.c
@@ -534,11 +534,55 @@ void problem(DomainS *pDomain)
 
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pG = pM->Domain[0][0].Grid;
+  int j,k;
+
+/* Analytic solution on root Grid, used by Userwork_after_loop */
+  if (pG == NULL) return;
+  for (k=pG->ks; k<=pG->ke; k++) {
+    for (j=pG->js; j<=pG->je; j++) {
+      fwrite(&(RootSoln[k][j][pG->is]),sizeof(ConsS),pG->Nx[0],fp);
+    }
+  }
+
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pG = pM->Domain[0][0].Grid;
+  int j,k,nx1,nx2,nx3;
+
+  wave_flag = par_geti("problem","wave_flag");
+  amp = par_getd("problem","amp");
+
+#ifdef SELF_GRAVITY
+  four_pi_G = par_getd("problem","four_pi_G");
+  grav_mean_rho = 1.0;
+#endif /* SELF_GRAVITY */
+#ifdef RESISTIVITY
+  eta_Ohm = par_getd("problem","eta_O");
+  Q_AD    = par_getd_def("problem","Q_AD",0.0);
+  d_ind   = par_getd_def("problem","d_ind",0.0);
+#endif
+#ifdef VISCOSITY
+  nu_iso = par_getd_def("problem","nu_iso",0.0);
+  nu_aniso = par_getd_def("problem","nu_aniso",0.0);
+#endif
+
+/* Analytic solution on root Grid, used by Userwork_after_loop */
+  if (pG == NULL) return;
+  nx1 = pG->Nx[0] + 2*nghost;
+  nx2 = pG->Nx[1] + 2*nghost;
+  nx3 = pG->Nx[2] + 2*nghost;
+  if ((RootSoln = (ConsS***)calloc_3d_array(nx3,nx2,nx1,sizeof(ConsS)))
+    == NULL) ath_error("[problem]: Error alloc memory for RootSoln\n");
+  for (k=pG->ks; k<=pG->ke; k++) {
+    for (j=pG->js; j<=pG->je; j++) {
+      fread(&(RootSoln[k][j][pG->is]),sizeof(ConsS),pG->Nx[0],fp);
+    }
+  }
+
   return;
 }
 
-- 
2.43.0


From 9596a59197ae71baa2ccad067155e282a09347e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:37 +0000
Subject: [PATCH 50/51] fix: restarted runs of jeans and cshock1d had lost
 their coefficients

---
 src/prob/cshock1d.c | 10 ++++++++++
 src/prob/jeans.c    | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/prob/cshock1d.c b/src/prob/cshock1d.c
index 9f3bdee..8953bdf 100644
--- a/src/prob/cshock1d.c
+++ b/src/prob/cshock1d.c
@@ -214,6 +214,16 @@ void problem_write_restart(MeshS *pM, FILE *fp)
   
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  Real Mach,Alfv,vA;
+
+/* Ambipolar diffusion coefficient, as in problem() */
+  Mach = par_getd("problem","Mach");
+  Alfv = par_getd("problem","Alfv");
+  vA = (Mach/Alfv) * Iso_csound;
+
+  Q_AD = 1.0/vA;
+  d_ind= 0.0;
+
   return;
 } 
     
diff --git a/src/prob/jeans.c b/src/prob/jeans.c
index af56238..5307369 100644
--- a/src/prob/jeans.c
+++ b/src/prob/jeans.c
@@ -199,6 +199,19 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+#ifdef SELF_GRAVITY
+  int kdir = par_geti("problem","kdir");
+  Real njeans = par_getd("problem","njeans");
+  Real lambda,d0,p0;
+
+/* Set gravity constant and mean density, as in problem() */
+  lambda = pM->Nx[kdir-1]*pM->dx[kdir-1];
+  d0 = 1.0;
+  p0 = 1.0;
+  four_pi_G = (4.0*Gamma*p0)*(PI*PI*njeans*njeans)/(d0*d0*lambda*lambda);
+  grav_mean_rho = d0;
+#endif /* SELF_GRAVITY */
+
   return;
 }
 
-- 
2.43.0


From c233b07802e08d7417086b6a30fb315ee6e28b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 51/51] fix: restarted runs of kh and msa had lost columns of
 the history

---
 src/prob/kh.c  | 7 +++++++
 src/prob/msa.c | 9 ++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/prob/kh.c b/src/prob/kh.c
index 057b1d5..6efd6e0 100644
--- a/src/prob/kh.c
+++ b/src/prob/kh.c
@@ -223,6 +223,13 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   nu_iso = par_getd_def("problem","nu_iso",0.0);
   nu_aniso = par_getd_def("problem","nu_aniso",0.0);
 #endif
+
+/* enroll new history variables */
+#ifdef MHD
+  dump_history_enroll(hst_Bx, "<Bx>");
+  dump_history_enroll(hst_By, "<By>");
+  dump_history_enroll(hst_Bz, "<Bz>");
+#endif /* MHD */
   return;
 }
 
diff --git a/src/prob/msa.c b/src/prob/msa.c
index 3dae93a..2a95027 100644
--- a/src/prob/msa.c
+++ b/src/prob/msa.c
@@ -304,12 +304,11 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   dump_history_enroll(hst_Phi, "<Phi>");
   dump_history_enroll(hst_dPhi, "<dPhi>");
 #endif
+#ifdef ADIABATIC
+  dump_history_enroll(hst_dE, "<dE>");
+#endif
 
-/* should be modified for SMR version */
-  dVol = 1.0;
-  if (pM->dx[0] > 0.0) dVol /= pM->dx[0];
-  if (pM->dx[1] > 0.0) dVol /= pM->dx[1];
-  if (pM->dx[2] > 0.0) dVol /= pM->dx[2];
+  dVol = pM->Nx[0]*pM->Nx[1]*pM->Nx[2];
 
 
   return;
-- 
2.43.0

