From 264214a54014184aa0f0cf05874b2cb4ba327b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:59 +0000
Subject: [PATCH 01/74] fix: time step limit must use the magnitude of the
 magnetic field

The face-field maximum added |Bi-Bc| to the signed Bc, so for negative
fields the fast speed was underestimated and the time step depended on
the sign of the field.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..361125d 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -95,11 +95,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)(pGrid->U[k][j][i].B1c))
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)(pGrid->U[k][j][i].B2c))
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)(pGrid->U[k][j][i].B3c))
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From f3e7dda1e50df5fe89f999350019160d409c4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:59 +0000
Subject: [PATCH 02/74] fix: time step limit must use the magnitude of particle
 velocities

Particles moving in the negative direction were ignored by the limit.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 361125d..4e729fe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -157,11 +157,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)(pGrid->particle[q].v1)));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)(pGrid->particle[q].v2)));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)(pGrid->particle[q].v3)));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From fba6adbae4b08c11b8b7e9ecf2e8832bb2d8eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:45 +0000
Subject: [PATCH 03/74] fix: FORCE flux must use the magnetic pressure of the
 mean state in its energy flux

The Lax-Wendroff part used the left state's magnetic pressure, so the
energy flux was inconsistent and not mirror symmetric.
---
 src/rsolvers/force.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 13b053f..66adf62 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -50,6 +50,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Real asq,vaxsq=0.0,qsq,cfsq,cfl,cfr,bp,bm,ct2=0.0,tmp;
 #ifndef ISOTHERMAL
   Real hroe;
+#ifdef MHD
+  Real pbc;
+#endif
 #endif
 #ifdef MHD
   Real b2roe,b3roe,x,y;
@@ -270,7 +273,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Fc.Mz -= Bxi*Wc.Bz;
 
 #ifndef ISOTHERMAL
-  Fc.E += (pbl*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
+  pbc = 0.5*(SQR(Bxi) + SQR(Wc.By) + SQR(Wc.Bz));
+  Fc.E += (pbc*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
 #endif /* ISOTHERMAL */
 
   Fc.By = Wc.By*Wc.Vx - Bxi*Wc.Vy;
-- 
2.43.0


From a1539f9874901f27ddc8d3978db63b6ea21a7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:50 +0000
Subject: [PATCH 04/74] fix: allocate half-step arrays of the CTU integrators
 in every configuration that uses them

The condition was inverted (#ifdef for #ifndef CYLINDRICAL), so 1D and 3D cylindrical hydro runs
without a static potential dereferenced a NULL pointer; 1D adiabatic particle runs did so as well.
---
 src/integrators/integrate_1d_ctu.c | 11 ++---------
 src/integrators/integrate_3d_ctu.c |  7 -------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index ae9b491..793af5a 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -677,15 +677,8 @@ void integrate_init_1d(MeshS *pM)
   if ((Wl = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
   if ((Wr = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-#endif
-  {
-    if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  }
-  if(CoolingFunc != NULL){
-    if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  }
+  if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
+  if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
 
 #ifdef CYLINDRICAL
   if ((geom_src = (Real*)calloc_1d_array(size1, sizeof(Real))) == NULL)
diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index f421240..95ddb42 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3682,13 +3682,6 @@ void integrate_init_3d(MeshS *pM)
   if ((x3Flux   =(Cons1DS***)calloc_3d_array(size3,size2,size1,sizeof(Cons1DS)))
     == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-#ifndef MHD
-#ifndef PARTICLES
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-#endif
-#endif
-#endif
   {
   if ((dhalf = (Real***)calloc_3d_array(size3,size2,size1,sizeof(Real)))==NULL)
     goto on_error;
-- 
2.43.0


From 78a894205bece05352bd0081f5b73eb2cb9b7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:22 +0000
Subject: [PATCH 05/74] fix: keep interface B2, B3 equal to corrected
 cell-centred values in 1D/2D SMR

Flux correction changed U.B2c/U.B3c of the coarse cells next to a fine Grid but not the B2i/B3i
stored in restart files, so a restarted run lost the correction.
---
 src/smr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..7788214 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,8 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+            if (nDim == 1) pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+            if (nDim < 3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
@@ -431,6 +433,7 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q2*(pCO->myFlx[dim][kk][ii].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q2*(pCO->myFlx[dim][kk][ii].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q2*(pCO->myFlx[dim][kk][ii].B3c - *(pRcv++));
+            if (nDim < 3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From 1bfa01ac058ac5032f52305456a458294bb8ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:42 +0000
Subject: [PATCH 06/74] fix: 2D special relativistic VL integrator must update
 interface B3

Restart files store B3i, which was never updated from its initial value, so restarted 2D SR MHD
runs lost the evolved B3.
---
 src/integrators/integrate_2d_vl_sr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..c589240 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1024,6 +1024,15 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* MHD */
 #endif /* FIRST_ORDER_FLUX_CORRECTION */
 
+#ifdef MHD
+/* Update interface centered B3 (for completeness, and for restarts) */
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef STATIC_MESH_REFINEMENT
 /*=== STEP 16: With SMR, store fluxes at fine/coarse boundaries ==============*/
 
-- 
2.43.0


From 3eb2d0c7e9818cf6b97c79f242f8ccb74c853cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:12 +0000
Subject: [PATCH 07/74] fix: set magnetic diffusivities when a resistive run is
 restarted

They are computed in new_dt(), which is skipped for restarts, so the first step after a restart
was taken with zero resistivity.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 01de31d..2fe8918 100644
--- a/src/main.c
+++ b/src/main.c
@@ -429,6 +429,10 @@ int main(int argc, char *argv[])
 /* For new runs, set initial timestep */
 
   if(ires == 0) new_dt(&Mesh);
+#ifdef RESISTIVITY
+/* For restarts dt is read from the file, but the diffusivities must be set */
+  else new_dt_diff(&Mesh);
+#endif
 
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
-- 
2.43.0


From 6902be3bac7a5660f6b5a77e8e1d72d041644a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:30 +0000
Subject: [PATCH 08/74] fix: store output times and default parameters with
 enough digits to be read back exactly

16 significant digits do not identify a double, so a restarted run could write an output one step
earlier or later than the original run.
---
 src/output.c | 4 ++--
 src/par.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output.c b/src/output.c
index 30c419e..f5b954b 100644
--- a/src/output.c
+++ b/src/output.c
@@ -521,13 +521,13 @@ void data_output(MeshS *pM, const int flag)
           } else {
 	    par_seti(block,"num","%d",OutArray[n].num,"Next Output Number");
           }
-	  par_setd(block,"time","%.15e",OutArray[n].t,"Next Output Time");
+	  par_setd(block,"time","%.16e",OutArray[n].t,"Next Output Time");
 	}
       }
 /* Now do the same for the restart output block */
       sprintf(block,"output%d",rst_out.n);
       par_seti(block,"num","%d",rst_out.num+1,"Next Output Number");
-      par_setd(block,"time","%.15e",rst_out.t,"Next Output Time");
+      par_setd(block,"time","%.16e",rst_out.t,"Next Output Time");
 
 /* Write the restart file */
       (*(rst_out.res_fun))(pM,&(rst_out));
diff --git a/src/par.c b/src/par.c
index dc3b1b2..b557a0f 100644
--- a/src/par.c
+++ b/src/par.c
@@ -324,7 +324,7 @@ double par_getd_def(char *block, char *name, double def)
     return atof(pp);
   }
 
-  par_setd(block,name,"%.15e",def,"Default Value");
+  par_setd(block,name,"%.16e",def,"Default Value");
   return def;
 }
 
-- 
2.43.0


From 85234de0ddd83cd4671c8fddea6692dfac1b44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 09/74] fix: prolongate level by level, with the parent's ghost
 zones set before they are sent on

Zones sent to level nl+1 include ghost zones of level nl when a child lies nghost/2 cells inside its
parent; these were sent before being set, so the fine ghost zones depended on values of the previous
step (and, after a restart, on zeros).
---
 src/smr.c | 200 +++++++++++++++++++++++++++---------------------------
 1 file changed, 101 insertions(+), 99 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 7788214..b0e5464 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1432,105 +1432,6 @@ void Prolongate(MeshS *pM)
   }
 #endif /* MPI_PARALLEL */
 
-/*=== Step 1. Send step ======================================================*/
-/* Loop over all Domains, and send ghost zones to all child Grids. */
-
-  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
-
-  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
-    pG=pM->Domain[nl][nd].Grid;
-    for(i=0; i<maxND; i++) start_addrP[i] = 0;
-    nZeroP = 0;
-
-    for (ncg=0; ncg<(pG->NCGrid); ncg++){
-
-/* Skip if no prolongation needed for this child (only flux correction) */
-    if (pG->CGrid[ncg].nWordsP == 0) { 
-        if(ncg >= pG->NmyCGrid)
-              nZeroP += 1;
-    } else {
-
-      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
-
-/* index send_buf with DomN of child, since could be multiple child Domains on
- * same processor.  Start address must be different for each DomN */
-      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
-
-      for (dim=0; dim<(2*nDim); dim++){
-        if (pCO->myFlx[dim] != NULL) {
-
-/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
-
-          ics = pCO->ijks[0] - (nghost/2) - 1;
-          ice = pCO->ijke[0] + (nghost/2) + 1;
-          if (pG->Nx[1] > 1) {
-            jcs = pCO->ijks[1] - (nghost/2) - 1;
-            jce = pCO->ijke[1] + (nghost/2) + 1;
-          } else {
-            jcs = pCO->ijks[1];
-            jce = pCO->ijke[1];
-          }
-          if (pG->Nx[2] > 1) {
-            kcs = pCO->ijks[2] - (nghost/2) - 1;
-            kce = pCO->ijke[2] + (nghost/2) + 1;
-          } else {
-            kcs = pCO->ijks[2];
-            kce = pCO->ijke[2];
-          }
-          if (dim == 0) ice = pCO->ijks[0];
-          if (dim == 1) ics = pCO->ijke[0];
-          if (dim == 2) jce = pCO->ijks[1];
-          if (dim == 3) jcs = pCO->ijke[1];
-          if (dim == 4) kce = pCO->ijks[2];
-          if (dim == 5) kcs = pCO->ijke[2];
-
-/*--- Step 1a. ---------------------------------------------------------------*/
-/* Load send buffer with values in zones that overlap child ghost zones */
-
-          for (k=kcs; k<=kce; k++) {
-          for (j=jcs; j<=jce; j++) {
-          for (i=ics; i<=ice; i++) {
-            *(pSnd++) = pG->U[k][j][i].d;
-            *(pSnd++) = pG->U[k][j][i].M1;
-            *(pSnd++) = pG->U[k][j][i].M2;
-            *(pSnd++) = pG->U[k][j][i].M3;
-#ifndef BAROTROPIC
-            *(pSnd++) = pG->U[k][j][i].E;
-#endif
-#ifdef MHD
-            *(pSnd++) = pG->U[k][j][i].B1c;
-            *(pSnd++) = pG->U[k][j][i].B2c;
-            *(pSnd++) = pG->U[k][j][i].B3c;
-            *(pSnd++) = pG->B1i[k][j][i];
-            *(pSnd++) = pG->B2i[k][j][i];
-            *(pSnd++) = pG->B3i[k][j][i];
-#endif
-#if (NSCALARS > 0)
-            for (ns=0; ns<NSCALARS; ns++) {
-               *(pSnd++) = pG->U[k][j][i].s[ns];
-            }
-#endif
-          }}}
-        }
-      }
-
-/*--- Step 1b. ---------------------------------------------------------------*/
-/* non-blocking send of data to child, using Domain number as tag. */
-#ifdef MPI_PARALLEL
-      if (ncg >= pG->NmyCGrid) {
-        mIndex = ncg - pG->NmyCGrid - nZeroP;
-        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
-          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
-          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
-      }
-#endif /* MPI_PARALLEL */
-
-      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
-
-    } /* end if/else on nWordsP */ 
-    } /* end loop over child grids */
-  }} /* end loop over Domains */
-
 /*=== Step 2. Get step =======================================================*/
 /* Loop over all Domains, get data sent by parent Grids, and prolongate solution
  * into ghost zones. */
@@ -1911,6 +1812,107 @@ void Prolongate(MeshS *pM)
     } /* end loop over parent grids */
   }} /* end loop over Domains */
 
+/*=== Step 1. Send step ======================================================*/
+/* Loop over all Domains, and send ghost zones to all child Grids.  Must be done
+ * after the ghost zones at this level are set in Steps 2 and 3, since these may
+ * be needed for the slopes in the ghost zones of the child Grids. */
+
+  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+
+  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
+    pG=pM->Domain[nl][nd].Grid;
+    for(i=0; i<maxND; i++) start_addrP[i] = 0;
+    nZeroP = 0;
+
+    for (ncg=0; ncg<(pG->NCGrid); ncg++){
+
+/* Skip if no prolongation needed for this child (only flux correction) */
+    if (pG->CGrid[ncg].nWordsP == 0) { 
+        if(ncg >= pG->NmyCGrid)
+              nZeroP += 1;
+    } else {
+
+      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
+
+/* index send_buf with DomN of child, since could be multiple child Domains on
+ * same processor.  Start address must be different for each DomN */
+      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
+
+      for (dim=0; dim<(2*nDim); dim++){
+        if (pCO->myFlx[dim] != NULL) {
+
+/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
+
+          ics = pCO->ijks[0] - (nghost/2) - 1;
+          ice = pCO->ijke[0] + (nghost/2) + 1;
+          if (pG->Nx[1] > 1) {
+            jcs = pCO->ijks[1] - (nghost/2) - 1;
+            jce = pCO->ijke[1] + (nghost/2) + 1;
+          } else {
+            jcs = pCO->ijks[1];
+            jce = pCO->ijke[1];
+          }
+          if (pG->Nx[2] > 1) {
+            kcs = pCO->ijks[2] - (nghost/2) - 1;
+            kce = pCO->ijke[2] + (nghost/2) + 1;
+          } else {
+            kcs = pCO->ijks[2];
+            kce = pCO->ijke[2];
+          }
+          if (dim == 0) ice = pCO->ijks[0];
+          if (dim == 1) ics = pCO->ijke[0];
+          if (dim == 2) jce = pCO->ijks[1];
+          if (dim == 3) jcs = pCO->ijke[1];
+          if (dim == 4) kce = pCO->ijks[2];
+          if (dim == 5) kcs = pCO->ijke[2];
+
+/*--- Step 1a. ---------------------------------------------------------------*/
+/* Load send buffer with values in zones that overlap child ghost zones */
+
+          for (k=kcs; k<=kce; k++) {
+          for (j=jcs; j<=jce; j++) {
+          for (i=ics; i<=ice; i++) {
+            *(pSnd++) = pG->U[k][j][i].d;
+            *(pSnd++) = pG->U[k][j][i].M1;
+            *(pSnd++) = pG->U[k][j][i].M2;
+            *(pSnd++) = pG->U[k][j][i].M3;
+#ifndef BAROTROPIC
+            *(pSnd++) = pG->U[k][j][i].E;
+#endif
+#ifdef MHD
+            *(pSnd++) = pG->U[k][j][i].B1c;
+            *(pSnd++) = pG->U[k][j][i].B2c;
+            *(pSnd++) = pG->U[k][j][i].B3c;
+            *(pSnd++) = pG->B1i[k][j][i];
+            *(pSnd++) = pG->B2i[k][j][i];
+            *(pSnd++) = pG->B3i[k][j][i];
+#endif
+#if (NSCALARS > 0)
+            for (ns=0; ns<NSCALARS; ns++) {
+               *(pSnd++) = pG->U[k][j][i].s[ns];
+            }
+#endif
+          }}}
+        }
+      }
+
+/*--- Step 1b. ---------------------------------------------------------------*/
+/* non-blocking send of data to child, using Domain number as tag. */
+#ifdef MPI_PARALLEL
+      if (ncg >= pG->NmyCGrid) {
+        mIndex = ncg - pG->NmyCGrid - nZeroP;
+        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
+          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
+          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
+      }
+#endif /* MPI_PARALLEL */
+
+      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
+
+    } /* end if/else on nWordsP */ 
+    } /* end loop over child grids */
+  }} /* end loop over Domains */
+
 /*=== Step 4. Clear send_bufP ================================================*/
 /* For child/parent Grids on same processor, copy send_bufP into recv_bufP to
  * prevent "send" in Step 1 above from over-writing data in buffer on the next
-- 
2.43.0


From 233b22f532b02d24e74398407b85378f81c5348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 10/74] fix: restart cylindrical MHD runs with the integrators'
 expression for cell-centred B1

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index bb66cef..7bf7b4a 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -261,7 +261,8 @@ void restart_grids(char *res_file, MeshS *pM)
 #if defined(CARTESIAN)
           pG->U[k][j][i].B1c = 0.5*(pG->B1i[k][j][i] +pG->B1i[k][j][i+1]);
 #elif defined(CYLINDRICAL)
-          pG->U[k][j][i].B1c = 0.5*(pG->ri[i]*pG->B1i[k][j][i] + pG->ri[i+1]*pG->B1i[k][j][i+1])/pG->r[i];
+          /* same expression as in the integrators, for identical round-off */
+          pG->U[k][j][i].B1c = 0.5*((pG->ri[i]/pG->r[i])*pG->B1i[k][j][i] + (pG->ri[i+1]/pG->r[i])*pG->B1i[k][j][i+1]);
 #elif defined(SPHERICAL)
           pG->U[k][j][i].B1c = ((pG->px1i[i+1]-pG->px1v[i])*pG->B1i[k][j][i] + (pG->px1v[i]-pG->px1i[i])*pG->B1i[k][j][i+1])/pG->dx1;
 #endif
-- 
2.43.0


From 48bb7cc16716f122ac61343dca86abd81f541f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:01 +0000
Subject: [PATCH 11/74] fix: refuse domain decompositions with Grids smaller
 than the ghost zones

Such decompositions (easily chosen by AutoWithNProc) were run with ghost zones packed from other
ghost zones, and so silently gave wrong results.
---
 src/init_mesh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..ca4a77d 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -548,6 +548,9 @@ void init_mesh(MeshS *pM)
 
       for (i=0; i<3; i++) {
         xdiv[i] = div(pD->Nx[i], pD->NGrid[i]);
+        if (pD->NGrid[i] > 1 && xdiv[i].quot < nghost) ath_error(
+          "[init_mesh]: %s/NGrid_x%d = %d makes Grids with less than %d cells\n",
+          block,(i+1),pD->NGrid[i],nghost);
       }
 
 /* Distribute cells in Domain to Grids.  Assign each Grid to a processor ID in
-- 
2.43.0


From a9f5a151de86c9542800ef4b6f26e3a15d186f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:01 +0000
Subject: [PATCH 12/74] fix: missing argument in error message for inverted
 domain limits (crashed instead)

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ca4a77d..60d5921 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -184,7 +184,7 @@ void init_mesh(MeshS *pM)
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
         if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),block);
+          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
-- 
2.43.0


From 514a614e2d541501508d1bee3dfe418adffb6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:43 +0000
Subject: [PATCH 13/74] fix: time step of one Grid must not depend on the
 velocities on another level's Grid

---
 src/new_dt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/new_dt.c b/src/new_dt.c
index 4e729fe..56f4efe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -83,6 +83,9 @@ void new_dt(MeshS *pM)
     max_v1 = max_v2 = max_v3 = 1.0;
 #else
 
+/* Velocities on one Grid must not limit dt with the cell size of another */
+    max_v1 = max_v2 = max_v3 = 0.0;
+
     for (k=pGrid->ks; k<=pGrid->ke; k++) {
     for (j=pGrid->js; j<=pGrid->je; j++) {
       for (i=pGrid->is; i<=pGrid->ie; i++) {
-- 
2.43.0


From 126672598d7f0936cf510e1c9c5c3f880a3d1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:38 +0000
Subject: [PATCH 14/74] fix: refuse 1D FFT self-gravity on more than one Grid
 (solver is serial)

---
 src/gravity/selfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gravity/selfg.c b/src/gravity/selfg.c
index 4aee809..fc12123 100644
--- a/src/gravity/selfg.c
+++ b/src/gravity/selfg.c
@@ -558,6 +558,8 @@ VDFun_t selfg_init(MeshS *pM)
 /* for gravity using FFTs, also initialize plans and data for FFTW */
 #ifdef SELF_GRAVITY_USING_FFT
   case 1:
+    if (pM->Domain[0][0].NGrid[0] > 1)
+      ath_error("[selfg_init] 1D self-gravity solver requires a single Grid\n");
     return selfg_fft_1d;
   case 2:
     selfg_fft_2d_init(pM);
-- 
2.43.0


From 43caadebeb0f15377842b18a7359043c1c46d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:09 +0000
Subject: [PATCH 15/74] fix: restrict face-centered fields when only one parent
 cell is overlapped

---
 src/smr.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index b0e5464..a06dc62 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -242,16 +242,16 @@ void RestrictCorrect(MeshS *pM)
         if (nDim == 2){  /* 2D problem */
 /* Restrict B1i */
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[kcs][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[kcs][j][i] = *(pRcv++);
             }
 
-            pG->B1i[kcs][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -263,7 +263,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B2i */
           /* Set B2i at jcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[2] == NULL) {pG->B2i[kcs][jcs][i] = *(pRcv++);}
             else {pRcv++;}
@@ -277,7 +277,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B2i at jce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[3] == NULL) {pG->B2i[kcs][jce+1][i] = *(pRcv++);}
             else {pRcv++;}
@@ -296,16 +296,16 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B1i */
           for (k=kcs  ; k<=kce; k++) {
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[k][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[k][j][i] = *(pRcv++);
             }
 
-            pG->B1i[k][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -316,7 +316,7 @@ void RestrictCorrect(MeshS *pM)
           }}}
 
 /* Restrict B2i */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (k=kcs  ; k<=kce; k++) {
             /* Set B2i at jcs if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
@@ -342,7 +342,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B3i */
           /* Set B3i at kcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[4] == NULL) {pG->B3i[kcs][j][i] = *(pRcv++);}
@@ -357,7 +357,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B3i at kce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[5] == NULL) {pG->B3i[kce+1][j][i] = *(pRcv++);}
-- 
2.43.0


From 1777c882f7ffb77bf58063a95f83797e9b086309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:43 +0000
Subject: [PATCH 16/74] fix: rank of a child Grid's process in the parent's
 communicator

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 60d5921..0d37764 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -787,7 +787,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From d2944d46cece5cae7cd08e1ad522ddda82027503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 17/74] fix: SMR message requests must also be counted for
 Grids with several parents

---
 src/smr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smr.c b/src/smr.c
index a06dc62..2513fc7 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -2007,7 +2007,7 @@ void SMR_init(MeshS *pM)
         max1 = MAX(max1,(pG->Nx[0]+1));
         max2 = MAX(max2,(pG->Nx[1]+1));
         max3 = MAX(max3,(pG->Nx[2]+1));
-        maxCG = MAX(maxCG,pG->NCGrid);
+        maxCG = MAX(maxCG,MAX(pG->NCGrid,pG->NPGrid));
       }
     }
   }
-- 
2.43.0


From 6daaf88e9facec283c11b945363c83e225ae08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:40 +0000
Subject: [PATCH 18/74] fix: third-order primitive reconstruction used a stale
 index for passive scalars

---
 src/reconstruction/lr_states_prim3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reconstruction/lr_states_prim3.c b/src/reconstruction/lr_states_prim3.c
index 2fda1b5..453bf4c 100644
--- a/src/reconstruction/lr_states_prim3.c
+++ b/src/reconstruction/lr_states_prim3.c
@@ -329,11 +329,11 @@ void lr_states(const GridS *pG __attribute__((unused)),
       if (W[i].Vx > 0.) {
         qb = 0.5*dtodx*(ev[NWAVE-1]-W[i].Vx);
         qc = 0.5*dtodx*dtodx*TWO_3RDS*(SQR(ev[NWAVE-1]) - SQR(W[i].Vx));
-        pWl[n] += qb*(dW[m]-W6[m]) + qc*W6[m];
+        pWl[n] += qb*(dW[n]-W6[n]) + qc*W6[n];
       } else if (W[i].Vx < 0.) {
         qb = 0.5*dtodx*(ev[0]-W[i].Vx);
         qc = 0.5*dtodx*dtodx*TWO_3RDS*(ev[0]*ev[0] - W[i].Vx*W[i].Vx);
-        pWr[n] += qb*(dW[m]+W6[m]) + qc*W6[m];
+        pWr[n] += qb*(dW[n]+W6[n]) + qc*W6[n];
       }
     }
 
-- 
2.43.0


From 25de20b8e470bad440eea4a73fb753cf3903f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:21 +0000
Subject: [PATCH 19/74] fix: pressure of the right state for supersonic
 leftward flow in cylindrical Roe flux

---
 src/rsolvers/roe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/roe.c b/src/rsolvers/roe.c
index 631540a..9143be8 100644
--- a/src/rsolvers/roe.c
+++ b/src/rsolvers/roe.c
@@ -223,7 +223,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   if(ev[NWAVE-1] <= 0.0){
     *pFlux = Fr;
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
-    pFlux->Pflux = Wl.P;
+    pFlux->Pflux = Wr.P;
 #ifdef MHD
     pFlux->Pflux += pbr;
 #endif /* MHD */
-- 
2.43.0


From 7c7a41c9427d6fb599fdd27a873fbfe66fbb9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:33 +0000
Subject: [PATCH 20/74] fix: exact and FORCE fluxes must return the pressure
 used by the cylindrical source terms

---
 src/rsolvers/exact.c | 30 +++++++++++++++++++++++++++---
 src/rsolvers/force.c | 14 ++++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/exact.c b/src/rsolvers/exact.c
index 9b4286e..5a839ae 100644
--- a/src/rsolvers/exact.c
+++ b/src/rsolvers/exact.c
@@ -582,6 +582,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       E = Wl.d*(0.5*V + e); 
       
       pF->E = Wl.Vx*(E + Wl.P);
+#ifdef CYLINDRICAL
+      pF->Pflux = Wl.P;
+#endif
       pF->d  = Ul.Mx;
       pF->Mx = Ul.Mx*(Wl.Vx) + Wl.P;
       pF->My = Ul.My*(Wl.Vx);
@@ -608,6 +611,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       E = Wl.d*(0.5*V + e); 
       
       pF->E =  Wl.Vx*(E + Wl.P);
+#ifdef CYLINDRICAL
+      pF->Pflux = Wl.P;
+#endif
       pF->d  = Ul.Mx;
       pF->Mx = Ul.Mx*(Wl.Vx) + Wl.P;
       pF->My = Ul.My*(Wl.Vx);
@@ -633,7 +639,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       V = Vxc*Vxc + Wl.Vy*Wl.Vy + Wl.Vz*Wl.Vz;
       E = dc*(0.5*V + e); 	
       
-      pF->E = Vxc*(E + pc); 
+      pF->E = Vxc*(E + pc);
+#ifdef CYLINDRICAL
+      pF->Pflux = pc;
+#endif
       pF->d  = dc*Vxc;
       pF->Mx = dc*Vxc*Vxc + pc;
       pF->My = dc*Vxc*Wl.Vy;
@@ -659,6 +668,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       E = Wr.d*(0.5*V + e);     
       
       pF->E = Wr.Vx*(E + Wr.P);
+#ifdef CYLINDRICAL
+      pF->Pflux = Wr.P;
+#endif
       pF->d  = Ur.Mx;
       pF->Mx = Ur.Mx*(Wr.Vx) + Wr.P;
       pF->My = Ur.My*(Wr.Vx);
@@ -685,6 +697,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       E = Wr.d*(0.5*V + e); 	
       
       pF->E = Wr.Vx*(E + Wr.P);
+#ifdef CYLINDRICAL
+      pF->Pflux = Wr.P;
+#endif
       pF->d  = Ur.Mx;
       pF->Mx = Ur.Mx*(Wr.Vx) + Wr.P;
       pF->My = Ur.My*(Wr.Vx);
@@ -709,6 +724,9 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       E = dc*(0.5*V + e); 
       
       pF->E = Vxc*(E + pc);
+#ifdef CYLINDRICAL
+      pF->Pflux = pc;
+#endif
       pF->d  = dc*Vxc;
       pF->Mx = dc*Vxc*Vxc + pc;
       pF->My = dc*Vxc*Wr.Vy;
@@ -730,7 +748,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
     V = Vxc*Vxc + Wl.Vy*Wl.Vy + Wl.Vz*Wl.Vz;
     E = dcl*(0.5*V + e); 
     
-    pF->E = Vxc*(E + pc); 
+    pF->E = Vxc*(E + pc);
+#ifdef CYLINDRICAL
+    pF->Pflux = pc;
+#endif
     pF->d  = dcl*Vxc;
     pF->Mx = dcl*Vxc*Vxc + pc;
     pF->My = dcl*Vxc*Wl.Vy;
@@ -745,7 +766,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
     V = Vxc*Vxc + Wr.Vy*Wr.Vy + Wr.Vz*Wr.Vz;
     E = dcr*(0.5*V + e); 
     
-    pF->E = Vxc*(E + pc); 
+    pF->E = Vxc*(E + pc);
+#ifdef CYLINDRICAL
+    pF->Pflux = pc;
+#endif
     pF->d  = dcr*Vxc;
     pF->Mx = dcr*Vxc*Vxc + pc;
     pF->My = dcr*Vxc*Wr.Vy;
diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 66adf62..cd3df4e 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -224,6 +224,11 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   }
 #endif
 
+#if defined(CYLINDRICAL) && !defined(ISOTHERMAL)
+  Fl.Pflux = Wl.P + pbl;
+  Fr.Pflux = Wr.P + pbr;
+#endif
+
 /*--- Step 6. ------------------------------------------------------------------
  * For supersonic flow, return the upwind flux.
  */
@@ -293,6 +298,15 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
     pF[n] = 0.5*pFc[n] + 0.25*(pFl[n] + pFr[n]) + (pFl[n] - pFr[n])*tmp;
   }
 
+#if defined(CYLINDRICAL) && !defined(ISOTHERMAL)
+  Fc.Pflux = Wc.P;
+#ifdef MHD
+  Fc.Pflux += pbc;
+#endif
+  pFlux->Pflux = 0.5*Fc.Pflux + 0.25*(Fl.Pflux + Fr.Pflux)
+               + (Fl.Pflux - Fr.Pflux)*tmp;
+#endif
+
 /* Fluxes of passively advected scalars, computed from density flux */
 #if (NSCALARS > 0)
   if (pFlux->d >= 0.0) {
-- 
2.43.0


From 000febf19d618e17ff6da89006a5528a6e299f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:52 +0000
Subject: [PATCH 21/74] fix: relativistic MHD wave speeds treated a negative
 longitudinal field as zero

---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From 2f212717844f96cf72836cff3542aacaf7451563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:52 +0000
Subject: [PATCH 22/74] fix: Roe solver takes scalars from the upwind side of
 the mass flux in all cases

---
 src/rsolvers/roe.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsolvers/roe.c b/src/rsolvers/roe.c
index 9143be8..c4e0370 100644
--- a/src/rsolvers/roe.c
+++ b/src/rsolvers/roe.c
@@ -211,6 +211,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
 
   if(ev[0] >= 0.0){
     *pFlux = Fl;
+#if (NSCALARS > 0)
+    if (Fl.d < 0.0)
+      for (n=0; n<NSCALARS; n++) pFlux->s[n] = Fl.d*Wr.r[n];
+#endif
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
     pFlux->Pflux = Wl.P;
 #ifdef MHD
@@ -222,6 +226,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
 
   if(ev[NWAVE-1] <= 0.0){
     *pFlux = Fr;
+#if (NSCALARS > 0)
+    if (Fr.d >= 0.0)
+      for (n=0; n<NSCALARS; n++) pFlux->s[n] = Fr.d*Wl.r[n];
+#endif
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
     pFlux->Pflux = Wr.P;
 #ifdef MHD
-- 
2.43.0


From 4d398f0c67e61bbcb383eee96a0c0a7a663a7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 23/74] fix: relativistic exact solver chose the contact side
 from an uninitialised velocity

---
 src/rsolvers/exact_sr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/exact_sr.c b/src/rsolvers/exact_sr.c
index 5ee4f10..5e008f8 100644
--- a/src/rsolvers/exact_sr.c
+++ b/src/rsolvers/exact_sr.c
@@ -114,7 +114,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
  
   /* check if intial data states are the same */
   if ((fabs(Wl.P-Wr.P) <= TOL)  && (fabs(Wl.Vx-Wr.Vx) <= TOL)) {  
-    if (vxc >= 0.0) {
+    if (Wl.Vx >= 0.0) {
       setFluxes(Wl.Vx, Wl.Vy, Wl.Vz, Wl.P, Wl.d, pF);
       return; 
     }
-- 
2.43.0


From 2f3e56fa3269a6ff766412ab8f4ac6ff3594eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 24/74] fix: tangential velocity behind relativistic shocks
 used the adiabatic instead of the shock density

---
 src/rsolvers/exact_sr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rsolvers/exact_sr.c b/src/rsolvers/exact_sr.c
index 5e008f8..80b3eaf 100644
--- a/src/rsolvers/exact_sr.c
+++ b/src/rsolvers/exact_sr.c
@@ -84,7 +84,7 @@ Real rtbis_xi(Real (*func)(const Prim1DS Wa, Real P, Real vx, char), const Prim1
 
 void getVelT_Raref(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz);
 
-void getVelT_Shock(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz);
+void getVelT_Shock(const Prim1DS Wa, Real P, Real db, Real vxb, Real *pVy, Real *pVz);
 
 void setFluxes(Real vx, Real vy, Real vz, Real P, Real d,Cons1DS *pF );
 
@@ -254,7 +254,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
     }
     else {
       /*left shock */
-      getVelT_Shock(Wl, pc, vxc, &vy, &vz);
+      getVelT_Shock(Wl, pc, dcl, vxc, &vy, &vz);
       setFluxes(vxc, vy, vz, pc, dcl, pF); 
       return;
     }
@@ -264,7 +264,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
     
     if (pc > Wr.P) {
       /* right shock */
-      getVelT_Shock(Wr, pc, vxc, &vy, &vz);    
+      getVelT_Shock(Wr, pc, dcr, vxc, &vy, &vz);    
       setFluxes(vxc, vy, vz, pc, dcr, pF); 
       return;
     }
@@ -750,10 +750,10 @@ void getVelT_Raref(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz)
  *
  *  Note that this function differs from Pons et al. (2000) equation 4.13, 
  *  which is only valid for one of vz or vy equal to zero. */
-void getVelT_Shock(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz)
+void getVelT_Shock(const Prim1DS Wa, Real P, Real db, Real vxb, Real *pVy, Real *pVz)
 {
   Real va_t, ha, Ga, Ay, Az; 
-  Real hb, db, vy, vz, Gb;
+  Real hb, vy, vz, Gb;
   Real Cy, Cz; 
   Real D; 
 
@@ -768,7 +768,6 @@ void getVelT_Shock(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz)
   
   Ay = ha*Ga*Wa.Vy;
   Az = ha*Ga*Wa.Vz; 
-  db = Wa.d*pow((double)(P/Wa.P), (double) (1.0/Gamma));
   hb =  1.0 + Gamma*P/((Gamma-1.0)*db);  
 
   Cz = Az*Az/(hb*hb+Az*Az);
-- 
2.43.0


From 88b788a84e7bf52af9fc4d9666a1ce181520bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:55 +0000
Subject: [PATCH 25/74] fix: HLLD fast speed was not a number when sound and
 Alfven speeds coincide

---
 src/rsolvers/hlld.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rsolvers/hlld.c b/src/rsolvers/hlld.c
index a9c7f5f..d07c946 100644
--- a/src/rsolvers/hlld.c
+++ b/src/rsolvers/hlld.c
@@ -100,8 +100,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   gpbl = gpl + 2.0*pbl;
   gpbr = gpr + 2.0*pbr;
 
-  cfl = sqrt((gpbl + sqrt(SQR(gpbl)-4.0*gpl*Bxsq))/(2.0*Wl.d));
-  cfr = sqrt((gpbr + sqrt(SQR(gpbr)-4.0*gpr*Bxsq))/(2.0*Wr.d));
+  cfl = sqrt((gpbl + sqrt(SQR(gpl-2.0*pbl)+4.0*gpl*(SQR(Wl.By)+SQR(Wl.Bz))))
+             /(2.0*Wl.d));
+  cfr = sqrt((gpbr + sqrt(SQR(gpr-2.0*pbr)+4.0*gpr*(SQR(Wr.By)+SQR(Wr.Bz))))
+             /(2.0*Wr.d));
   cfmax = MAX(cfl,cfr);
 
   if(Wl.Vx <= Wr.Vx) {
@@ -453,8 +455,10 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   gpbl = gpl + 2.0*pbl;
   gpbr = gpr + 2.0*pbr;
 
-  cfl = sqrt((gpbl + sqrt(SQR(gpbl)-4.0*gpl*Bxsq))/(2.0*Wl.d));
-  cfr = sqrt((gpbr + sqrt(SQR(gpbr)-4.0*gpr*Bxsq))/(2.0*Wr.d));
+  cfl = sqrt((gpbl + sqrt(SQR(gpl-2.0*pbl)+4.0*gpl*(SQR(Wl.By)+SQR(Wl.Bz))))
+             /(2.0*Wl.d));
+  cfr = sqrt((gpbr + sqrt(SQR(gpr-2.0*pbr)+4.0*gpr*(SQR(Wr.By)+SQR(Wr.Bz))))
+             /(2.0*Wr.d));
 
   spd[0] = MIN(Wl.Vx-cfl,Wr.Vx-cfr);
   spd[4] = MAX(Wl.Vx+cfl,Wr.Vx+cfr);
-- 
2.43.0


From dfaece2c65ac7007878820fa28e5a0061d722290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 26/74] fix: rotating-frame source terms of the 3D CTU
 integrator were applied to the first layer of cells only

---
 src/integrators/integrate_3d_ctu.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 95ddb42..e52d663 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2811,15 +2811,15 @@ void integrate_3d_ctu(DomainS *pD)
           phir = (*StaticGravPot)((x1+0.5*pG->dx1),x2,x3);
           phil = (*StaticGravPot)((x1-0.5*pG->dx1),x2,x3);
           g = (phir-phil)/pG->dx1;
-          M1h -= hdt*pG->U[ks][j][i].d*g;
+          M1h -= hdt*pG->U[k][j][i].d*g;
 
           phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
           phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
           M2h -= q2*(phir-phil)*pG->U[k][j][i].d;
         }
 #ifdef ROTATING_FRAME
-          M1h += (pG->dt)*Omega_0*pG->U[ks][j][i].M2;
-          M2h -= (pG->dt)*Omega_0*pG->U[ks][j][i].M1;
+          M1h += (pG->dt)*Omega_0*pG->U[k][j][i].M2;
+          M2h -= (pG->dt)*Omega_0*pG->U[k][j][i].M1;
 #endif /*ROTATING_FRAME*/
 
         /* Compute geometric source term at time n+1/2 */
@@ -2848,15 +2848,15 @@ void integrate_3d_ctu(DomainS *pD)
         pG->U[k][j][i].M1 += pG->dt*( 2.0*Om*Mpav + geom_src[k][j][i]);
         pG->U[k][j][i].M2 += pG->dt*( Om*(qshear-2.0)*Mrav);
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[j][i]*Om*x1vc(pG,i));
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[k][j][i]*Om*x1vc(pG,i));
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
 #endif
 #else /* FARGO */
         /* Add time-centered geometric source term for full dt */
         pG->U[k][j][i].M1 += pG->dt*geom_src[k][j][i];
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
 #endif /* ROTATING_FRAME */
 #endif /* FARGO */
       }
-- 
2.43.0


From 5c39841c9910c26f8443763c31ec12c33e0e26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 27/74] fix: parallel FFT reused a 1D plan for a different
 number of transforms on unevenly divided grids

---
 src/fftsrc/fft_2d.c | 2 +-
 src/fftsrc/fft_3d.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftsrc/fft_2d.c b/src/fftsrc/fft_2d.c
index 22ecb69..982a3cd 100644
--- a/src/fftsrc/fft_2d.c
+++ b/src/fftsrc/fft_2d.c
@@ -327,7 +327,7 @@ struct fft_plan_2d *fft_2d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
diff --git a/src/fftsrc/fft_3d.c b/src/fftsrc/fft_3d.c
index 5c64698..ecfd7fb 100644
--- a/src/fftsrc/fft_3d.c
+++ b/src/fftsrc/fft_3d.c
@@ -411,7 +411,7 @@ struct fft_plan_3d *fft_3d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_mid_forward = plan->plan_fast_forward;
     plan->plan_mid_backward = plan->plan_fast_backward;
   }
@@ -426,11 +426,11 @@ struct fft_plan_3d *fft_3d_create_plan(
                          NULL,1,plan->length2,FFTW_BACKWARD,FFTW_ESTIMATE);
   }
 
-  if (plan->length3 == plan->length1) {
+  if (plan->length3 == plan->length1 && plan->total3 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
-  else if (plan->length3 == plan->length2) {
+  else if (plan->length3 == plan->length2 && plan->total3 == plan->total2) {
     plan->plan_slow_forward = plan->plan_mid_forward;
     plan->plan_slow_backward = plan->plan_mid_backward;
   }
-- 
2.43.0


From 46b389d6a1ea4dec7ff75c94d4e4c4c7d7652905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:38 +0000
Subject: [PATCH 28/74] fix: shearing-box exchange buffers were too small for
 the corner zones of narrow Grids

---
 src/bvals_shear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index af9ff34..e09c853 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5501,6 +5501,12 @@ void bvals_shear_init(MeshS *pM)
 
 #ifdef MPI_PARALLEL
   size1 = nghost*pG->Nx[1]*(pG->Nx[2]+1)*(NREMAP+NSCALARS);
+/* the exchanges in Y need room for the corners (nghost columns of NVAR_SHARE
+ * variables) and for RemapVar (Nx[0]+1 columns of one variable) */
+  size1 = MAX(size1, nghost*nghost*(pG->Nx[2]+1)*NVAR_SHARE);
+#if defined(SELF_GRAVITY) || defined(FFT_ENABLED)
+  size1 = MAX(size1, nghost*(pG->Nx[0]+1)*(pG->Nx[2]+1));
+#endif
 #ifdef FARGO
   size2 = nfghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)*(NFARGO+NSCALARS);
 #endif
-- 
2.43.0


From 1b2ac3a0d30bc08e58a4567f5b55fc12e0a98f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:46 +0000
Subject: [PATCH 29/74] fix: relativistic MHD inversion did not converge for
 large enthalpies (absolute tolerance)

---
 src/convert_var.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/convert_var.c b/src/convert_var.c
index 3ea756b..f931761 100644
--- a/src/convert_var.c
+++ b/src/convert_var.c
@@ -690,7 +690,7 @@ Prim1DS Cons1D_to_Prim1D(const Cons1DS *U, const Real *Bx)
   q_incs = 0;
   while (nr_success == 0 && q_incs < 100000) {
 
-    if (fabs(dQstep) <= tol) nr_success = 1;
+    if (fabs(dQstep) <= tol*MAX(1.0,fabs(Q))) nr_success = 1;
 
     /* Obtain scalar quantities based on current solution estimate */
     Vsq = calc_vsq (Bsq,Msq,Ssq,Q);
@@ -895,7 +895,7 @@ Prim1DS check_Prim1D (const Cons1DS *U, const Real *Bx)
   q_incs = 0;
   while (nr_success == 0 && q_incs < 1000) {
 
-    if (fabs(dQstep) <= tol) nr_success = 1;
+    if (fabs(dQstep) <= tol*MAX(1.0,fabs(Q))) nr_success = 1;
 
     /* Obtain scalar quantities based on current solution estimate */
     Vsq = calc_vsq (Bsq,Msq,Ssq,Q);
@@ -1085,7 +1085,7 @@ Prim1DS entropy_fix1D (const Cons1DS *U, const Real *Bx, const Real *ent)
   q_incs = 0;
   while (nr_success == 0 && q_incs < 1000) {
 
-    if (fabs(dQstep) <= tol) nr_success = 1;
+    if (fabs(dQstep) <= tol*MAX(1.0,fabs(Q))) nr_success = 1;
 
     /* Obtain scalar quantities based on current solution estimate */
     Vsq = calc_vsq (Bsq,Msq,Ssq,Q);
-- 
2.43.0


From ca578f1aac9a49cb623ac3c6e8a8e587e0591fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:49 +0000
Subject: [PATCH 30/74] fix: relativistic hydrodynamic inversion lost the
 velocity of slow hot gas to round-off

---
 src/convert_var.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/convert_var.c b/src/convert_var.c
index f931761..f5bb99e 100644
--- a/src/convert_var.c
+++ b/src/convert_var.c
@@ -554,6 +554,8 @@ Prim1DS Cons1D_to_Prim1D(const Cons1DS *U, const Real *Bx)
   Real i1, i2, i3;
   Real iR, iS, iT;
   Real ix1=0.0, iB, iC, v, vOverM;
+  Real vlo, vhi, vnew, W, f, df;
+  int n;
 
   /* Step One: Reduce equations to a quartic polynomial in v */
 
@@ -603,6 +605,26 @@ Prim1DS Cons1D_to_Prim1D(const Cons1DS *U, const Real *Bx)
     iC = 0.5*(ix1 - sqrt(SQR(ix1) - 4.0*a0));
     v = (-iB + sqrt(SQR(iB) - 4.0*iC))/2.0;
 
+    /* The quartic is the square of the equation for v, so its roots nearly
+     * coincide in hot gas and round-off can lose v altogether.  Polish the root
+     * with bracketed Newton iterations on the equation itself. */
+
+    vlo = 0.0;
+    vhi = 1.0;
+    if (!(v > vlo && v < vhi)) v = MIN(M/U->E, 0.5);
+    for (n=0; n<60; n++) {
+      W = sqrt(1.0 - SQR(v));
+      f = Gamma*v*(U->E - M*v) - M*SQR(W) - Gamma_1*U->d*v*W;
+      if (f == 0.0) break;
+      if (f > 0.0) vhi = v; else vlo = v;
+      df = Gamma*(U->E - 2.0*M*v) + 2.0*M*v - Gamma_1*U->d*(W - SQR(v)/W);
+      vnew = v - f/df;
+      if (!(vnew > vlo && vnew < vhi)) vnew = 0.5*(vlo + vhi);
+      f = fabs(vnew - v);
+      v = vnew;
+      if (f <= 1.0e-15*v) break;
+    }
+
   }
 
   /* Step Three: Resolve primitives with the value of v */
-- 
2.43.0


From 538072097ad640358c96152ee290ddd874c94721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:40 +0000
Subject: [PATCH 31/74] fix: parameter lines longer than MAXLEN were split and
 misread, or overran a buffer when distributed by MPI

---
 src/par.c | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/par.c b/src/par.c
index b557a0f..0ade5f3 100644
--- a/src/par.c
+++ b/src/par.c
@@ -133,6 +133,7 @@ static void *allocate(size_t size);
 static char *my_strdup(char *in);
 static char *skipwhite(char *cp);
 static void str_term(char *cp);
+static char *read_line(FILE *fp);
 static char *line_block_name(char *line);
 static void add_par(Block *bp, char *name, char *value, char *comment);
 static void add_par_line(Block *bp, char *line);
@@ -156,8 +157,7 @@ void par_debug(int level);
 void par_open(char *filename)
 {
   FILE *fp;
-  char line[MAXLEN];
-  char *block_name, *cp;
+  char *line, *block_name, *cp;
   Block *bp = NULL;
 
   if (now_open) ath_error("Parameter file %s still open\n",now_filename);
@@ -170,7 +170,7 @@ void par_open(char *filename)
   now_open = 1;
   now_filename = my_strdup(filename);
 
-  while (fgets(line,MAXLEN,fp)) {      /* dumb approach: one line per command */
+  while ((line = read_line(fp)) != NULL) { /* dumb approach: one line per command */
     cp = skipwhite(line);              /* skip whitespace first */
     if (*cp == '\0') continue;         /* blank line */
     if (*cp == '#') continue;          /* skip comments */
@@ -434,7 +434,7 @@ void par_close(void)
 #ifdef MPI_PARALLEL
 void par_dist_mpi(const int mytid, MPI_Comm comm)
 {
-  char line[MAXLEN];
+  char *line = NULL;
   Block *bp = NULL;
   Par *pp;
   int count;
@@ -456,6 +456,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 
     for(bp = base_block; bp != NULL; bp = bp->next){
 /* Rebuild the "<block>" string */
+      line = (char *) allocate(strlen(bp->name) + 3);
       sprintf(line,"<%s>",bp->name);
 
 /* Broadcast the block string */
@@ -464,9 +465,12 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
       if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
+      free(line);
 
       for(pp = bp->p; pp != NULL; pp = pp->next){
 /* Rebuild the "name = value # comment" string */
+	line = (char *) allocate(strlen(pp->name) + strlen(pp->value) + 7 +
+				 (pp->comment == NULL ? 0 : strlen(pp->comment)));
 	if(pp->comment == NULL)
 	  sprintf(line,"%s = %s",pp->name,pp->value);
 	else
@@ -478,6 +482,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 	  ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 	if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	  ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
+	free(line);
       }
     }
 
@@ -494,9 +499,11 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 /* printf("[tid=%d]: filename length = %d\n",mytid,count); */
+    line = (char *) allocate(count);
     if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
     now_filename = my_strdup(line);
+    free(line);
 /* printf("[tid=%d]: filename length = \"%s\"\n",mytid,now_filename); */
     now_open = 1;
     if(debug)
@@ -506,6 +513,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
     while(count > 0){
+      line = (char *) allocate(count);
       if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 
@@ -515,6 +523,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
       }
       else
 	add_par_line(bp,line);              /* add par to this block */
+      free(line);
 
       if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
@@ -586,6 +595,32 @@ static void str_term(char *cp)
   return;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static char *read_line(FILE *fp)
+ *  \brief Read one line of any length.  Returns a pointer to an internal
+ *   buffer which is overwritten by the next call, or NULL at the end of file.
+ */
+
+static char *read_line(FILE *fp)
+{
+  static char *buf = NULL;
+  static int size = 0;
+  int n = 0, c;
+
+  while ((c = getc(fp)) != EOF) {
+    if (n + 2 > size) {
+      size += MAXLEN;
+      if ((buf = (char *) realloc(buf,size)) == NULL)
+        ath_error("read_line: not enough memory for %d bytes\n",size);
+    }
+    buf[n++] = c;
+    if (c == '\n') break;
+  }
+  if (n == 0) return NULL;
+  buf[n] = '\0';
+  return buf;
+}
+
 /*----------------------------------------------------------------------------*/
 /*! \fn static char *line_block_name(char *line) 
  *  \brief Extract a block name from a line containing <block>
-- 
2.43.0


From 0d88906402cce0a5be3a4a0aa829caf1e73847a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:40 +0000
Subject: [PATCH 32/74] fix: a parameter with a comment but no value took the
 comment as its value; empty names were misread

---
 src/par.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/par.c b/src/par.c
index 0ade5f3..978f9be 100644
--- a/src/par.c
+++ b/src/par.c
@@ -637,6 +637,7 @@ static char *line_block_name(char *line)
   while (*cp != '\0' && *cp != '>')
     cp++;
   if (*cp != '>') ath_error("Blockname %s does not appear terminated\n",sp);
+  if (cp == sp) ath_error("Empty blockname in line %s\n",line);
   str_term(cp);      /* patch the line and remove any trailing white space */
 
   return sp;         /* return pointer into the now patched input string */
@@ -730,6 +731,8 @@ static void add_par_line(Block *bp, char *line)
 
   if(equal == NULL)
     ath_error("No '=' found in line \"%s\"\n",line);
+  if(equal == name)
+    ath_error("No parameter name in line \"%s\"\n",line);
 
   str_term(equal);                  /* Terminate the name string */
 
@@ -737,6 +740,7 @@ static void add_par_line(Block *bp, char *line)
     str_term(nul);                  /* Terminate the value string */
   }
   else{
+    *hash = '\0';                   /* value may be empty */
     str_term(hash);                 /* Terminate the value string */
 
     if(*comment == '\0')
-- 
2.43.0


From 616b0072ae84e58efcc12a01a35865070db0d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:09 +0000
Subject: [PATCH 33/74] fix: a refined Domain lying outside every Domain of the
 coarser level was accepted

---
 src/init_mesh.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 0d37764..af6c669 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -394,6 +394,24 @@ void init_mesh(MeshS *pM)
   }}
 
 /*--- Step 5: Check for illegal geometry of child/parent Domains -------------*/
+/* Print error if any Domain overlaps no Domain on the next coarser level */
+
+  for (nl=1; nl<=maxlevel; nl++){
+  for (ncd=0; ncd<pM->DomainsPerLevel[nl]; ncd++){
+    pCD = (DomainS*)&(pM->Domain[nl][ncd]);
+    nd_this_level = 0;
+    for (nd=0; nd<pM->DomainsPerLevel[nl-1]; nd++){
+      pD = (DomainS*)&(pM->Domain[nl-1][nd]);
+      for (i=0; i<nDim; i++) {
+        if (pCD->Disp[i] >= 2*(pD->Disp[i] + pD->Nx[i]) ||
+            pCD->Disp[i] + pCD->Nx[i] <= 2*pD->Disp[i]) break;
+      }
+      if (i == nDim) nd_this_level++;
+    }
+    if (nd_this_level == 0)
+      ath_error("[init_mesh]: domain%d lies outside all Domains on level %d\n",
+        pCD->InputBlock,nl-1);
+  }}
 
   for (nl=0; nl<maxlevel; nl++){
   for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++){
-- 
2.43.0


From 9d2bcfbee8c162e836f8ac0d116c58f9ba5faac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:27 +0000
Subject: [PATCH 34/74] fix: half-step momenta of the 3D cylindrical CTU
 integrator divided the azimuthal fluxes by r/dx2 instead of r*dx2

---
 src/integrators/integrate_3d_ctu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index e52d663..b38e657 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2286,7 +2286,7 @@ void integrate_3d_ctu(DomainS *pD)
       for (i=il+1; i<=iu-1; i++) {
 #ifdef CYLINDRICAL
         rsf = ri[i+1]/r[i];  lsf = ri[i]/r[i];
-        q2 = hdt/(r[i]/pG->dx2);
+        q2 = hdt/(r[i]*pG->dx2);
 #endif
         M1h = pG->U[k][j][i].M1
            - q1*(rsf*x1Flux[k  ][j  ][i+1].Mx - lsf*x1Flux[k][j][i].Mx)
-- 
2.43.0


From bb7e64195d69c48bf2dc866ba4a6b8d1b56a6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 35/74] fix: the FARGO shift of 2D MHD did not advect the
 out-of-plane field

---
 src/bvals_shear.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index e09c853..b42abfd 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5386,6 +5386,8 @@ void Fargo(DomainS *pD)
         pG->U[k][j][i].B2c = 0.5*(    pG->B2i[k][j][i] +     pG->B2i[k][j+1][i]);
         if (pG->Nx[2]>1) {
           pG->U[k][j][i].B3c = 0.5*(    pG->B3i[k][j][i] +     pG->B3i[k+1][j][i]);
+        } else {
+          pG->U[k][j][i].B3c = pG->B3i[k][j][i];
         }
       }
     }
-- 
2.43.0


From 498da95fd9b3c97eaf9cefa7b452d66f86784038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:54 +0000
Subject: [PATCH 36/74] fix: relativistic MHD HLLC flux used superluminal
 intermediate velocities when the normal field is small

---
 src/rsolvers/hllc_sr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index f6f5305..814773c 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -507,7 +507,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       vBs = vxs*Bx + vys*Bys + vzs*Bzs;
 			
       ps = (Bx*vBs - Fhll.E)*vxs + (Bx*Bx*gammas_2) + Fhll.Mx;
-      if (ps < 0) {
+      if (ps < 0 || !(gammas_2 > 0.0)) { /* superluminal for small Bx */
 	switch_to_hll = 1;
       } else {
 			
-- 
2.43.0


From 151f95954312bf348d4df25796eda170e6938132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 37/74] fix: sheared ghost zones of 2D MHD kept the unsheared
 out-of-plane field

---
 src/bvals_shear.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index b42abfd..0e887d2 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -496,6 +496,12 @@ void ShearingSheet_ix1(DomainS *pD)
         }
       }
     }
+  } else { /* in 2D the out-of-plane field is cell-centered */
+    for (j=js; j<=je; j++) {
+      for(i=is-nghost; i<is; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
@@ -1092,6 +1098,12 @@ void ShearingSheet_ox1(DomainS *pD)
         }
       }
     }
+  } else { /* in 2D the out-of-plane field is cell-centered */
+    for (j=js; j<=je; j++) {
+      for(i=ie+1; i<=ie+nghost; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
-- 
2.43.0


From 059f8bd09242c8959675969df222959ab33fe2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 38/74] fix: anisotropic conduction in 2D normalised the field
 direction without the out-of-plane field

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0


From 0a121ff8404acc46ce3cc8714158cdc647a4fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 39/74] fix: output files of the first Domain of a deeper level
 took the name of an earlier Domain, overwriting each other

---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pdf.c   | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..6b8cfe8 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -90,6 +90,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..ae6f5ae 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -326,6 +326,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
 
 /* Create filename and open file.  History files are always written in lev#
  * directories of root process (rank=0 in MPI_COMM_WORLD) */
+          plev = pdom = pdir = NULL;
 #ifdef MPI_PARALLEL
           if (nl>0) {
             plev = &levstr[0];
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..b609f95 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -69,6 +69,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
@@ -319,6 +320,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..915ec34 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -90,6 +90,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..f9c7eb1 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -218,6 +218,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 /* Create filename and open file.  pdf files are always written in lev#
  * directories of root (rank=0) process. */
+        plev = pdom = pdir = NULL;
 #ifdef MPI_PARALLEL
         if (nl>0) {
           plev = &levstr[0];
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..84e0621 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -60,6 +60,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..ced7732 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -72,6 +72,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
-- 
2.43.0


From 1f5a742ddb8587a6d4c3f83f02dc62a181071e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 40/74] fix: more than ten outputs overran the array of output
 flags

---
 src/output.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index f5b954b..bacbd68 100644
--- a/src/output.c
+++ b/src/output.c
@@ -485,9 +485,15 @@ void data_output(MeshS *pM, const int flag)
   PropFun_t mypar_prop = NULL;
 #endif
   int n;
-  int dump_flag[MAXOUT_DEFAULT+1];
+  int *dump_flag;
   char block[80];
 
+/* One flag for each element in output array, and one for restarts */
+
+  if((dump_flag = (int *)malloc((out_count+1)*sizeof(int))) == NULL){
+    ath_error("[data_output]: Error allocating array of output flags\n");
+  }
+
 /* Loop over all elements in output array
  * set dump flag to input argument, check whether time for output */
 
@@ -555,6 +561,8 @@ void data_output(MeshS *pM, const int flag)
     }
   }
 
+  free(dump_flag);
+
   return;
 }
 
-- 
2.43.0


From 5dfecf48a9ed309a03dfeb682fffe5ba0734733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 41/74] fix: history averages of 1D and 2D runs were multiplied
 by the size of the ignored directions

---
 src/dump_history.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index ae6f5ae..8b464a5 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -173,9 +173,9 @@ void dump_history(MeshS *pM, OutputS *pOut)
           for (j=js; j<=je; j++) {
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
-              if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pG->Nx[0] > 1) dVol *= pG->dx1;
+              if (pG->Nx[1] > 1) dVol *= pG->dx2;
+              if (pG->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From 32249079632caef74dba404760bc57ebcc19f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 42/74] fix: probability distributions with several Domains (or
 processes) overran their arrays and mixed Domains' statistics

---
 src/output_pdf.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index f9c7eb1..e5e64e4 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -44,7 +44,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
   char fmt[80];
   char fid[80]; /* File "id" for the statistics table */
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL;
-  char levstr[8],domstr[8],dirstr[8];
+  char levstr[8],domstr[8],dirstr[20];
   int nl,nd,i,j,k,is,ie,js,je,ks,ke;
   int n, data_cnt;
   double dmin, dmax, delta, dpdf, dat, scl;
@@ -78,8 +78,15 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         ks = pG->ks, ke = pG->ke;
         data_cnt = (ie - is + 1)*(je - js + 1)*(ke - ks + 1);
 
-/* Are the requisite arrays allocated? */
-        if(data == NULL){
+/* Are the requisite arrays allocated, with the size needed by this Domain? */
+#ifdef MPI_PARALLEL
+        n = (int)sqrt((double)cd_data_cnt);
+#else /* MPI_PARALLEL */
+        n = (int)sqrt((double)data_cnt);
+#endif /* MPI_PARALLEL */
+        if(data == NULL || size_dat != data_cnt || size_pdf != n){
+          if(data != NULL) free(data);
+          if(pdf != NULL) free(pdf);
           size_dat = data_cnt;
           data = (double *)calloc(size_dat,sizeof(double));
           if(data == NULL)
@@ -87,17 +94,14 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 /* This choice for size_pdf represents a balance between
  * resolution in the PDF and "shot noise" in the data binning. */
-#ifdef MPI_PARALLEL
-          size_pdf = (int)sqrt((double)cd_data_cnt);
-#else /* MPI_PARALLEL */
-          size_pdf = (int)sqrt((double)size_dat);
-#endif /* MPI_PARALLEL */
+          size_pdf = n;
           pdf = (int *)calloc(size_pdf,sizeof(int));
           if(pdf == NULL)
             ath_error("[output_pdf]: Failed to allocate pdf array\n");
 
 #ifdef MPI_PARALLEL
           if(myID_Comm_Domain == 0){ /* I'm the parent */
+            if(cd_pdf != NULL) free(cd_pdf);
             cd_pdf = (int *)calloc(size_pdf,sizeof(int));
             if(cd_pdf == NULL)
               ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
@@ -106,7 +110,8 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         }
 
 
-/* Initialize dmin, dmax */
+/* Initialize dmin, dmax, and the moments */
+        mean = var = adev = sdev = skew = kurt = ep = 0.0;
         dmin = dmax = (*pOut->expr)(pG,is,js,ks);
 
 /* Fill the data array */
@@ -160,6 +165,9 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           dat = var;
           ierr = MPI_Allreduce(&dat,&var,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
+          dat = adev;
+          ierr = MPI_Allreduce(&dat,&adev,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+
           dat = skew;
           ierr = MPI_Allreduce(&dat,&skew,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
@@ -213,7 +221,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 #ifdef MPI_PARALLEL
 /* For parallel calculations, only the parent writes the output. */
-        if(myID_Comm_Domain != 0) return;
+        if(myID_Comm_Domain != 0) continue;
 #endif /* MPI_PARALLEL */
 
 /* Create filename and open file.  pdf files are always written in lev#
@@ -224,7 +232,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
           pdir = &dirstr[0];
-          sprintf(pdir,"../lev%d",nl);
+          sprintf(pdir,"../id0/lev%d",nl);
         }
 #else
         if (nl>0) {
-- 
2.43.0


From 69e420f5e4becfbbb7efc9885cdd818431ac2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 43/74] fix: velocity, pressure, sound speed and entropy
 outputs used the Newtonian formulas in special relativity

---
 src/output.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index bacbd68..8119382 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1169,23 +1169,41 @@ Real expr_ME(const GridS *pG, const int i, const int j, const int k) {
 /*! \fn Real expr_V1(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 1-velocity */
 Real expr_V1(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V1;
+#else
   return pG->U[k][j][i].M1/pG->U[k][j][i].d;
+#endif
 }
 /*! \fn Real expr_V2(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 2-velocity */
 Real expr_V2(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V2;
+#else
   return pG->U[k][j][i].M2/pG->U[k][j][i].d;
+#endif
 }
 /*! \fn Real expr_V3(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 3-velocity */
 Real expr_V3(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V3;
+#else
   return pG->U[k][j][i].M3/pG->U[k][j][i].d;
+#endif
 }
 
 /*! \fn Real expr_P(const GridS *pG, const int i, const int j, const int k) 
  *  \brief Pressure */
 Real expr_P(const GridS *pG, const int i, const int j, const int k) {
-#ifdef ISOTHERMAL
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.P;
+#elif defined ISOTHERMAL
   return  pG->U[k][j][i].d*Iso_csound2;
 #else
   ConsS *gp = &(pG->U[k][j][i]);
@@ -1204,12 +1222,17 @@ Real expr_P(const GridS *pG, const int i, const int j, const int k) {
 #ifdef ADIABATIC
 Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return Gamma*W.P/(W.d + Gamma*W.P/Gamma_1);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   return (Gamma*Gamma_1*(gp->E 
 #ifdef MHD
 	  - 0.5*(gp->B1c*gp->B1c + gp->B2c*gp->B2c + gp->B3c*gp->B3c)
 #endif /* MHD */
 	  - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d)/gp->d);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
@@ -1220,6 +1243,10 @@ Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 #ifdef ADIABATIC
 Real expr_S(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.P/pow((double)W.d, (double)Gamma);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   Real P = Gamma_1*(gp->E 
 #ifdef MHD
@@ -1227,6 +1254,7 @@ Real expr_S(const GridS *pG, const int i, const int j, const int k)
 #endif /* MHD */
 		   - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d);
   return P/pow((double)gp->d, (double)Gamma);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
-- 
2.43.0


From 7082930befcf462bac1093c23f6ad26973729c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:55 +0000
Subject: [PATCH 44/74] fix: VTK header of slices along x1 or x2 gave the
 dimensions of an (x1,x2) plane

---
 src/output_vtk.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output_vtk.c b/src/output_vtk.c
index eee6d5c..05a6488 100644
--- a/src/output_vtk.c
+++ b/src/output_vtk.c
@@ -145,7 +145,14 @@ static void output_vtk_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   dx3 = (pOut->reduce_x3 == 1 ? pGrid->dx3 * pGrid->Nx[2] : pGrid->dx3);
 
   fprintf(pfile,"DATASET STRUCTURED_POINTS\n");
-  fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+  if (pGrid->Nx[2] > 1 && pOut->reduce_x3 == 0) {
+    if (pOut->reduce_x2 == 0)  /* data is (x2,x3) plane */
+      fprintf(pfile,"DIMENSIONS %d %d %d\n",1,nx1+1,nx2+1);
+    else                       /* data is (x1,x3) plane */
+      fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,1,nx2+1);
+  } else {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+  }
   fprintf(pfile,"ORIGIN %e %e %e \n",x1,x2,x3);
   fprintf(pfile,"SPACING %e %e %e \n",dx1,dx2,dx3);
 
-- 
2.43.0


From 9db8daa2be336bc0b494fb9718769b7f938cd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:38 +0000
Subject: [PATCH 45/74] fix: zone-index columns of tabular dumps ran together
 when the index has more digits than the number of zones

---
 src/dump_tab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index b609f95..f8486d4 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -113,7 +113,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
@@ -365,7 +365,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
-- 
2.43.0


From e203040b6c9895fbc4f51fa44612ab68af7e55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:47 +0000
Subject: [PATCH 46/74] fix: a run restarted with an earlier time limit stepped
 beyond it

---
 src/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.c b/src/main.c
index 2fe8918..3fed4cc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -434,6 +434,18 @@ int main(int argc, char *argv[])
   else new_dt_diff(&Mesh);
 #endif
 
+/* For restarts, tlim may have been changed: do not step beyond it */
+
+  if (ires && (Mesh.time < tlim) && ((tlim - Mesh.time) < Mesh.dt)) {
+    Mesh.dt = tlim - Mesh.time;
+    for (nl=0; nl<(Mesh.NLevels); nl++){ 
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){  
+        if (Mesh.Domain[nl][nd].Grid != NULL)
+          Mesh.Domain[nl][nd].Grid->dt = Mesh.dt;
+      }
+    }
+  }
+
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
  * Initialize gravitational potential for new runs
-- 
2.43.0


From 06bce3b205e386022f869c535ed47c001e4c6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:23 +0000
Subject: [PATCH 47/74] fix: multigrid gravity started its coarse-grid
 corrections from the solution itself

---
 src/gravity/selfg_multigrid.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gravity/selfg_multigrid.c b/src/gravity/selfg_multigrid.c
index eedbba3..2727344 100644
--- a/src/gravity/selfg_multigrid.c
+++ b/src/gravity/selfg_multigrid.c
@@ -472,11 +472,7 @@ void Restriction_3d(MGrid *pMG_fine, MGrid *pMG_coarse)
   for(k=ks; k<=pMG_coarse->ke; k++){
     for (j=js; j<=pMG_coarse->je; j++){
       for (i=is; i<=pMG_coarse->ie; i++){
-        pMG_coarse->Phi[k][j][i] =
-          (pMG_fine->Phi[2*k  ][2*j  ][2*i] + pMG_fine->Phi[2*k  ][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k  ][2*j-1][2*i] + pMG_fine->Phi[2*k  ][2*j-1][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j  ][2*i] + pMG_fine->Phi[2*k-1][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j-1][2*i] + pMG_fine->Phi[2*k-1][2*j-1][2*i-1])/8.0 ;
+        pMG_coarse->Phi[k][j][i] = 0.0;  /* first guess of the correction */
         pMG_coarse->rhs[k][j][i] =
            (error[2*k  ][2*j  ][2*i] + error[2*k  ][2*j  ][2*i-1]
           + error[2*k  ][2*j-1][2*i] + error[2*k  ][2*j-1][2*i-1]
-- 
2.43.0


From 71b753ce3494ef9580fd03cd13e81ae659ef38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:16 +0000
Subject: [PATCH 48/74] fix: particle feedback did not compile with the 3D CTU
 integrator and an adiabatic gas

---
 src/integrators/integrate_3d_ctu.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index b38e657..b1d7357 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3192,7 +3192,6 @@ void integrate_3d_ctu(DomainS *pD)
 #ifndef BAROTROPIC
       pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss;
       pG->Coup[k][j][i].Eloss *= dt1; /* for history output purpose */
-      pG->Eloss[k][j][i] *= dt1; /* for history output purpose */
 #endif
     }
 #endif
-- 
2.43.0


From 78ddb3d81e2e0b3358a42659b253d3fa24216875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:21 +0000
Subject: [PATCH 49/74] fix: particles near an outflow inner x3 boundary were
 removed while still inside the domain

---
 src/particles/init_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..8b3cd32 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,7 +282,7 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
-- 
2.43.0


From eba374c979277ffc1f7cfc0830b4f28c3e35d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:15 +0000
Subject: [PATCH 50/74] fix: particle feedback changed the gas momentum without
 the corresponding work in the total energy

---
 src/integrators/integrate_1d_ctu.c | 5 ++++-
 src/integrators/integrate_2d_ctu.c | 5 ++++-
 src/integrators/integrate_3d_ctu.c | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index 793af5a..45b67bc 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -539,7 +539,10 @@ void integrate_1d_ctu(DomainS *pD)
     pG->U[ks][js][i].M2 -= pG->Coup[ks][js][i].fb2;
     pG->U[ks][js][i].M3 -= pG->Coup[ks][js][i].fb3;
 #ifndef BAROTROPIC
-    pG->U[ks][js][i].E += pG->Coup[ks][js][i].Eloss;
+    pG->U[ks][js][i].E += pG->Coup[ks][js][i].Eloss
+      - pG->Coup[ks][js][i].fb1*pG->Coup[ks][js][i].grid_v1
+      - pG->Coup[ks][js][i].fb2*pG->Coup[ks][js][i].grid_v2
+      - pG->Coup[ks][js][i].fb3*pG->Coup[ks][js][i].grid_v3;
     pG->Coup[ks][js][i].Eloss *= dt1;
 #endif
   }
diff --git a/src/integrators/integrate_2d_ctu.c b/src/integrators/integrate_2d_ctu.c
index 22ae7fb..0a7744c 100644
--- a/src/integrators/integrate_2d_ctu.c
+++ b/src/integrators/integrate_2d_ctu.c
@@ -1886,7 +1886,10 @@ void integrate_2d_ctu(DomainS *pD)
       pG->U[ks][j][i].M2 -= pG->Coup[ks][j][i].fb2;
       pG->U[ks][j][i].M3 -= pG->Coup[ks][j][i].fb3;
 #ifndef BAROTROPIC
-      pG->U[ks][j][i].E += pG->Coup[ks][j][i].Eloss;
+      pG->U[ks][j][i].E += pG->Coup[ks][j][i].Eloss
+        - pG->Coup[ks][j][i].fb1*pG->Coup[ks][j][i].grid_v1
+        - pG->Coup[ks][j][i].fb2*pG->Coup[ks][j][i].grid_v2
+        - pG->Coup[ks][j][i].fb3*pG->Coup[ks][j][i].grid_v3;
       pG->Coup[ks][j][i].Eloss *= dt1; /* for history output purpose */
 #endif
     }
diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index b1d7357..4073655 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3190,7 +3190,10 @@ void integrate_3d_ctu(DomainS *pD)
       pG->U[k][j][i].M2 -= pG->Coup[k][j][i].fb2;
       pG->U[k][j][i].M3 -= pG->Coup[k][j][i].fb3;
 #ifndef BAROTROPIC
-      pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss;
+      pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss
+        - pG->Coup[k][j][i].fb1*pG->Coup[k][j][i].grid_v1
+        - pG->Coup[k][j][i].fb2*pG->Coup[k][j][i].grid_v2
+        - pG->Coup[k][j][i].fb3*pG->Coup[k][j][i].grid_v3;
       pG->Coup[k][j][i].Eloss *= dt1; /* for history output purpose */
 #endif
     }
-- 
2.43.0


From cc185d4f3ff58aaa0fa92ac010f2f06991d4758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:22 +0000
Subject: [PATCH 51/74] fix: shearing box on azimuthally uneven Grids exchanged
 mismatched boundary data; refuse such decompositions

---
 src/bvals_shear.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index 0e887d2..f04de96 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5435,6 +5435,21 @@ void bvals_shear_init(MeshS *pM)
     ath_error("[bvals_shear_init]:  OrbitalProfile() *must* be defined.\n");
 #endif
 
+/* The sheared boundaries exchange data between Grids that may lie several Grids
+ * apart in x2, assuming all of them have the same number of cells in x2 */
+
+#if defined(SHEARING_BOX) && defined(MPI_PARALLEL)
+  if (ShBoxCoord == xy) {
+    for (nl=0; nl<(pM->NLevels); nl++){
+      for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+        if (pM->Domain[nl][nd].Nx[1] % pM->Domain[nl][nd].NGrid[1] != 0)
+          ath_error("[bvals_shear_init]: Nx2 = %d is not divisible by NGrid_x2 = %d\n",
+                    pM->Domain[nl][nd].Nx[1],pM->Domain[nl][nd].NGrid[1]);
+      }
+    }
+  }
+#endif
+
 /* Loop over all Grids on this processor to find maximum size of arrays */
 
   for (nl=0; nl<(pM->NLevels); nl++){
-- 
2.43.0


From 4852deff79e6508a224416827d70aa05ffd35db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:43 +0000
Subject: [PATCH 52/74] fix: particle at rest relative to the gas got an
 undefined stopping time in the Stokes regime

---
 src/particles/utils_particle.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/particles/utils_particle.c b/src/particles/utils_particle.c
index 17e7464..5125bfc 100644
--- a/src/particles/utils_particle.c
+++ b/src/particles/utils_particle.c
@@ -401,11 +401,14 @@ Real get_ts_general(GridS *pG, int type, Real rho, Real cs, Real vd)
   else {
     Re = 4.0*alam*vd/cs;	/* the Reynolds number */
 
-    if (Re < 1.) CD = 24.0/Re;	/* Stokes regime */
-    else if (Re < 800.0) CD = 24.0*exp(-0.6*log(Re));
-    else CD = 0.44;
+    if (Re < 1.)	/* Stokes regime: CD=24/Re, independent of vd */
+      tstop = rhoa*alam/(6.0*rho*cs);
+    else {
+      if (Re < 800.0) CD = 24.0*exp(-0.6*log(Re));
+      else CD = 0.44;
 
-    tstop = rhoa/(rho*vd*CD);
+      tstop = rhoa/(rho*vd*CD);
+    }
   } /* endif */
 
   /* avoid zero stopping time */
-- 
2.43.0


From 140c90d385420118c06d77e35ca4513e986a43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 53/74] fix: particles reflected at the inner x3 boundary were
 misplaced (and lost) unless it lies at x3=0

---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From 86ca18609f12da282c9ffd229ac6da1c839fa654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:53 +0000
Subject: [PATCH 54/74] fix: particles crossing a periodic boundary by less
 than the round-off of their position were lost

---
 src/particles/bvals_particle.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 6a36514..a3b8a55 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -2057,14 +2057,29 @@ static void packing_one_particle(GrainS *gr, long n, short pos)
 static void shift_packed_particle(double *buf, long n, int index, double shift)
 {
   double *pd = buf;
+  double x,xmin = 0.0,xmax = 0.0,eps;
   long i;
 
-  if (n>0) pd += index-1;
-  for (i=0; i<n-1; i++) {
+  if (index == 1) {xmin = x1min;  xmax = x1max;}
+  if (index == 2) {xmin = x2min;  xmax = x2max;}
+  if (index == 3) {xmin = x3min;  xmax = x3max;}
+  eps = 1.0e-14*(fabs(xmin)+fabs(xmax));
+
+  pd += index-1;
+  for (i=0; i<n; i++) {
+    x = *pd;
     *pd += shift;
+
+    /* a particle that left the domain through one side has to arrive inside it
+     * from the other, even if the shift is rounded onto the boundary */
+    if (index <= 3) {
+      if ((shift > 0.0) && (x < xmin) && (*pd > xmax-eps))
+        *pd = xmax - eps;
+      if ((shift < 0.0) && (x >= xmax) && (*pd < xmin))
+        *pd = xmin;
+    }
     pd += NVAR_P;
   }
-  *pd += shift;
 
   return;
 }
-- 
2.43.0


From 58648252ce321a6b8ff31cd250edcf048c0610a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 55/74] fix: join_vtk gave ignored directions of 1D and 2D data
 an extra grid point

---
 vis/vtk/join_vtk.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vis/vtk/join_vtk.c b/vis/vtk/join_vtk.c
index 2397fc6..8507bea 100644
--- a/vis/vtk/join_vtk.c
+++ b/vis/vtk/join_vtk.c
@@ -541,14 +541,14 @@ static void write_joined_vtk(const char *out_name){
   dz = domain_3d[0][0][0].dz;
 
   /* Count the number of grid cell corners */
-  if(nxt >= 1 && dx > 0.0) nxp = nxt+1;
-  else nxp = nxt; /* dx = 0.0 */
+  if(nxt > 1 && dx > 0.0) nxp = nxt+1;
+  else nxp = nxt; /* dx = 0.0, or ignored direction */
 
-  if(nyt >= 1 && dy > 0.0) nyp = nyt+1;
-  else nyp = nyt; /* dy = 0.0 */
+  if(nyt > 1 && dy > 0.0) nyp = nyt+1;
+  else nyp = nyt; /* dy = 0.0, or ignored direction */
 
-  if(nzt >= 1 && dz > 0.0) nzp = nzt+1;
-  else nzp = nzt; /* dz = 0.0 */
+  if(nzt > 1 && dz > 0.0) nzp = nzt+1;
+  else nzp = nzt; /* dz = 0.0, or ignored direction */
 
   /* Open the output file */
   if((fp_out = fopen(out_name,"w")) == NULL)
-- 
2.43.0


From 5c5767309acefc6832f84b6196fdb8190bf7c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 56/74] fix: join_bin never noticed pieces with different
 headers

---
 vis/matlab/join_bin/join_bin.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vis/matlab/join_bin/join_bin.c b/vis/matlab/join_bin/join_bin.c
index 03cec48..e11ef64 100755
--- a/vis/matlab/join_bin/join_bin.c
+++ b/vis/matlab/join_bin/join_bin.c
@@ -272,15 +272,15 @@ static void chek_domain_3d(void){
     for(j=0; j<NGrid_y; j++){
       for(i=0; i<NGrid_x; i++){
 //         warn_flag = warn_flag && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
-        warn_flag = warn_flag && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
-        warn_flag = warn_flag && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].gamma_1      == domain_3d[0][0][0].gamma_1     );
-        warn_flag = warn_flag && (domain_3d[k][j][i].iso_csound   == domain_3d[0][0][0].iso_csound  );
-        warn_flag = warn_flag && (domain_3d[k][j][i].time         == domain_3d[0][0][0].time        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].dt           == domain_3d[0][0][0].dt          );
+        warn_flag = warn_flag || (domain_3d[k][j][i].coord_sys    != domain_3d[0][0][0].coord_sys   );
+        warn_flag = warn_flag || (domain_3d[k][j][i].Nvar         != domain_3d[0][0][0].Nvar        );
+        warn_flag = warn_flag || (domain_3d[k][j][i].Nscalars     != domain_3d[0][0][0].Nscalars    );
+        warn_flag = warn_flag || (domain_3d[k][j][i].self_gravity != domain_3d[0][0][0].self_gravity);
+        warn_flag = warn_flag || (domain_3d[k][j][i].particles    != domain_3d[0][0][0].particles   );
+        warn_flag = warn_flag || (domain_3d[k][j][i].gamma_1      != domain_3d[0][0][0].gamma_1     );
+        warn_flag = warn_flag || (domain_3d[k][j][i].iso_csound   != domain_3d[0][0][0].iso_csound  );
+        warn_flag = warn_flag || (domain_3d[k][j][i].time         != domain_3d[0][0][0].time        );
+        warn_flag = warn_flag || (domain_3d[k][j][i].dt           != domain_3d[0][0][0].dt          );
       }
     }
   }
-- 
2.43.0


From 0745d64c1e50c9bd158353ba506e9aecfc9b394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 57/74] fix: join_bin dropped the gravitational potential and
 particle arrays announced in the header

---
 vis/matlab/join_bin/join_bin.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vis/matlab/join_bin/join_bin.c b/vis/matlab/join_bin/join_bin.c
index e11ef64..8e21f24 100755
--- a/vis/matlab/join_bin/join_bin.c
+++ b/vis/matlab/join_bin/join_bin.c
@@ -410,7 +410,7 @@ static void write_joined_bin(const char *out_name){
   int nxt, nyt, nzt;  /* Total number of grid cells in each dir. */
   int idat[7];        /* Integer data for header */
   Real fdat[4];      /* Real data for the header */
-  int i,j,k,n,ig,jg,kg,nread;
+  int i,j,k,n,ntot,ig,jg,kg,nread;
   BIN_Domain *pD = &domain_3d[0][0][0];  /* to make the code cleaner */
 
   /* Count the total number of grid cells in each direction */
@@ -461,8 +461,12 @@ static void write_joined_bin(const char *out_name){
     fwrite(domain_3d[kg][0][0].zcoords,sizeof(Real),domain_3d[kg][0][0].Nz,fp_out);
   }
 
-  /* Read/write 3D scalar data */
-  for (n=0; n<pD->Nvar; n++) {
+  /* Read/write 3D scalar data: the variables, then the gravitational potential
+   * and the binned density and momentum of the particles, if present */
+  ntot = pD->Nvar;
+  if (pD->self_gravity) ntot += 1;
+  if (pD->particles) ntot += 4;
+  for (n=0; n<ntot; n++) {
     printf("Reading variable %d\n", n);
     for(kg=0; kg<NGrid_z; kg++){
       for(k=0; k<domain_3d[kg][0][0].Nz; k++){
-- 
2.43.0


From 11886673ed0c6b441a9283f304ad36c4ec99c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 58/74] fix: sort_lis wrote beyond its allocation for an empty
 particle list

---
 vis/particle/sort_lis.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vis/particle/sort_lis.c b/vis/particle/sort_lis.c
index 031faa5..c8e78a6 100644
--- a/vis/particle/sort_lis.c
+++ b/vis/particle/sort_lis.c
@@ -251,6 +251,8 @@ static void** calloc_2d_array(size_t nr, size_t nc, size_t size)
   void **array;
   size_t i;
 
+  if(nr == 0) nr = 1; /* an empty list still needs the pointer to the data */
+
   if((array = (void **)calloc(nr,sizeof(void*))) == NULL){
     sort_error("[calloc_2d] failed to allocate memory for %d pointers\n",(int)nr);
     return NULL;
-- 
2.43.0


From 82f71a5c933b448aeb84e8c0db066bec68befaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 59/74] fix: join_lis and sort_lis overran their file name
 buffers

---
 vis/particle/join_lis.c | 12 ++++++------
 vis/particle/sort_lis.c |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vis/particle/join_lis.c b/vis/particle/join_lis.c
index 536d989..7f7e421 100644
--- a/vis/particle/join_lis.c
+++ b/vis/particle/join_lis.c
@@ -36,7 +36,7 @@ int main(int argc, char* argv[])
   char *outdir = defoutdir;
   /* fild variables */
   FILE *fidin,*fidout;
-  char in_name[100], out_name[100];
+  char in_name[FILENAME_MAX], out_name[FILENAME_MAX];
   struct stat st;
   /* data variables */
   int i,p,err,cpuid,ntype,property;
@@ -114,9 +114,9 @@ int main(int argc, char* argv[])
     for (p=0; p<nproc; p++)
     {
       if (p == 0)
-        sprintf(in_name,"id%d/%s.%04d.%s.lis",p,inbase,i,postname);
+        snprintf(in_name,sizeof(in_name),"id%d/%s.%04d.%s.lis",p,inbase,i,postname);
       else
-        sprintf(in_name,"id%d/%s-id%d.%04d.%s.lis",p,inbase,p,i,postname);
+        snprintf(in_name,sizeof(in_name),"id%d/%s-id%d.%04d.%s.lis",p,inbase,p,i,postname);
 
       fidin = fopen(in_name,"rb");
       if (fidin == NULL)
@@ -136,7 +136,7 @@ int main(int argc, char* argv[])
     fprintf(stderr,"ntot=%ld\n",ntot);
 
     /* Step 2: Read input and write output */
-    sprintf(out_name,"%s/%s.%04d.%s.lis",outdir,outbase,i,postname);
+    snprintf(out_name,sizeof(out_name),"%s/%s.%04d.%s.lis",outdir,outbase,i,postname);
 
     fidout = fopen(out_name,"wb");
     if (fidout == NULL)
@@ -147,9 +147,9 @@ int main(int argc, char* argv[])
     for (p=0; p<nproc; p++)
     {
       if (p == 0)
-        sprintf(in_name,"id%d/%s.%04d.%s.lis",p,inbase,i,postname);
+        snprintf(in_name,sizeof(in_name),"id%d/%s.%04d.%s.lis",p,inbase,i,postname);
       else
-        sprintf(in_name,"id%d/%s-id%d.%04d.%s.lis",p,inbase,p,i,postname);
+        snprintf(in_name,sizeof(in_name),"id%d/%s-id%d.%04d.%s.lis",p,inbase,p,i,postname);
 
       fidin = fopen(in_name,"rb");
 
diff --git a/vis/particle/sort_lis.c b/vis/particle/sort_lis.c
index c8e78a6..1e2f14f 100644
--- a/vis/particle/sort_lis.c
+++ b/vis/particle/sort_lis.c
@@ -37,7 +37,7 @@ int main(int argc, char* argv[])
   char *indir = defdir;
   /* fild variables */
   FILE *fid;
-  char fname[100];
+  char fname[FILENAME_MAX];
   /* data variables */
   int i,*cpuid,*property,ntype;
   long p,n,*pid,*order;
@@ -88,7 +88,7 @@ int main(int argc, char* argv[])
     fprintf(stderr,"Processing file number %d...\n",i);
 
     /* Step 1: Read the file */
-    sprintf(fname,"%s/%s.%04d.%s.lis",indir,inbase,i,postname);
+    snprintf(fname,sizeof(fname),"%s/%s.%04d.%s.lis",indir,inbase,i,postname);
 
     fid = fopen(fname,"rb");
     if (fid == NULL)
-- 
2.43.0


From d74727bf40bd24a2d26f88f08c153c1f3a26015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:04 +0000
Subject: [PATCH 60/74] fix: local particle density in particle lists ignored
 particles of neighbouring Grids

---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..218c3af 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -189,7 +189,7 @@ void exchange_gpcouple(DomainS *pD, short lab)
   switch (lab) {
     case 0: /* particle binning for output purpose */
 		  
-      NVar = 4; NExc = 1; NOfst = 0;
+      NVar = 4; NExc = 1; NOfst = 1;
 
       for (k=klp; k<=kup; k++) {
        for (j=jlp; j<=jup; j++) {
-- 
2.43.0


From e83ae777dfac9bc7fae9cb33c5516adf11b007f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:04 +0000
Subject: [PATCH 61/74] fix: binary dumps without binned particles announced
 particle arrays

---
 src/dump_binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index 6b8cfe8..6ce2450 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -129,7 +129,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         ndata[5] = 0;
 #endif
 #ifdef PARTICLES
-        ndata[6] = 1;
+        ndata[6] = pOut->out_pargrid; /* arrays written only if binned */
 #else
         ndata[6] = 0;
 #endif
-- 
2.43.0


From 0b98e4678c4321005ca3f1a2e4032be5dbeefd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:31 +0000
Subject: [PATCH 62/74] fix: first flux correction with mesh refinement used an
 uninitialised time step

---
 src/init_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/init_grid.c b/src/init_grid.c
index 5b3fa3b..bd8fe2b 100644
--- a/src/init_grid.c
+++ b/src/init_grid.c
@@ -71,6 +71,7 @@ void init_grid(MeshS *pM)
       pG = pM->Domain[nl][nd].Grid;          /* set ptr to Grid */
 
       pG->time = pM->time;
+      pG->dt = 0.0;
 
 /* get (l,m,n) coordinates of Grid being updated on this processor */
 
-- 
2.43.0


From e12ffd7e9b2d503ec2f555b60755312461f31c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 63/74] fix: truncated or foreign restart files hung the
 program or were silently read as garbage

---
 src/restart.c | 189 +++++++++++++++++++++++++++++---------------------
 1 file changed, 110 insertions(+), 79 deletions(-)

diff --git a/src/restart.c b/src/restart.c
index 7bf7b4a..6582a43 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -41,6 +41,26 @@
 #include "prototypes.h"
 #include "particles/particle.h"
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static void read_line(char *line, FILE *fp)
+ *  \brief Reads one line of the restart file; a file that ends here is invalid */
+
+static void read_line(char *line, FILE *fp)
+{
+  if (fgets(line,MAXLEN,fp) == NULL)
+    ath_error("[restart_grids]: Unexpected end of the restart file\n");
+}
+
+/*----------------------------------------------------------------------------*/
+/*! \fn static void read_data(void *data, size_t size, FILE *fp)
+ *  \brief Reads one value; a file that ends here is invalid */
+
+static void read_data(void *data, size_t size, FILE *fp)
+{
+  if (fread(data,size,1,fp) != 1)
+    ath_error("[restart_grids]: Unexpected end of the restart file\n");
+}
+
 /*----------------------------------------------------------------------------*/
 /*! \fn void restart_grids(char *res_file, MeshS *pM)
  *  \brief Reads nstep, time, dt, and arrays of ConsS and interface B
@@ -68,6 +88,7 @@ void restart_grids(char *res_file, MeshS *pM)
 #endif
 #ifdef PARTICLES
   long p;
+  int ntypes;
 #endif
 
 /* Open the restart file */
@@ -78,35 +99,35 @@ void restart_grids(char *res_file, MeshS *pM)
 /* Skip over the parameter file at the start of the restart file */
 
   do{
-    fgets(line,MAXLEN,fp);
+    read_line(line,fp);
   }while(strncmp(line,"<par_end>",9) != 0);
 
 /* read nstep */
 
-  fgets(line,MAXLEN,fp);
+  read_line(line,fp);
   if(strncmp(line,"N_STEP",6) != 0)
     ath_error("[restart_grids]: Expected N_STEP, found %s",line);
-  fread(&(pM->nstep),sizeof(int),1,fp);
+  read_data(&(pM->nstep),sizeof(int),fp);
 
 /* read time */
 
-  fgets(line,MAXLEN,fp);   /* Read the '\n' preceeding the next string */
-  fgets(line,MAXLEN,fp);
+  read_line(line,fp);   /* Read the '\n' preceeding the next string */
+  read_line(line,fp);
   if(strncmp(line,"TIME",4) != 0)
     ath_error("[restart_grids]: Expected TIME, found %s",line);
-  fread(&(pM->time),sizeof(Real),1,fp);
+  read_data(&(pM->time),sizeof(Real),fp);
 
 /* read dt */
 
-  fgets(line,MAXLEN,fp);    /* Read the '\n' preceeding the next string */
-  fgets(line,MAXLEN,fp);
+  read_line(line,fp);    /* Read the '\n' preceeding the next string */
+  read_line(line,fp);
   if(strncmp(line,"TIME_STEP",9) != 0)
     ath_error("[restart_grids]: Expected TIME_STEP, found %s",line);
-  fread(&(pM->dt),sizeof(Real),1,fp);
+  read_data(&(pM->dt),sizeof(Real),fp);
 #ifdef STS
-  fread(&(pM->diff_dt),sizeof(Real),1,fp);
-  fread(&(N_STS),sizeof(int),1,fp);
-  fread(&(nu_STS),sizeof(Real),1,fp);
+  read_data(&(pM->diff_dt),sizeof(Real),fp);
+  read_data(&(N_STS),sizeof(int),fp);
+  read_data(&(nu_STS),sizeof(Real),fp);
 #endif
 
 /* Now loop over all Domains containing a Grid on this processor */
@@ -129,56 +150,56 @@ void restart_grids(char *res_file, MeshS *pM)
 
 /* Read the density */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"DENSITY",7) != 0)
         ath_error("[restart_grids]: Expected DENSITY, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->U[k][j][i].d),sizeof(Real),1,fp);
+            read_data(&(pG->U[k][j][i].d),sizeof(Real),fp);
           }
         }
       }
 
 /* Read the x1-momentum */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"1-MOMENTUM",10) != 0)
         ath_error("[restart_grids]: Expected 1-MOMENTUM, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->U[k][j][i].M1),sizeof(Real),1,fp);
+            read_data(&(pG->U[k][j][i].M1),sizeof(Real),fp);
           }
         }
       }
 
 /* Read the x2-momentum */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"2-MOMENTUM",10) != 0)
         ath_error("[restart_grids]: Expected 2-MOMENTUM, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->U[k][j][i].M2),sizeof(Real),1,fp);
+            read_data(&(pG->U[k][j][i].M2),sizeof(Real),fp);
           }
         }
       }
 
 /* Read the x3-momentum */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"3-MOMENTUM",10) != 0)
         ath_error("[restart_grids]: Expected 3-MOMENTUM, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->U[k][j][i].M3),sizeof(Real),1,fp);
+            read_data(&(pG->U[k][j][i].M3),sizeof(Real),fp);
           }
         }
       }
@@ -186,14 +207,14 @@ void restart_grids(char *res_file, MeshS *pM)
 #ifndef BAROTROPIC
 /* Read energy density */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"ENERGY",6) != 0)
         ath_error("[restart_grids]: Expected ENERGY, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->U[k][j][i].E),sizeof(Real),1,fp);
+            read_data(&(pG->U[k][j][i].E),sizeof(Real),fp);
           }
         }
       }
@@ -210,42 +231,42 @@ void restart_grids(char *res_file, MeshS *pM)
 
 /* Read the face-centered x1 B-field */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"1-FIELD",7) != 0)
         ath_error("[restart_grids]: Expected 1-FIELD, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie+ib; i++) {
-            fread(&(pG->B1i[k][j][i]),sizeof(Real),1,fp);
+            read_data(&(pG->B1i[k][j][i]),sizeof(Real),fp);
           }
         }
       }
 
 /* Read the face-centered x2 B-field */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"2-FIELD",7) != 0)
         ath_error("[restart_grids]: Expected 2-FIELD, found %s",line);
       for (k=ks; k<=ke; k++) {
         for (j=js; j<=je+jb; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->B2i[k][j][i]),sizeof(Real),1,fp);
+            read_data(&(pG->B2i[k][j][i]),sizeof(Real),fp);
           }
         }
       }
 
 /* Read the face-centered x3 B-field */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"3-FIELD",7) != 0)
         ath_error("[restart_grids]: Expected 3-FIELD, found %s",line);
       for (k=ks; k<=ke+kb; k++) {
         for (j=js; j<=je; j++) {
           for (i=is; i<=ie; i++) {
-            fread(&(pG->B3i[k][j][i]),sizeof(Real),1,fp);
+            read_data(&(pG->B3i[k][j][i]),sizeof(Real),fp);
           }
         }
       }
@@ -314,15 +335,15 @@ void restart_grids(char *res_file, MeshS *pM)
 /* Following code only works if NSCALARS < 10 */
 
       for (n=0; n<NSCALARS; n++) {
-        fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-        fgets(line,MAXLEN,fp);
+        read_line(line,fp); /* Read the '\n' preceeding the next string */
+        read_line(line,fp);
         sprintf(scalarstr, "SCALAR %d", n);
         if(strncmp(line,scalarstr,8) != 0)
           ath_error("[restart_grids]: Expected %s, found %s",scalarstr,line);
         for (k=ks; k<=ke; k++) {
           for (j=js; j<=je; j++) {
             for (i=is; i<=ie; i++) {
-              fread(&(pG->U[k][j][i].s[n]),sizeof(Real),1,fp);
+              read_data(&(pG->U[k][j][i].s[n]),sizeof(Real),fp);
             }
           }
         }
@@ -332,120 +353,130 @@ void restart_grids(char *res_file, MeshS *pM)
 #ifdef PARTICLES
 /* Read particle properties and the complete particle list */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE LIST",13) != 0)
         ath_error("[restart_grids]: Expected PARTICLE LIST, found %s",line);
-      fread(&(pG->nparticle),sizeof(long),1,fp);
+      read_data(&(pG->nparticle),sizeof(long),fp);
+      if (pG->nparticle < 0)
+        ath_error("[restart_grids]: %ld particles in restart file\n",
+          pG->nparticle);
 
       if (pG->nparticle > pG->arrsize-2)
         particle_realloc(pG, pG->nparticle+2);
 
-      fread(&(npartypes),sizeof(int),1,fp);
+      ntypes = npartypes;
+      read_data(&(npartypes),sizeof(int),fp);
+      if (npartypes < 0 || npartypes > ntypes)
+        ath_error("[restart_grids]: %d particle types in restart file, more than %d\n",
+          npartypes,ntypes);
       for (i=0; i<npartypes; i++) {          /* particle property list */
 #ifdef FEEDBACK
-        fread(&(grproperty[i].m),sizeof(Real),1,fp);
+        read_data(&(grproperty[i].m),sizeof(Real),fp);
 #endif
-        fread(&(grproperty[i].rad),sizeof(Real),1,fp);
-        fread(&(grproperty[i].rho),sizeof(Real),1,fp);
-        fread(&(tstop0[i]),sizeof(Real),1,fp);
-        fread(&(grrhoa[i]),sizeof(Real),1,fp);
+        read_data(&(grproperty[i].rad),sizeof(Real),fp);
+        read_data(&(grproperty[i].rho),sizeof(Real),fp);
+        read_data(&(tstop0[i]),sizeof(Real),fp);
+        read_data(&(grrhoa[i]),sizeof(Real),fp);
       }
-      fread(&(alamcoeff),sizeof(Real),1,fp);  /* coef to calc Reynolds number */
+      read_data(&(alamcoeff),sizeof(Real),fp);  /* coef to calc Reynolds number */
 
       for (i=0; i<npartypes; i++)
-        fread(&(grproperty[i].integrator),sizeof(short),1,fp);
+        read_data(&(grproperty[i].integrator),sizeof(short),fp);
 
 /* Read the x1-positions */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE X1",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE X1, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].x1),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].x1),sizeof(Real),fp);
       }
 
 /* Read the x2-positions */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE X2",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE X2, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].x2),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].x2),sizeof(Real),fp);
       }
 
 /* Read the x3-positions */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE X3",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE X3, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].x3),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].x3),sizeof(Real),fp);
       }
 
 /* Read the v1 velocity */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE V1",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE V1, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].v1),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].v1),sizeof(Real),fp);
       }
 
 /* Read the v2 velocity */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE V2",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE V2, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].v2),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].v2),sizeof(Real),fp);
       }
 
 /* Read the v3 velocity */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE V3",11) != 0)
         ath_error("[restart_grids]: Expected PARTICLE V3, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].v3),sizeof(Real),1,fp);
+        read_data(&(pG->particle[p].v3),sizeof(Real),fp);
       }
 
 /* Read particle properties */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE PROPERTY",17) != 0)
         ath_error("[restart_grids]: Expected PARTICLE PROPERTY, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].property),sizeof(int),1,fp);
+        read_data(&(pG->particle[p].property),sizeof(int),fp);
+        if (pG->particle[p].property < 0 || pG->particle[p].property >= npartypes)
+          ath_error("[restart_grids]: Unknown particle type %d\n",
+            pG->particle[p].property);
         pG->particle[p].pos = 1;	/* grid particle */
       }
 
 /* Read particle my_id */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE MY_ID",14) != 0)
         ath_error("[restart_grids]: Expected PARTICLE MY_ID, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].my_id),sizeof(long),1,fp);
+        read_data(&(pG->particle[p].my_id),sizeof(long),fp);
       }
 
 #ifdef MPI_PARALLEL
 /* Read particle init_id */
 
-      fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-      fgets(line,MAXLEN,fp);
+      read_line(line,fp); /* Read the '\n' preceeding the next string */
+      read_line(line,fp);
       if(strncmp(line,"PARTICLE INIT_ID",16) != 0)
         ath_error("[restart_grids]: Expected PARTICLE INIT_ID, found %s",line);
       for (p=0; p<pG->nparticle; p++) {
-        fread(&(pG->particle[p].init_id),sizeof(int),1,fp);
+        read_data(&(pG->particle[p].init_id),sizeof(int),fp);
       }
 #endif
 
@@ -463,8 +494,8 @@ void restart_grids(char *res_file, MeshS *pM)
 
 /* Call a user function to read his/her problem-specific data! */
 
-  fgets(line,MAXLEN,fp); /* Read the '\n' preceeding the next string */
-  fgets(line,MAXLEN,fp);
+  read_line(line,fp); /* Read the '\n' preceeding the next string */
+  read_line(line,fp);
   if(strncmp(line,"USER_DATA",9) != 0)
     ath_error("[restart_grids]: Expected USER_DATA, found %s",line);
   problem_read_restart(pM, fp);
-- 
2.43.0


From 3d97dc5f63b711d6cd1140e2b7461dc370bf094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:09 +0000
Subject: [PATCH 64/74] fix: command line options without their value crashed

---
 src/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3fed4cc..55298da 100644
--- a/src/main.c
+++ b/src/main.c
@@ -144,6 +144,12 @@ int main(int argc, char *argv[])
   for (i=1; i<argc; i++) {
 /* If argv[i] is a 2 character string of the form "-?" then: */
     if(*argv[i] == '-'  && *(argv[i]+1) != '\0' && *(argv[i]+2) == '\0'){
+#ifdef MPI_PARALLEL
+      if(i == argc-1 && strchr("irdt",*(argv[i]+1)) != NULL)
+#else
+      if(i == argc-1 && strchr("ird",*(argv[i]+1)) != NULL)
+#endif
+	ath_error("[main]: Option %s needs a value\n",argv[i]);
       switch(*(argv[i]+1)) {
       case 'i':                      /* -i <file>   */
 	athinput = argv[++i];
-- 
2.43.0


From 68322dcf4b835541996fcf08e66d8eb994d110fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 65/74] fix: error message for an inverted slice range printed
 floating-point limits as integers and crashed

---
 src/output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.c b/src/output.c
index 8119382..40f8114 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1434,8 +1434,8 @@ static void parse_slice(char *block, char *axname, Real *l, Real *u, int *flag)
       *l = *u = atof(expr);
     }
     if (*l > *u) {
-      ath_error("[parse_slice]: lower slice limit %d > upper %d in %s\n",
-      *l,*u,expr);
+      ath_error("[parse_slice]: lower slice limit %g > upper %g in %s/%s\n",
+      *l,*u,block,axname);
     }
     free(expr);
     *flag = 1;
-- 
2.43.0


From 0c074550d6b7dc4bdcbf4b0feb125a93c9a66ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 66/74] fix: user-named output of an expression used an unset
 output format

---
 src/output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output.c b/src/output.c
index 40f8114..a7a33e4 100644
--- a/src/output.c
+++ b/src/output.c
@@ -186,6 +186,7 @@ void init_output(MeshS *pM)
 
 /* Zero (NULL) all members of the temporary OutputS structure "new_out" */
     memset(&new_out,0,sizeof(OutputS));
+    fmt = "";
 
 /* The next output time and number */
     new_out.t   = par_getd_def(block,"time",pM->time);
-- 
2.43.0


From de795d9fa276102a0cfe23467256c029732023df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:39 +0000
Subject: [PATCH 67/74] fix: long output id overran the file name buffer of pdf
 outputs

---
 src/output_pdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index e5e64e4..6f2c279 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -42,7 +42,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
   GridS *pG;
   FILE *pfile;
   char fmt[80];
-  char fid[80]; /* File "id" for the statistics table */
+  char fid[MAXLEN]; /* File "id" for the statistics table */
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL;
   char levstr[8],domstr[8],dirstr[20];
   int nl,nd,i,j,k,is,ie,js,je,ks,ke;
@@ -302,7 +302,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         fclose(pfile);
 
 /* Also write a history type file on the statistics */
-        sprintf(fid,"prb_stat.%s",pOut->id);
+        snprintf(fid,MAXLEN,"prb_stat.%s",pOut->id);
 
         fname = ath_fname(pdir,pM->outfilename,plev,pdom,0,0,fid,"tab");
         if(fname == NULL){
-- 
2.43.0


From 61f557525b964ffa0734921075be8873c891bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:25 +0000
Subject: [PATCH 68/74] fix: error messages about unsupported outputs printed
 freed memory

---
 src/output.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/output.c b/src/output.c
index a7a33e4..90cdc2f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -248,7 +248,6 @@ Now use the default one.\n");
 	/* Get a pointer to the output function via its name */
 	new_out.out_fun = get_usr_out_fun(name);
 	if(new_out.out_fun == NULL){
-	  free_output(&new_out);
 	  ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
 		    name,block,fmt);
 	}
@@ -315,7 +314,6 @@ Now use the default one.\n");
         /* Get a pointer to the output function via its name */
         new_out.out_fun = get_usr_out_fun(name);
         if(new_out.out_fun == NULL){
-          free_output(&new_out);
           ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
                     name,block,fmt);
         }
@@ -431,7 +429,6 @@ Now use the default one.\n");
       /* Get a pointer to the output function via its name */
       new_out.out_fun = get_usr_out_fun(name);
       if(new_out.out_fun == NULL){
-	free_output(&new_out);
 	ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
 		  name,block,fmt);
       }
@@ -449,7 +446,6 @@ Now use the default one.\n");
       new_out.out_fun = output_tab;
     else {
 /* unknown output format is fatal */
-      free_output(&new_out);
       ath_error("Unsupported %s/out_fmt=%s\n",block,fmt);
     }
 
-- 
2.43.0


From e0c3e1e8cfca0eab582a9aa8af60898242f2361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:25 +0000
Subject: [PATCH 69/74] fix: a mesh of zero extent was accepted and gave
 infinities

---
 src/init_mesh.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index af6c669..03afafa 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -183,8 +183,9 @@ void init_mesh(MeshS *pM)
         if (Nx[i] < 1) {
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
-        if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
+        if(root_xmax[i] < root_xmin[i] ||
+           (root_xmax[i] == root_xmin[i] && Nx[i] > 1)) {
+          ath_error("[init_mesh]: x%dmax <= x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
-- 
2.43.0


From bd9b3f40a4a7e8eecbfdd8f6a445007778391d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 70/74] fix: image and pdf outputs of data that is not a number
 read and wrote outside their tables

---
 src/output_pdf.c | 2 +-
 src/output_ppm.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 6f2c279..41f3eba 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -208,7 +208,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           for(n=0; n<data_cnt; n++){
             i = (int)(scl*(data[n] - dmin));
             i = i < size_pdf ? i : size_pdf - 1;
-            pdf[i]++;
+            if (i >= 0) pdf[i]++;  /* i < 0 for data that is not a number */
           }
         }
 
diff --git a/src/output_ppm.c b/src/output_ppm.c
index ced7732..873b87a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -149,8 +149,8 @@ static void compute_rgb(double data, double min, double max,
   }
 #if 1
   x = (data-min)*255.0/(max-min);
-  if (x<=0.0 || x>=255.0) {         /* out of bounds */
-    i=  (x <= 0.0 ? 0 : 255);
+  if (!(x>0.0 && x<255.0)) {        /* out of bounds, or not a number */
+    i=  (x >= 255.0 ? 255 : 0);
     *R = (int) (rgb[i*3+0] * 255.0);
     *G = (int) (rgb[i*3+1] * 255.0);
     *B = (int) (rgb[i*3+2] * 255.0);
-- 
2.43.0


From e38bc10a6343fe433668e44cd0c2133a9c377aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:35 +0000
Subject: [PATCH 71/74] fix: one-dimensional cylindrical runs used an unset
 radius in the time step

---
 src/new_dt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 56f4efe..0abe9a5 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -141,13 +141,14 @@ void new_dt(MeshS *pM)
 /* compute maximum cfl velocity (corresponding to minimum dt) */
         if (pGrid->Nx[0] > 1)
           max_v1 = MAX(max_v1,fabs(v1)+sqrt((double)cf1sq));
-        if (pGrid->Nx[1] > 1)
+        if (pGrid->Nx[1] > 1) {
 #ifdef CYLINDRICAL
           cc_pos(pGrid,i,j,k,&x1,&x2,&x3);
           max_v2 = MAX(max_v2,(fabs(v2)+sqrt((double)cf2sq))/x1);
 #else
           max_v2 = MAX(max_v2,fabs(v2)+sqrt((double)cf2sq));
 #endif
+        }
         if (pGrid->Nx[2] > 1)
           max_v3 = MAX(max_v3,fabs(v3)+sqrt((double)cf3sq));
  
-- 
2.43.0


From 0580ebee2de18baa5a270ce798905e09b971b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:07 +0000
Subject: [PATCH 72/74] fix: relativistic HLLD solver tested a value it had not
 computed

---
 src/rsolvers/hlld_sr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index bc14918..b05c176 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -340,7 +340,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
       pguess = p0;
       switch_to_hll = 0;
       f0 = Fstar(&PaL, &PaR, &Sc, p0, Bx);
-      if (f0 != f0 || PaL.fail) switch_to_hll = 1;
+      if (PaL.fail || f0 != f0) switch_to_hll = 1;
       /*}*/
 
     /* ---- Root finder ---- */
-- 
2.43.0


From aa3b42acc9af0fc361292cd6c180f9f8785809c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 73/74] fix: SMR prolongation mistook a fine interface field of
 zero for one not set

---
 src/smr.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 2513fc7..38f0c6d 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1666,9 +1666,9 @@ void Prolongate(MeshS *pM)
               for (n=0; n<3; n++) {
               for (m=0; m<3; m++) {
               for (l=0; l<3; l++) {
-                ProlongedF[n][m][l].x1 = 0.0;
-                ProlongedF[n][m][l].x2 = 0.0;
-                ProlongedF[n][m][l].x3 = 0.0;
+                ProlongedF[n][m][l].x1 = HUGE_NUMBER;
+                ProlongedF[n][m][l].x2 = HUGE_NUMBER;
+                ProlongedF[n][m][l].x3 = HUGE_NUMBER;
               }}}
             }
 
@@ -2360,7 +2360,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
   dBdx=dBdy=dBdz=0.0;
 
-  if (PFld[0][0][0].x1 == 0.0) {
+  if (PFld[0][0][0].x1 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdy = mcd_slope(BGZ[1][0][1].x1, BGZ[1][1][1].x1, BGZ[1][2][1].x1);
     dBdz = mcd_slope(BGZ[0][1][1].x1, BGZ[1][1][1].x1, BGZ[2][1][1].x1);
@@ -2374,7 +2374,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bx on right-x1 boundry, if not set already */
 
-  if (PFld[0][0][2].x1 == 0.0) {
+  if (PFld[0][0][2].x1 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdy = mcd_slope(BGZ[1][0][2].x1, BGZ[1][1][2].x1, BGZ[1][2][2].x1);
     dBdz = mcd_slope(BGZ[0][1][2].x1, BGZ[1][1][2].x1, BGZ[2][1][2].x1);
@@ -2388,7 +2388,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize By on left-x2 boundry, if not set already */
 
-  if (PFld[0][0][0].x2 == 0.0) {
+  if (PFld[0][0][0].x2 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][1][0].x2, BGZ[1][1][1].x2, BGZ[1][1][2].x2);
     dBdz = mcd_slope(BGZ[0][1][1].x2, BGZ[1][1][1].x2, BGZ[2][1][1].x2);
@@ -2402,7 +2402,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize By on right-x2 boundry, if not set already */
 
-  if (PFld[0][2][0].x2 == 0.0) {
+  if (PFld[0][2][0].x2 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][2][0].x2, BGZ[1][2][1].x2, BGZ[1][2][2].x2);
     dBdz = mcd_slope(BGZ[0][2][1].x2, BGZ[1][2][1].x2, BGZ[2][2][1].x2);
@@ -2416,7 +2416,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bz on left-x3 boundry, if not set already */
 
-  if (PFld[0][0][0].x3 == 0.0) {
+  if (PFld[0][0][0].x3 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][1][0].x3, BGZ[1][1][1].x3, BGZ[1][1][2].x3);
     dBdy = mcd_slope(BGZ[1][0][1].x3, BGZ[1][1][1].x3, BGZ[1][2][1].x3);
@@ -2430,7 +2430,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bz on right-x3 boundry, if not set already */
 
-  if (PFld[2][0][0].x3 == 0.0) {
+  if (PFld[2][0][0].x3 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[2][1][0].x3, BGZ[2][1][1].x3, BGZ[2][1][2].x3);
     dBdy = mcd_slope(BGZ[2][0][1].x3, BGZ[2][1][1].x3, BGZ[2][2][1].x3);
-- 
2.43.0


From e3b78e8001bbeb14042706678cf502a86d104d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:27 +0000
Subject: [PATCH 74/74] fix: the x2 energy correction of 2D self-gravity used
 the new potential as the old one

---
 src/gravity/selfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/selfg.c b/src/gravity/selfg.c
index fc12123..ef8eb59 100644
--- a/src/gravity/selfg.c
+++ b/src/gravity/selfg.c
@@ -175,7 +175,7 @@ void selfg_fc(DomainS *pD)
         phil_old = 0.5*(pG->Phi_old[ks][j-1][i] + pG->Phi_old[ks][j  ][i]);
         phir_old = 0.5*(pG->Phi_old[ks][j  ][i] + pG->Phi_old[ks][j+1][i]);
 
-        dphic = phic - pG->Phi[ks][j][i];
+        dphic = phic - pG->Phi_old[ks][j][i];
         dphil = phil - phil_old;
         dphir = phir - phir_old;
 
-- 
2.43.0

