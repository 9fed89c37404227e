SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


B = "src/bvals_mhd.c"
seed("c04-pack-scalar", "C04",
     [(B, """        for (n=0; n<NSCALARS; n++) *(pSnd++) = pG->U[k][j][i].s[n];
#endif
      }
    }
  }

#ifdef MHD
/* B1i is not set at i=is-nghost */
  for (k=ks; k<=ks+(nghost-1); k++) {
    for (j=js-nghost; j<=je+nghost; j++) {
      for (i=is-(nghost-1); i<=ie+nghost; i++) {
        *(pSnd++) = pG->B1i[k][j][i];""",
       """        for (n=0; n<NSCALARS; n++) *(pSnd++) = pG->U[ks][j][i].s[n];
#endif
      }
    }
  }

#ifdef MHD
/* B1i is not set at i=is-nghost */
  for (k=ks; k<=ks+(nghost-1); k++) {
    for (j=js-nghost; j<=je+nghost; j++) {
      for (i=is-(nghost-1); i<=ie+nghost; i++) {
        *(pSnd++) = pG->B1i[k][j][i];""")],
     "a parallel 3D run divided along x3 with a passive scalar that varies along x3",
     "ghost-zone exchange through the inner x3 boundary sends the scalars of the first layer for every layer, so the solution depends on the decomposition",
     """
build s --with-gas=hydro --with-nscalars=1 --with-order=3
build p --with-gas=hydro --with-nscalars=1 --with-order=3 --enable-mpi
inp $T/in 8 8 16
cp $T/in $T/inp; sed -i 's/^Nx3 = 16/Nx3 = 16\\nNGrid_x1 = 1\\nNGrid_x2 = 1\\nNGrid_x3 = 2/' $T/inp
mkdir $T/a $T/b
$T/s/bin/athena -i $T/in -d $T/a >$T/o1 2>&1 || exit 2
mpirun --oversubscribe -np 2 $T/p/bin/athena -i $T/inp -d $T/b >$T/o2 2>&1 || exit 2
cmp_out $T/o1 $T/o2 1e-11
""")


seed("c13-fast3", "C13",
     [("src/new_dt.c", "cf3sq = 0.5*(tsum + sqrt(tdif*tdif + 4.0*asq*(b1*b1+b2*b2)*di));",
       "cf3sq = 0.5*(tsum + sqrt(tdif*tdif + 4.0*asq*(b1*b1+b3*b3)*di));")],
     "3D MHD with the x3 direction limiting the step and a field that is mainly along x2",
     "the fast speed along x3 is underestimated, so the time step exceeds the Courant limit",
     """
build s --with-gas=mhd --with-order=2
inp $T/in 4 4 32 'b1 = 0.0' 'b2 = 3.0' 'b3 = 0.0' 'bamp = 0.0' 'amp = 0.0' 'v0 = 0.0'
sed -i 's/nlim = 4/nlim = 0/' $T/in
$T/s/bin/athena -i $T/in -d $T/a >$T/o1 2>&1 || exit 2
dt=$(awk '$1=="TIME"{print $3}' $T/o1); echo dt $dt
# field perpendicular to x3: fast speed sqrt(a^2+vA^2), dt = 0.3/32/sqrt(5/3+9) = 0.00287
awk -v d=$dt 'BEGIN{ exit !(d>0.0028 && d<0.00288) }'
""")

seed("c06-conduct", "C06",
     [(B, """        pGrid->U[ke+k][j][i].B1c= -pGrid->U[ke+k][j][i].B1c;/* reflect fld */
        pGrid->U[ke+k][j][i].B2c= -pGrid->U[ke+k][j][i].B2c;
""", """        pGrid->U[ke+k][j][i].B1c= -pGrid->U[ke+k][j][i].B1c;/* reflect fld */
""")],
     "3D MHD with a conducting boundary at the outer x3 face and a transverse field there",
     "the cell-centred transverse field in the ghost zones keeps its sign at a conducting wall, so the ghost zones are not the documented mirror image",
     """
build s --with-gas=mhd --with-order=2
# the image problem: a conducting wall at the outer x3 face must act like the one at the inner face on the mirrored state
python3 - $T/s/src/prob/demo.c <<'PY'
import sys
p = sys.argv[1]; t = open(p).read()
t = t.replace("void Userwork_in_loop(MeshS *pM) { }", '''void Userwork_in_loop(MeshS *pM) { }
static void ghosts(MeshS *pM) { GridS *g = pM->Domain[0][0].Grid; int i,j,k; double e = 0;
 for (k=1;k<=nghost;k++) for (j=g->js;j<=g->je;j++) for (i=g->is;i<=g->ie;i++) {
  e += fabs(g->U[g->ke+k][j][i].B1c + g->U[g->ke-k+1][j][i].B1c) + fabs(g->U[g->ke+k][j][i].B2c + g->U[g->ke-k+1][j][i].B2c) + fabs(g->U[g->ke+k][j][i].B3c - g->U[g->ke-k+1][j][i].B3c)
     + fabs(g->U[g->ke+k][j][i].M3 + g->U[g->ke-k+1][j][i].M3); }
 printf("GHOST %g\\\\n", e); }''').replace("  GridS *pG = pM->Domain[0][0].Grid;\\n  int i,j,k,n,nv", "  GridS *pG = pM->Domain[0][0].Grid;\\n  int i,j,k,n,nv", 1)
t = t.replace("  for (n=0; n<64; n++) t[n]=w[n]=0.0;", "  ghosts(pM);\\n  for (n=0; n<64; n++) t[n]=w[n]=0.0;", 1)
open(p, "w").write(t)
PY
(cd $T/s && rm -f src/problem.o src/prob/*.o && mk >$T/l 2>&1) || { cat $T/l; exit 2; }
inp $T/in 4 4 8
sed -i 's/bc_ix3 = 4/bc_ix3 = 5/; s/bc_ox3 = 4/bc_ox3 = 5/; s/nlim = 4/nlim = 0/' $T/in
$T/s/bin/athena -i $T/in -d $T/a >$T/o1 2>&1 || { tail $T/o1; exit 2; }
awk '$1=="GHOST"{v=$2; n++} END{ print v; exit !(n && v<1e-12) }' $T/o1
""")
SEEDS[:] = [s for s in SEEDS if s]
