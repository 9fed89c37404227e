/* Problem generator used by the demonstrations: a smooth, three-dimensional state with every variable non-trivial.
 * After the run it prints, over the active zones of all Grids, the volume sums of every variable ("total") and sums
 * weighted by a smooth function of position ("weighted"), the largest |div B| and the extrema of the pressure. */
#include "copyright.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef MPI_PARALLEL
#include "mpi.h"
#endif
static Real gp = 0.0, bamp = 1.0, lx[3], mn[3];
static Real phi(const Real x1, const Real x2, const Real x3)
{
  return gp*(cos(2*PI*(x1-mn[0])/lx[0]) + 0.7*cos(2*PI*(x2-mn[1])/lx[1]+0.3) + 0.4*cos(2*PI*(x3-mn[2])/lx[2]+0.9));
}
static Real S(Real x, int d, Real ph) { return sin(2*PI*(x-mn[d])/lx[d] + ph); }
static void box(void)
{
  static char *a[] = {"x1min","x2min","x3min"}, *b[] = {"x1max","x2max","x3max"};
  int d;
  for (d=0; d<3; d++) { mn[d] = par_getd("domain1",a[d]); lx[d] = par_getd("domain1",b[d])-mn[d]; }
  gp = par_getd_def("problem","gp",0.0);
  bamp = par_getd_def("problem","bamp",1.0);
  if (gp != 0.0) StaticGravPot = phi;
}
#ifdef MHD
static Real A0(int c, Real x, Real y, Real z)
{
  if (c==0) return 0.1*S(y,1,0.2)*S(z,2,1.1)+0.05*S(y,1,2.);
  if (c==1) return 0.1*S(x,0,0.5)*S(z,2,0.4)+0.04*S(z,2,0.);
  return 0.1*S(x,0,1.5)*S(y,1,0.7)+0.07*S(x,0,1.);
}
static Real A(int c, Real x, Real y, Real z) { return bamp*A0(c,x,y,z); }
#endif
void problem(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int i,j,k,n,iu,ju,ku;
  Real x,y,z,m,h1=pG->dx1,h2=pG->dx2,h3=pG->dx3;
  Real amp = par_getd_def("problem","amp",0.3), b1 = par_getd_def("problem","b1",0.3), b2 = par_getd_def("problem","b2",0.2), b3 = par_getd_def("problem","b3",0.4), v0 = par_getd_def("problem","v0",0.5);
  box();
  for (k=pG->ks; k<=pG->ke; k++) for (j=pG->js; j<=pG->je; j++) for (i=pG->is; i<=pG->ie; i++) {
    ConsS *u = &(pG->U[k][j][i]);
    cc_pos(pG,i,j,k,&x,&y,&z);
    m = 0;
    u->d = 1.0 + amp*S(x,0,0.1)*S(y,1,0.8) + 0.5*amp*S(z,2,0.3);
    u->M1 = u->d*(v0 + amp*S(y,1,0.4)+0.3*amp*S(x,0,2.));
    u->M2 = u->d*(0.3*v0 + amp*S(z,2,0.6)+0.2*amp*S(y,1,1.));
    u->M3 = u->d*(-0.2*v0 + amp*S(x,0,0.9)+0.4*amp*S(z,2,1.));
#ifdef MHD
    m = 0;
#endif
#ifndef BAROTROPIC
    u->E = (1.0 + 0.5*amp*S(x,0,1.3)*S(z,2,0.2))/Gamma_1 + 0.5*(SQR(u->M1)+SQR(u->M2)+SQR(u->M3))/u->d;
#endif
#if (NSCALARS > 0)
    for (n=0; n<NSCALARS; n++) u->s[n] = u->d*(0.5 + 0.4*S(x,0,n)*S(y,1,2*n+1)*S(z,2,3*n));
#endif
  }
#ifdef MHD
  iu = pG->ie + (pG->Nx[0]>1); ju = pG->je + (pG->Nx[1]>1); ku = pG->ke + (pG->Nx[2]>1);
  for (k=pG->ks; k<=ku; k++) for (j=pG->js; j<=ju; j++) for (i=pG->is; i<=iu; i++) {
    cc_pos(pG,i,j,k,&x,&y,&z); x -= 0.5*h1; y -= 0.5*h2; z -= 0.5*h3;
    pG->B1i[k][j][i] = b1 + (A(2,x,y+h2,z)-A(2,x,y,z))/h2 - (A(1,x,y,z+h3)-A(1,x,y,z))/h3;
    pG->B2i[k][j][i] = b2 + (A(0,x,y,z+h3)-A(0,x,y,z))/h3 - (A(2,x+h1,y,z)-A(2,x,y,z))/h1;
    pG->B3i[k][j][i] = b3 + (A(1,x+h1,y,z)-A(1,x,y,z))/h1 - (A(0,x,y+h2,z)-A(0,x,y,z))/h2;
  }
  for (k=pG->ks; k<=pG->ke; k++) for (j=pG->js; j<=pG->je; j++) for (i=pG->is; i<=pG->ie; i++) {
    ConsS *u = &(pG->U[k][j][i]);
    u->B1c = pG->Nx[0]>1 ? 0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]) : pG->B1i[k][j][i];
    u->B2c = pG->Nx[1]>1 ? 0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]) : pG->B2i[k][j][i];
    u->B3c = pG->Nx[2]>1 ? 0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]) : pG->B3i[k][j][i];
#ifndef BAROTROPIC
    u->E += 0.5*(SQR(u->B1c)+SQR(u->B2c)+SQR(u->B3c));
#endif
  }
#endif
#ifdef RESISTIVITY
  eta_Ohm = par_getd_def("problem","eta",0.01); Q_Hall = par_getd_def("problem","hall",0.0); Q_AD = par_getd_def("problem","ad",0.0); d_ind = 0.0;
#endif
#ifdef VISCOSITY
  nu_iso = par_getd_def("problem","nu",0.01); nu_aniso = 0.0;
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso = par_getd_def("problem","kappa",0.01); kappa_aniso = 0.0;
#endif
  (void)m;
}
void problem_write_restart(MeshS *pM, FILE *fp) { return; }
void problem_read_restart(MeshS *pM, FILE *fp) { box(); return; }
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A) { *eta_O = *eta_H = *eta_A = 0.0; }
#endif
void Userwork_in_loop(MeshS *pM) { }
void Userwork_after_loop(MeshS *pM)
{
  GridS *pG = pM->Domain[0][0].Grid;
  int i,j,k,n,nv = (int)(sizeof(ConsS)/sizeof(Real)), rank = 0;
  double t[64],w[64],o[64],divb=0.0,q;
  Real x,y,z;
  for (n=0; n<64; n++) t[n]=w[n]=0.0;
  if (pG != NULL)
  for (k=pG->ks; k<=pG->ke; k++) for (j=pG->js; j<=pG->je; j++) for (i=pG->is; i<=pG->ie; i++) {
    Real *u = (Real*)&(pG->U[k][j][i]);
    Real V = pG->dx1*pG->dx2*pG->dx3;
    cc_pos(pG,i,j,k,&x,&y,&z);
    if (gp != 0.0) { t[nv] += V*u[0]*phi(x,y,z); }
    for (n=0; n<nv; n++) { t[n] += V*u[n]; w[n] += V*u[n]*(1.0+0.5*S(x,0,0.3*n))*(1.0+0.4*S(y,1,0.2*n))*(1.0+0.3*S(z,2,0.1*n)); }
#ifdef MHD
    q = (pG->B1i[k][j][i+1]-pG->B1i[k][j][i])/pG->dx1;
    if (pG->Nx[1]>1) q += (pG->B2i[k][j+1][i]-pG->B2i[k][j][i])/pG->dx2;
    if (pG->Nx[2]>1) q += (pG->B3i[k+1][j][i]-pG->B3i[k][j][i])/pG->dx3;
    if (fabs(q) > divb) divb = fabs(q);
#endif
  }
#ifdef MPI_PARALLEL
  MPI_Comm_rank(MPI_COMM_WORLD,&rank);
  MPI_Allreduce(t,o,64,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for (n=0; n<64; n++) t[n]=o[n];
  MPI_Allreduce(w,o,64,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for (n=0; n<64; n++) w[n]=o[n];
  MPI_Allreduce(&divb,&q,1,MPI_DOUBLE,MPI_MAX,MPI_COMM_WORLD); divb = q;
#endif
  if (rank == 0) {
    printf("TIME %.17g %.17g %d\nTOTAL", (double)pM->time, (double)pM->dt, pM->nstep);
    for (n=0; n<=nv; n++) printf(" %.17g",t[n]);
    printf("\nWEIGHTED");
    for (n=0; n<nv; n++) printf(" %.17g",w[n]);
    printf("\nDIVB %.3g\n",divb);
  }
}
