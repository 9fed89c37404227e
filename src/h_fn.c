/* Function-level harness: calls the compiled Riemann solver, conversions, eigensystems and reconstruction on
 * records read from a file.  Only the prototypes published in the source tree are used.
 *   record: op, n, n doubles          reply: op, m, m doubles (flushed one by one)
 * ops: 1 flux  (Wl, Wr, Bx, etah)   -> F
 *      2 convert (W, Bx)           -> U, W', cfast, cfast_prim
 *      3 esys_prim (W, Bx)         -> ev, rem, lem
 *      4 esys_roe  (v1,v2,v3,h,d,b1,b2,b3,x,y) -> ev, rem, lem
 *      5 lr_states (nx, dt, dx, dir, r0, then nx*(W) , nx*Bxc) -> Wl, Wr for interfaces
 *      6 cell conversion (PrimS)   -> ConsS, PrimS'
 *      0 set globals (Gamma, Iso_csound) */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#include "rsolvers/prototypes.h"
#include "reconstruction/prototypes.h"

#define NV ((int)(sizeof(Prim1DS)/sizeof(Real)))
#define NU ((int)(sizeof(Cons1DS)/sizeof(Real)))
static FILE *fo;
static void put(const double *p, int n) { fwrite(p,sizeof(double),n,fo); }
static void head(double op, double n) { put(&op,1); put(&n,1); }

static void do_lr(double *a)
{
  int nx=(int)a[0], dir=(int)a[3], i, n=nx+2*nghost;
  static MeshS M; static DomainS D; static DomainS *pD=&D; static GridS G; static int dpl=1; static int init=0;
  Prim1DS *W=calloc(n+1,sizeof(Prim1DS)), *Wl=calloc(n+1,sizeof(Prim1DS)), *Wr=calloc(n+1,sizeof(Prim1DS));
  Real *B=calloc(n+1,sizeof(Real));
  if (!init) {
    M.NLevels=1; M.DomainsPerLevel=&dpl; M.Domain=&pD; D.Grid=&G; G.Nx[0]=256; G.Nx[1]=G.Nx[2]=1;
    lr_states_init(&M); init=1;
  }
#ifdef CYLINDRICAL
  if (G.r) { free(G.r); free(G.ri); }
  G.r=calloc(n+2,sizeof(Real)); G.ri=calloc(n+2,sizeof(Real));
  for (i=0;i<=n;i++) { G.ri[i]=a[4]+(i-nghost)*a[2]; G.r[i]=G.ri[i]+0.5*a[2]; }
#endif
  for (i=0;i<n;i++) {
    memcpy(&W[i],a+5+(long)i*NV,NV*sizeof(Real));
    B[i]=a[5+(long)n*NV+i];
  }
  lr_states(&G,W,B,a[1],a[2],nghost,nghost+nx-1,Wl,Wr,dir);
  head(5,2*(nx+1)*NV);
  for (i=nghost;i<=nghost+nx;i++) put((double*)&Wl[i],NV);
  for (i=nghost;i<=nghost+nx;i++) put((double*)&Wr[i],NV);
  free(W); free(Wl); free(Wr); free(B);
}

int main(int argc, char *argv[])
{
  FILE *fi=fopen(argv[1],"rb"); double h[2];
  fo=fopen(argv[2],"wb");
  ath_log_set_level(-1,-1);
  while (fread(h,sizeof(double),2,fi)==2) {
    int n=(int)h[1];
    double *a=malloc((n+1)*sizeof(double));
    if (fread(a,sizeof(double),n,fi)!=(size_t)n) return 9;
    switch ((int)h[0]) {
    case 0:
#ifdef ISOTHERMAL
      Iso_csound=a[1]; Iso_csound2=a[1]*a[1];
#else
      Gamma=a[0]; Gamma_1=Gamma-1.0; Gamma_2=Gamma-2.0;
#endif
      break;
    case 1: {
      Prim1DS Wl,Wr; Cons1DS Ul,Ur,F; Real Bx=a[2*NV];
      memcpy(&Wl,a,NV*sizeof(Real)); memcpy(&Wr,a+NV,NV*sizeof(Real));
      memset(&Ul,0,sizeof(Ul)); memset(&Ur,0,sizeof(Ur)); memset(&F,0,sizeof(F));
      Ul=Prim1D_to_Cons1D(&Wl,&Bx); Ur=Prim1D_to_Cons1D(&Wr,&Bx);
      etah=a[2*NV+1];
      fluxes(Ul,Ur,Wl,Wr,Bx,&F);
      head(1,NU); put((double*)&F,NU);
      break; }
    case 2: {
      Prim1DS W,V; Cons1DS U; Real Bx=a[NV], c=0.0, cp=0.0;
      memset(&U,0,sizeof(U)); memset(&V,0,sizeof(V));
      memcpy(&W,a,NV*sizeof(Real));
      U=Prim1D_to_Cons1D(&W,&Bx); V=Cons1D_to_Prim1D(&U,&Bx);
#ifndef SPECIAL_RELATIVITY
      c=cfast(&U,&Bx); cp=cfast_prim(&W,&Bx);
#endif
      head(2,NU+NV+2); put((double*)&U,NU); put((double*)&V,NV); put(&c,1); put(&cp,1);
      break; }
    case 3: {
      Real ev[NWAVE],R[NWAVE][NWAVE],L[NWAVE][NWAVE];
      Prim1DS W; Real Bx=a[NV];
      memset(ev,0,sizeof(ev)); memset(R,0,sizeof(R)); memset(L,0,sizeof(L));
      memcpy(&W,a,NV*sizeof(Real));
#ifndef SPECIAL_RELATIVITY
#ifdef HYDRO
#ifdef ISOTHERMAL
      esys_prim_iso_hyd(W.d,W.Vx,ev,R,L);
#else
      esys_prim_adb_hyd(W.d,W.Vx,Gamma*W.P,ev,R,L);
#endif
#else
#ifdef ISOTHERMAL
      esys_prim_iso_mhd(W.d,W.Vx,Bx,W.By,W.Bz,ev,R,L);
#else
      esys_prim_adb_mhd(W.d,W.Vx,Gamma*W.P,Bx,W.By,W.Bz,ev,R,L);
#endif
#endif
#endif
      head(3,NWAVE+2*NWAVE*NWAVE); put(ev,NWAVE); put(&R[0][0],NWAVE*NWAVE); put(&L[0][0],NWAVE*NWAVE);
      break; }
    case 4: {
      Real ev[NWAVE],R[NWAVE][NWAVE],L[NWAVE][NWAVE];
      memset(ev,0,sizeof(ev)); memset(R,0,sizeof(R)); memset(L,0,sizeof(L));
#ifndef SPECIAL_RELATIVITY
#ifdef HYDRO
#ifdef ISOTHERMAL
      esys_roe_iso_hyd(a[0],a[1],a[2],ev,R,L);
#else
      esys_roe_adb_hyd(a[0],a[1],a[2],a[3],ev,R,L);
#endif
#else
#ifdef ISOTHERMAL
      esys_roe_iso_mhd(a[4],a[0],a[1],a[2],a[5],a[6],a[7],a[8],a[9],ev,R,L);
#else
      esys_roe_adb_mhd(a[4],a[0],a[1],a[2],a[3],a[5],a[6],a[7],a[8],a[9],ev,R,L);
#endif
#endif
#endif
      head(4,NWAVE+2*NWAVE*NWAVE); put(ev,NWAVE); put(&R[0][0],NWAVE*NWAVE); put(&L[0][0],NWAVE*NWAVE);
      break; }
    case 5: do_lr(a); break;
    case 6: {
      PrimS W,V; ConsS U; int np=(int)(sizeof(PrimS)/sizeof(Real)), nc=(int)(sizeof(ConsS)/sizeof(Real));
      memset(&U,0,sizeof(U)); memset(&V,0,sizeof(V));
      memcpy(&W,a,np*sizeof(Real));
      U=Prim_to_Cons(&W); V=Cons_to_Prim(&U);
      head(6,nc+np); put((double*)&U,nc); put((double*)&V,np);
      break; }
    }
    fflush(fo);
    free(a);
  }
  fclose(fo);
  return 0;
}

/* the problem-generator interface is required at link time */
void problem(DomainS *pD) { }
void Userwork_in_loop(MeshS *pM) { }
void Userwork_after_loop(MeshS *pM) { }
void problem_write_restart(MeshS *pM, FILE *fp) { }
void problem_read_restart(MeshS *pM, FILE *fp) { }
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
#ifdef PARTICLES
PropFun_t get_usr_par_prop(const char *name) { return NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3) { }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3, const Real v1, const Real v2, const Real v3) { }
#endif
#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A) { }
#endif
