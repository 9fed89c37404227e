/* Generic problem generator used by the property checks in /verif.
 *
 * Initial conditions come from a binary file of doubles written by the
 * generator side; the full state (ghost zones included) is written back as
 * binary records at points selected by parameters, so that every oracle works
 * on exact values.  Only documented interfaces (the problem-generator API of
 * prototypes.h, the Mesh/Domain/Grid structures of athena.h, and the globals of
 * globals.h) are used. */
#include <float.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef PARTICLES
#include "particles/particle.h"
#endif

static double *ic_read(const char *name, long *n)
{
  FILE *fp = fopen(name,"rb");
  double *buf; long len;
  if (fp == NULL) ath_error("[vp]: cannot open %s\n", name);
  fseek(fp,0,SEEK_END); len = ftell(fp)/sizeof(double); fseek(fp,0,SEEK_SET);
  buf = (double*)malloc((len+1)*sizeof(double));
  if (fread(buf,sizeof(double),len,fp) != (size_t)len)
    ath_error("[vp]: short read on %s\n", name);
  fclose(fp);
  *n = len;
  return buf;
}

#ifdef FFT_ENABLED
/* transforms of a given global array with the Domain's own decomposition; reply per process */
static void vp_fft(DomainS *pD)
{
  GridS *pG = pD->Grid;
  long len, m, cnt; int i,j,k,p,rank=0,three=pD->Nx[2]>1;
  int d0=pG->Disp[0]-pD->Disp[0], d1=pG->Disp[1]-pD->Disp[1], d2=pG->Disp[2]-pD->Disp[2];
  int n1=pG->Nx[0], n2=pG->Nx[1], n3=pG->Nx[2];
  double *a = ic_read("fft.in",&len); char nm[64]; FILE *fp; double h[6]; ath_fft_data *w;
  struct ath_3d_fft_plan *f3=NULL,*b3=NULL; struct ath_2d_fft_plan *f2=NULL,*b2=NULL;
#ifdef MPI_PARALLEL
  rank = myID_Comm_world;
#endif
  if (three) { f3 = ath_3d_fft_quick_plan(pD,NULL,ATH_FFT_FORWARD); b3 = ath_3d_fft_quick_plan(pD,NULL,ATH_FFT_BACKWARD);
    w = ath_3d_fft_malloc(f3); cnt = f3->cnt; }
  else { f2 = ath_2d_fft_quick_plan(pD,NULL,ATH_FFT_FORWARD); b2 = ath_2d_fft_quick_plan(pD,NULL,ATH_FFT_BACKWARD);
    w = ath_2d_fft_malloc(f2); cnt = f2->cnt; }
  sprintf(nm,"fft.out.%d",rank); fp = fopen(nm,"wb");
  h[0]=d0; h[1]=d1; h[2]=d2; h[3]=n1; h[4]=n2; h[5]=n3; fwrite(h,sizeof(double),6,fp);
  for (p=0; p<4; p++) {   /* forward; then backward of that; backward of the data; forward of that */
    if (p%2==0) for (i=0;i<n1;i++) for (j=0;j<n2;j++) for (k=0;k<n3;k++) {
      m = three ? F3DI(i,j,k,n1,n2,n3) : F2DI(i,j,n1,n2);
      double *q = a+2*(((long)(i+d0)*pD->Nx[1]+(j+d1))*pD->Nx[2]+(k+d2));
      w[m][0]=q[0]; w[m][1]=q[1];
    }
    if (three) ath_3d_fft((p==0||p==3) ? f3 : b3, w); else ath_2d_fft((p==0||p==3) ? f2 : b2, w);
    for (i=0;i<n1;i++) for (j=0;j<n2;j++) for (k=0;k<n3;k++) {
      m = three ? F3DI(i,j,k,n1,n2,n3) : F2DI(i,j,n1,n2);
      fwrite(w[m],sizeof(double),2,fp);
    }
  }
  h[0]=(double)cnt; h[1]= three ? (double)f3->gcnt : (double)f2->gcnt; fwrite(h,sizeof(double),2,fp);
  fclose(fp); free(a);
  if (three) { ath_3d_fft_free(w); ath_3d_fft_destroy_plan(f3); ath_3d_fft_destroy_plan(b3); }
  else { ath_2d_fft_free(w); ath_2d_fft_destroy_plan(f2); ath_2d_fft_destroy_plan(b2); }
}
#endif

/* ---- physics callbacks -------------------------------------------------- */
static int pot_kind=0;
static Real pg[3]={0,0,0}, pamp=0, pk[3]={0,0,0}, pgm=0, pper[3]={0,0,0};
static Real vp_pot(const Real x1, const Real x2, const Real x3)
{
  switch (pot_kind) {
  case 1: return pg[0]*x1 + pg[1]*x2 + pg[2]*x3
                 + pamp*cos(pk[0]*x1 + pk[1]*x2 + pk[2]*x3);
  case 5: { /* exactly periodic mode: positions reduced to 1e-9 of the period */
      Real a=0.0, x[3]; int d;
      x[0]=x1; x[1]=x2; x[2]=x3;
      for (d=0;d<3;d++) if (pper[d] > 0.0) {
        Real q = fmod(floor(1.0e9*(x[d]/pper[d])+0.5),1.0e9);
        if (q < 0.0) q += 1.0e9;
        a += fmod(pk[d]*q,1.0e9);
      }
      return pamp*cos(2.0*3.14159265358979323846*1.0e-9*a);
    }
  case 2: return -pgm/x1;
  case 3: return pgm*log(x1);
  case 4: return 0.5*pgm*x1*x1;
  }
  return 0.0;
}
static Real cool_rate=0.0;
static Real vp_cool(const Real d, const Real p, const Real dt)
{
  return cool_rate*d*p;
}
#ifdef SHEARING_BOX
static int sb_vert=0;
static Real vp_sbpot(const Real x1, const Real x2, const Real x3)
{
  Real phi=0.0;
#ifndef FARGO
  phi -= qshear*SQR(Omega_0*x1);
#endif
  if (sb_vert) phi += 0.5*SQR(Omega_0*x3);
  return phi;
}
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
static Real orb_om=1.0, orb_q=1.5;
static Real vp_orb(const Real x1) { return orb_om*pow(x1,-orb_q); }
static Real vp_shr(const Real x1) { return orb_q; }
#endif

static int rawg=1, trace=0;
static long userctr=0;

#ifdef OPERATOR_SPLIT_COOLING
static void set_units(GridS *pG)
{
  ConstS consts;
  init_consts(&consts);
  pG->units.Dcode = 1.4*consts.mH;
  pG->units.Vcode = consts.kms;
  pG->units.Lcode = consts.pc;
  pG->units.Tcode = pG->units.Lcode/pG->units.Vcode;
  pG->units.Mcode = pG->units.Dcode*CUBE(pG->units.Lcode);
  init_units(&(pG->units));
  pG->heat0 = par_getd_def("problem","heat0",2.0e-26);
  pG->heat_ratio = par_getd_def("problem","heat_ratio",1.0);
}
#endif

static void set_physics(MeshS *pM)
{
  pot_kind = par_geti_def("problem","pot_kind",0);
  if (pot_kind) {
    pg[0] = par_getd_def("problem","g1",0.0);
    pg[1] = par_getd_def("problem","g2",0.0);
    pg[2] = par_getd_def("problem","g3",0.0);
    pamp  = par_getd_def("problem","pamp",0.0);
    pk[0] = par_getd_def("problem","pk1",0.0);
    pk[1] = par_getd_def("problem","pk2",0.0);
    pk[2] = par_getd_def("problem","pk3",0.0);
    pper[0] = par_getd_def("problem","pper1",0.0);
    pper[1] = par_getd_def("problem","pper2",0.0);
    pper[2] = par_getd_def("problem","pper3",0.0);
    pgm   = par_getd_def("problem","pgm",0.0);
    StaticGravPot = vp_pot;
  }
  d_MIN = par_getd_def("problem","dmin",d_MIN);
  cool_rate = par_getd_def("problem","cool",0.0);
  if (cool_rate != 0.0) CoolingFunc = vp_cool;
#ifndef BAROTROPIC
  if (par_geti_def("problem","koyinut",0)) CoolingFunc = KoyInut;
#endif
  if (par_exist("problem","dmin")) d_MIN = par_getd("problem","dmin");
#ifdef SELF_GRAVITY
  four_pi_G = par_getd_def("problem","four_pi_G",1.0);
  grav_mean_rho = par_getd_def("problem","mean_rho",1.0);
#endif
#ifdef SHEARING_BOX
  Omega_0 = par_getd_def("problem","omega",1.0);
  qshear  = par_getd_def("problem","qshear",1.5);
  sb_vert = par_geti_def("problem","sb_vert",0);
  ShBoxCoord = (pM->Nx[2]>1 || par_geti_def("problem","sb_xy",1)) ? xy : xz;
  ShearingBoxPot = vp_sbpot;
#endif
#ifdef ROTATING_FRAME
  Omega_0 = par_getd_def("problem","omega",1.0);
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
  orb_om = par_getd_def("problem","orb_om",1.0);
  orb_q  = par_getd_def("problem","orb_q",1.5);
  OrbitalProfile = vp_orb;
  ShearProfile = vp_shr;
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso = par_getd_def("problem","kappa_iso",0.0);
  kappa_aniso = par_getd_def("problem","kappa_aniso",0.0);
#endif
#ifdef VISCOSITY
  nu_iso = par_getd_def("problem","nu_iso",0.0);
  nu_aniso = par_getd_def("problem","nu_aniso",0.0);
#endif
#ifdef RESISTIVITY
  eta_Ohm = par_getd_def("problem","eta_Ohm",0.0);
  Q_Hall = par_getd_def("problem","Q_Hall",0.0);
  Q_AD = par_getd_def("problem","Q_AD",0.0);
  d_ind = par_getd_def("problem","d_ind",0.0);
#endif
#ifdef OPERATOR_SPLIT_COOLING
  { int nl,nd;
    for (nl=0; nl<pM->NLevels; nl++)
    for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++)
      if (pM->Domain[nl][nd].Grid != NULL) set_units(pM->Domain[nl][nd].Grid);
  }
#endif
  rawg  = par_geti_def("problem","rawghost",1);
  trace = par_geti_def("problem","trace",0);
  if (par_geti_def("problem","bcfix1",0)) {
    int nl,nd;
    for (nl=0; nl<pM->NLevels; nl++)
    for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++) {
      bvals_mhd_fun(&(pM->Domain[nl][nd]), left_x1,  do_nothing_bc);
      bvals_mhd_fun(&(pM->Domain[nl][nd]), right_x1, do_nothing_bc);
    }
  }
}

static Real usr1(const GridS *pG, const int i, const int j, const int k)
{ return 3.0*pG->U[k][j][i].d - 0.5*pG->U[k][j][i].M1; }
static Real hst_usr(const GridS *pG, const int i, const int j, const int k)
{ return pG->U[k][j][i].d*pG->U[k][j][i].d; }

/* ---- state records ------------------------------------------------------ */
static void put(FILE *fp, double v) { fwrite(&v,sizeof(double),1,fp); }

static void raw_dump(MeshS *pM, const char *tag, const char *mode, int ghosts)
{
  char fname[MAXLEN];
  FILE *fp;
  int nl,nd,i,j,k,il,iu,jl,ju,kl,ku;
  sprintf(fname,"raw.%s.%d",tag,myID_Comm_world);
  if ((fp = fopen(fname,mode)) == NULL) ath_error("[vp]: open %s\n",fname);
  for (nl=0; nl<pM->NLevels; nl++)
  for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++) {
    DomainS *pD = &(pM->Domain[nl][nd]);
    GridS *pG = pD->Grid;
    int nv = (int)(sizeof(ConsS)/sizeof(Real));
    if (pG == NULL) continue;
    il=pG->is; iu=pG->ie; jl=pG->js; ju=pG->je; kl=pG->ks; ku=pG->ke;
    if (ghosts) {
      il-=nghost; iu+=nghost;
      if (pG->Nx[1]>1) {jl-=nghost; ju+=nghost;}
      if (pG->Nx[2]>1) {kl-=nghost; ku+=nghost;}
    }
    put(fp,424242.0);
    put(fp,pM->time); put(fp,pM->dt); put(fp,(double)pM->nstep);
    put(fp,nl); put(fp,nd);
    for (i=0;i<3;i++) put(fp,pG->Nx[i]);
    for (i=0;i<3;i++) put(fp,pG->Disp[i]-pD->Disp[i]);
    for (i=0;i<3;i++) put(fp,pD->Nx[i]);
    put(fp,pG->is-il); put(fp,pG->js-jl); put(fp,pG->ks-kl);
    put(fp,iu-il+1); put(fp,ju-jl+1); put(fp,ku-kl+1);
    put(fp,nv);
#ifdef MHD
    put(fp,1);
#else
    put(fp,0);
#endif
#ifdef SELF_GRAVITY
    put(fp,1);
#else
    put(fp,0);
#endif
#ifdef PARTICLES
    put(fp,(double)pG->nparticle);
#else
    put(fp,-1.0);
#endif
    put(fp,pG->dx1); put(fp,pG->dx2); put(fp,pG->dx3);
    for (i=0;i<3;i++) put(fp,pG->MinX[i]);
    for (i=0;i<3;i++) put(fp,pG->MaxX[i]);
    put(fp,pG->time); put(fp,pG->dt);
    for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++) {
      Real *p = (Real*)&(pG->U[k][j][i]); int n;
      for (n=0;n<nv;n++) put(fp,p[n]);
    }
#ifdef MHD
    {
      /* one extra upper face per active direction when no ghosts are kept */
      int e1=!ghosts, e2=(!ghosts && pG->Nx[1]>1), e3=(!ghosts && pG->Nx[2]>1);
      for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu+e1;i++)
        put(fp,pG->B1i[k][j][i]);
      for (k=kl;k<=ku;k++) for (j=jl;j<=ju+e2;j++) for (i=il;i<=iu;i++)
        put(fp,pG->B2i[k][j][i]);
      for (k=kl;k<=ku+e3;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++)
        put(fp,pG->B3i[k][j][i]);
    }
#endif
#ifdef SELF_GRAVITY
    for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++)
      put(fp,pG->Phi[k][j][i]);
#endif
#ifdef PARTICLES
    { long p;
      for (p=0;p<pG->nparticle;p++) {
        GrainS *g = &(pG->particle[p]);
        put(fp,g->x1); put(fp,g->x2); put(fp,g->x3);
        put(fp,g->v1); put(fp,g->v2); put(fp,g->v3);
        put(fp,g->property); put(fp,g->pos); put(fp,(double)g->my_id);
#ifdef MPI_PARALLEL
        put(fp,g->init_id);
#else
        put(fp,0.0);
#endif
      } }
#endif
  }
  fclose(fp);
}

static void vpraw(MeshS *pM, OutputS *pOut)
{
  char tag[64];
  sprintf(tag,"out%d.%d",pOut->n,pOut->num);
  raw_dump(pM,tag,"wb",1);
}

/* ---- problem ------------------------------------------------------------ */
void problem(DomainS *pD)
{
  GridS *pG = pD->Grid;
  char *base, fname[MAXLEN];
  double *a; long len, n1,n2,n3, o;
  int nv,g[3],i,j,k,n,d;
  static MeshS fake;
  static int once=0;

  fake.Nx[2] = pD->Nx[2];
  fake.NLevels = 0;
  set_physics(&fake);
  /* a later start of the first step (boundary offsets of the shearing box) */
  if (par_exist("problem","time0")) pG->time = par_getd("problem","time0");
#ifdef OPERATOR_SPLIT_COOLING
  set_units(pG);
#endif
  if (par_geti_def("problem","bcfix1",0)) {
    bvals_mhd_fun(pD, left_x1,  do_nothing_bc);
    bvals_mhd_fun(pD, right_x1, do_nothing_bc);
  }
  if (!once) { dump_history_enroll(hst_usr,"usrd2"); once=1; }
  userctr = par_geti_def("problem","userctr",7);
#ifdef FFT_ENABLED
  if (par_geti_def("problem","fft",0)) vp_fft(pD);
#endif

  base = par_gets("problem","ic");
  sprintf(fname,"%s.%d.%d",base,pD->Level,pD->DomNumber);
  a = ic_read(fname,&len);
  nv=(int)a[0];
  for (d=0;d<3;d++) g[d]=(int)a[4+d];
  n1=pD->Nx[0]+2*g[0]; n2=pD->Nx[1]+2*g[1]; n3=pD->Nx[2]+2*g[2];
  if ((long)a[1]!=n1 || (long)a[2]!=n2 || (long)a[3]!=n3)
    ath_error("[vp]: IC shape mismatch %g %g %g vs %ld %ld %ld\n",a[1],a[2],a[3],n1,n2,n3);
  o=8;
#define INR(q,lo,N,gg) ((q)>=(lo)-(gg) && (q)<(lo)+(N)+(gg))
  {
    int d0=pG->Disp[0]-pD->Disp[0], d1=pG->Disp[1]-pD->Disp[1], d2=pG->Disp[2]-pD->Disp[2];
    int ei,ej,ek;
    /* with g>0 the halo is only stored where it lies inside the Domain's own
     * padded array, i.e. always */
    for (k=pG->ks-g[2]; k<=pG->ke+g[2]; k++)
    for (j=pG->js-g[1]; j<=pG->je+g[1]; j++)
    for (i=pG->is-g[0]; i<=pG->ie+g[0]; i++) {
      long I=i-pG->is+d0+g[0], J=j-pG->js+d1+g[1], K=k-pG->ks+d2+g[2];
      double *p = a+o+nv*((K*n2+J)*n1+I);
      Real *q = (Real*)&(pG->U[k][j][i]);
      for (n=0;n<nv;n++) q[n]=p[n];
    }
    o += nv*n1*n2*n3;
#ifdef MHD
    ei = 1; ej = pD->Nx[1]>1; ek = pD->Nx[2]>1;
    /* in 1-D etc. the x1-face array always has one extra entry */
    { long m1=n1+ei;
      for (k=pG->ks-g[2]; k<=pG->ke+g[2]; k++)
      for (j=pG->js-g[1]; j<=pG->je+g[1]; j++)
      for (i=pG->is-g[0]; i<=pG->ie+(g[0]?g[0]:1); i++)
        pG->B1i[k][j][i] = a[o+((k-pG->ks+d2+g[2])*n2+(j-pG->js+d1+g[1]))*m1+(i-pG->is+d0+g[0])];
      o += n3*n2*m1; }
    { long m2=n2+ej;
      for (k=pG->ks-g[2]; k<=pG->ke+g[2]; k++)
      for (j=pG->js-g[1]; j<=pG->je+(g[1]?g[1]:ej); j++)
      for (i=pG->is-g[0]; i<=pG->ie+g[0]; i++)
        pG->B2i[k][j][i] = a[o+((k-pG->ks+d2+g[2])*m2+(j-pG->js+d1+g[1]))*n1+(i-pG->is+d0+g[0])];
      o += n3*m2*n1; }
    { long m3=n3+ek;
      for (k=pG->ks-g[2]; k<=pG->ke+(g[2]?g[2]:ek); k++)
      for (j=pG->js-g[1]; j<=pG->je+g[1]; j++)
      for (i=pG->is-g[0]; i<=pG->ie+g[0]; i++)
        pG->B3i[k][j][i] = a[o+((k-pG->ks+d2+g[2])*n2+(j-pG->js+d1+g[1]))*n1+(i-pG->is+d0+g[0])];
      o += m3*n2*n1; }
#ifdef CYLINDRICAL
  /* the code's own average, so that restart files reproduce it */
  for (k=pG->ks; k<=pG->ke; k++) for (j=pG->js; j<=pG->je; j++) for (i=pG->is; i<=pG->ie; i++)
    pG->U[k][j][i].B1c = 0.5*((pG->ri[i]/pG->r[i])*pG->B1i[k][j][i] + (pG->ri[i+1]/pG->r[i])*pG->B1i[k][j][i+1]);
#endif
#endif
  }
  if (o != len) ath_error("[vp]: IC length mismatch %ld %ld\n",o,len);
  free(a);
#ifdef PARTICLES
  {
    long q, np, in=0; int t;
    sprintf(fname,"%s.par",base);
    a = ic_read(fname,&len);
    /* header: ntypes, then per type: tstop, mass, rad/rhoa, integrator */
    t=(int)a[0]; o=1;
    for (n=0;n<t && n<npartypes;n++) {
      tstop0[n]=a[o+4*n];
#ifdef FEEDBACK
      grproperty[n].m=a[o+4*n+1];
#endif
      grproperty[n].rad=a[o+4*n+2]; grrhoa[n]=a[o+4*n+2];
      grproperty[n].integrator=(short)a[o+4*n+3];
      grproperty[n].num=0;
    }
    o += 4*t;
    alamcoeff = par_getd_def("problem","alamcoeff",1.0);
    np=(len-o)/8;
    for (q=0;q<np;q++) {
      double *p=a+o+8*q; int ok=1;
      for (d=0;d<3;d++) if (pD->Nx[d]>1) {
        if (p[d]<pG->MinX[d] || p[d]>=pG->MaxX[d]) ok=0;
      }
      if (!ok) continue;
      if (in+2 > pG->arrsize) particle_realloc(pG,in+2);
      pG->particle[in].x1=p[0]; pG->particle[in].x2=p[1]; pG->particle[in].x3=p[2];
      pG->particle[in].v1=p[3]; pG->particle[in].v2=p[4]; pG->particle[in].v3=p[5];
      pG->particle[in].property=(int)p[6];
      pG->particle[in].my_id=(long)p[7];
      pG->particle[in].pos=1;
#ifdef MPI_PARALLEL
      pG->particle[in].init_id=0;
#endif
      grproperty[(int)p[6]].num++;
      in++;
    }
    pG->nparticle=in;
    free(a);
  }
#endif
  free(base);
}

void Userwork_in_loop(MeshS *pM)
{
  userctr++;
  if (trace) {
    char tag[32];
    sprintf(tag,"step%d",pM->nstep);
    raw_dump(pM,tag,"wb",trace>1);
  }
  {
    FILE *fp; char fname[MAXLEN];
    sprintf(fname,"steps.%d",myID_Comm_world);
    if ((fp=fopen(fname,"ab"))!=NULL) {
      put(fp,(double)pM->nstep); put(fp,pM->time); put(fp,pM->dt); fclose(fp);
    }
  }
  if (par_exist("problem","raise_at") && par_geti("problem","raise_at")==pM->nstep) {
    extern int raise(int); int who=0;
    if (par_exist("problem","raise_rank")) who = par_geti("problem","raise_rank");
    if (who==myID_Comm_world) raise(par_geti("problem","raise_sig"));
  }
}

void Userwork_after_loop(MeshS *pM)
{
  FILE *fp; char fname[MAXLEN];
  raw_dump(pM,"final","wb",rawg);
  sprintf(fname,"userctr.%d",myID_Comm_world);
  if ((fp=fopen(fname,"wb"))!=NULL) { put(fp,(double)userctr); fclose(fp); }
}

void problem_write_restart(MeshS *pM, FILE *fp)
{
  fwrite(&userctr,sizeof(long),1,fp);
}

void problem_read_restart(MeshS *pM, FILE *fp)
{
  set_physics(pM);
  dump_history_enroll(hst_usr,"usrd2");
  if (fread(&userctr,sizeof(long),1,fp) != 1) ath_error("[vp]: user data\n");
}

ConsFun_t get_usr_expr(const char *expr)
{
  if (strcmp(expr,"usr1")==0) return usr1;
  return NULL;
}
VOutFun_t get_usr_out_fun(const char *name)
{
  if (strcmp(name,"vpraw")==0) return vpraw;
  return NULL;
}
#ifdef PARTICLES
static int prop_type0(const GrainS *gr, const GrainAux *grsub) { return gr->property==0; }
PropFun_t get_usr_par_prop(const char *name)
{
  if (strcmp(name,"type0")==0) return prop_type0;
  return NULL;
}
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3)
{ return; }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3,
                        const Real v1, const Real v2, const Real v3)
{
#ifdef SHEARING_BOX
  if (sb_vert) ft->x3 -= SQR(Omega_0)*x3;
#endif
  return;
}
#endif
#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A)
{ *eta_O=0.0; *eta_H=0.0; *eta_A=0.0; }
#endif
