/* Parameter-package harness: executes a script of operations (one per line, arguments hex-encoded, "-" for NULL) on the
 * compiled parameter routines and writes one reply line per operation. Under MPI rank 0 opens and overrides, the
 * database is distributed, and every rank executes the remaining operations with its own reply file. */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef MPI_PARALLEL
#include "mpi.h"
#endif

static FILE *fo;
static char *unhex(const char *s)
{
  int n = (int)strlen(s)/2, i; unsigned x; char *o;
  if (s[0]=='-') return NULL;
  o = calloc(n+1,1);
  for (i=0;i<n;i++) { sscanf(s+2*i,"%2x",&x); o[i]=(char)x; }
  return o;
}
static void puts_hex(const char *s) { fputc('=',fo); for (;*s;s++) fprintf(fo,"%02x",(unsigned char)*s); fputc('\n',fo); fflush(fo); }

int main(int argc, char *argv[])
{
  FILE *fi; char *line = malloc(1<<16), *a[64], *t, nm[64]; int n, rank = 0, i; size_t len = 1<<16;
#ifdef MPI_PARALLEL
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&rank);
#endif
  fi = fopen(argv[1],"r"); sprintf(nm,"reply.%d",rank); fo = fopen(nm,"w");
  while (fgets(line,(int)len,fi)) {
    n = 0;
    for (t=strtok(line," \n"); t; t=strtok(NULL," \n")) { a[n] = n ? unhex(t) : t; n++; }
    if (!n) continue;
    if (!strcmp(a[0],"open")) { if (!rank) par_open(a[1]); puts_hex("ok"); }
    else if (!strcmp(a[0],"cmdline")) { a[0] = "athena"; if (!rank) par_cmdline(n,a); puts_hex("ok");
      for (i=1;i<n;i++) puts_hex(a[i]); }
#ifdef MPI_PARALLEL
    else if (!strcmp(a[0],"dist")) { par_dist_mpi(rank,MPI_COMM_WORLD); puts_hex("ok"); }
#endif
    else if (!strcmp(a[0],"exist")) { fprintf(fo,"%d\n",par_exist(a[1],a[2])); fflush(fo); }
    else if (!strcmp(a[0],"gets")) { t = par_gets(a[1],a[2]); puts_hex(t); t[0] = 'Z'; free(t); }
    else if (!strcmp(a[0],"geti")) { fprintf(fo,"%d\n",par_geti(a[1],a[2])); fflush(fo); }
    else if (!strcmp(a[0],"getd")) { fprintf(fo,"%.17g\n",par_getd(a[1],a[2])); fflush(fo); }
    else if (!strcmp(a[0],"gets_def")) { t = par_gets_def(a[1],a[2],a[3]); puts_hex(t); free(t); }
    else if (!strcmp(a[0],"geti_def")) { fprintf(fo,"%d\n",par_geti_def(a[1],a[2],atoi(a[3]))); fflush(fo); }
    else if (!strcmp(a[0],"getd_def")) { fprintf(fo,"%.17g\n",par_getd_def(a[1],a[2],atof(a[3]))); fflush(fo); }
    else if (!strcmp(a[0],"sets")) { par_sets(a[1],a[2],a[3],a[4]); puts_hex("ok"); }
    else if (!strcmp(a[0],"seti")) { par_seti(a[1],a[2],"%d",atoi(a[3]),a[4]); puts_hex("ok"); }
    else if (!strcmp(a[0],"setd")) { par_setd(a[1],a[2],"%.16e",atof(a[3]),a[4]); puts_hex("ok"); }
    else if (!strcmp(a[0],"dump")) { FILE *f; sprintf(nm,"%s.%d",a[2],rank); f = fopen(nm,"w"); par_dump(atoi(a[1]),f); fclose(f); puts_hex("ok"); }
    else if (!strcmp(a[0],"close")) { par_close(); puts_hex("ok"); }
    else return 99;
  }
  puts_hex("end");
#ifdef MPI_PARALLEL
  MPI_Finalize();
#endif
  return 0;
}
void problem(DomainS *pD) {}
void problem_write_restart(MeshS *pM, FILE *fp) {}
void problem_read_restart(MeshS *pM, FILE *fp) {}
ConsFun_t get_usr_expr(const char *e) { return NULL; }
VOutFun_t get_usr_out_fun(const char *n) { return NULL; }
void Userwork_in_loop(MeshS *pM) {}
void Userwork_after_loop(MeshS *pM) {}
