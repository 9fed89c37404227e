# helpers for the demonstrations: build the program of the tree we stand in, in a scratch copy, and run it
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
unset MAKEFLAGS CFLAGS MAKELEVEL
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none
mk() {  # in a build directory
  local c=gcc; grep -q '^#define MPI_PARALLEL' src/defs.h && c=mpicc
  make all MACHINE=macosx CC="$c -fcommon" LDR="$c -fcommon"
}
build() {  # build NAME configure-options...: program in $T/NAME/bin/athena
  local n=$1; shift
  mkdir -p "$T/$n/bin"
  cp -r "$R/src" "$R/configure.ac" "$R/install-sh" "$R/Makefile.in" "$R/Makeoptions.in" "$T/$n/"
  find "$T/$n/src" -name '*.o' -delete
  [ -f "$H/demo.c" ] && cp "$H/demo.c" "$T/$n/src/prob/demo.c"
  for d in doc tst vis apps; do [ -d "$R/$d" ] && cp -r "$R/$d" "$T/$n/" 2>/dev/null; done
  ( cd "$T/$n" && autoconf && ./configure --with-problem=demo "$@" && mk ) >"$T/$n/log" 2>&1 || { echo "build of $n failed"; tail -20 "$T/$n/log"; exit 2; }
}
inp() {  # inp FILE N1 N2 N3 extra-lines... : an input file
  local f=$1 a=$2 b=$3 c=$4; shift 4
  { printf '<job>\nproblem_id = demo\nmaxout = 0\nnum_domains = 1\n<time>\ncour_no = 0.3\nnlim = 4\ntlim = 100.0\n'
    printf '<domain1>\nlevel = 0\nNx1 = %s\nx1min = -0.5\nx1max = 0.5\nbc_ix1 = 4\nbc_ox1 = 4\n' $a
    printf 'Nx2 = %s\nx2min = -0.5\nx2max = 0.5\nbc_ix2 = 4\nbc_ox2 = 4\nNx3 = %s\nx3min = -0.5\nx3max = 0.5\nbc_ix3 = 4\nbc_ox3 = 4\n' $b $c
    printf '<problem>\ngamma = 1.6666666666666667\niso_csound = 1.0\n'; for l in "$@"; do echo "$l"; done; } >"$f"
}
cmp_out() {  # cmp_out A B TOL: compare TOTAL/WEIGHTED lines
  awk -v tol=$3 'FNR==NR{ if ($1=="TOTAL"||$1=="WEIGHTED") a[$1]=$0; next }
    ($1=="TOTAL"||$1=="WEIGHTED"){ n=split(a[$1],p," "); if (n!=NF) bad=1; for(i=2;i<=NF;i++){ d=p[i]-$i; if(d<0)d=-d; if(!(d<=tol)) { bad=1; print $1, i, p[i], $i } k++ } }
    END{ exit (bad||!k) }' "$1" "$2"
}
