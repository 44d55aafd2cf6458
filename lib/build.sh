#!/bin/bash
# build.sh OUTDIR [REPO]: compiles the driver with the sources of the repository's working tree.
# Nothing is written outside OUTDIR.
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/o"
CC=${CC:-gcc}
CF="-std=gnu11 -g -O1 -w -fno-omit-frame-pointer -fsanitize=address $EXTRA_CFLAGS -I$REPO/SLIP_LU/Include -I$REPO/SLIP_LU/Source -I$REPO/AMD/Include -I$REPO/COLAMD/Include -I$REPO/SuiteSparse_config"
{
  for f in $REPO/SLIP_LU/Source/*.c $REPO/SuiteSparse_config/*.c; do echo "$CC $CF -c $f -o $OUT/o/s_$(basename $f .c).o"; done
  for f in $REPO/AMD/Source/*.c $REPO/COLAMD/Source/*.c; do
    # with the hooks if they still compile (the specification then searches for what they would have told)
    echo "$CC $CF -DSLIP_VERIF_HOOKS -DDINT -c $f -o $OUT/o/i_$(basename $f .c).o || $CC $CF -DDINT -c $f -o $OUT/o/i_$(basename $f .c).o"
    echo "$CC $CF -DSLIP_VERIF_HOOKS -DDLONG -c $f -o $OUT/o/l_$(basename $f .c).o || $CC $CF -DDLONG -c $f -o $OUT/o/l_$(basename $f .c).o"; done
  for f in $REPO/AMD/Source/*.f; do echo "gfortran -g -O1 -w -fno-omit-frame-pointer -fsanitize=address -c $f -o $OUT/o/f_$(basename $f .f).o"; done
  echo "$CC $CF -c $HERE/driver/driver.c -o $OUT/o/driver.o"
} | xargs -P 8 -I{} bash -c '{} || exit 255'
$CC -fsanitize=address $OUT/o/*.o -o $OUT/driver.tmp -lgmp -lmpfr -lm -lgfortran
mv $OUT/driver.tmp $OUT/driver
