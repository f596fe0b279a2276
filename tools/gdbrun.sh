#!/bin/bash
# tools/gdbrun.sh VARIANT WORLD RUN [SEED] [TIER]: backtrace of a crashing run (development tool)
cd /verif
SIM_NOASLR=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell LC_ALL=C TZ=UTC timeout 200 gdb -q -batch \
  -ex "set print frame-arguments none" -ex "run direct $2 ${4:-1} $3 ${5:-0}" -ex "bt ${DEPTH:-30}" build/$1/sim 2>&1 | grep -E "^#|signal|terminate|what|^V" | cut -c1-200
