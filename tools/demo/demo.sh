#!/bin/bash
# usage: demo.sh ; builds stress against /repo (cwd) and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
C="-std=gnu++17 -w -g -O1 -I$R -include $R/config.h"
g++ $C -O2 -c $D/pause.cc -o $T/pause.o &
g++ $C $DEFS -fsanitize=thread -c $D/stress.cc -o $T/stress.o &
g++ $C -fsanitize=thread -c $R/kvthread.cc -o $T/kvthread.o &
for f in compiler str string straccum json string_slice; do g++ $C -c $R/$f.cc -o $T/$f.o & done; wait
g++ -o $T/stress $T/*.o -Wl,--wrap=free -lpthread
IFS=";"; for a in ${RUNS:-0 4;1 4;2 4}; do IFS=" "; $T/stress ${SECS:-15} $a || { echo "FAILED"; exit 1; }; done
