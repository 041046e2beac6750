#!/bin/bash
# nat.sh c06 [args]: build native harness and run it (development helper)
p=$1; shift; [ $p = c18 -o $p = c19 ] && NATFLAGS="-DOMPI_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi"; V=$(cd "$(dirname "$0")/.."; pwd); mkdir -p $V/scratch/nat
g++ -std=c++20 -O1 -fsanitize=address -DHAVE_CONFIG_H -w -I$V/native -I$V/cfg -I${REPO:-/repo} -I/opt/dune/prefix/include $V/native/$p.cc /opt/dune/prefix/lib/libdunecommon.a $NATFLAGS -o $V/scratch/nat/$p 2>&1 | grep -E "error|required from here" | cut -c1-400 | head -${LINES_MAX:-8}
ASAN_OPTIONS=detect_leaks=0:max_allocation_size_mb=4096 $V/scratch/nat/$p --seed 1 "$@" 2>&1 | cut -c1-600 | head -${LINES_MAX:-40}
