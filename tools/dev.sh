#!/bin/bash
# dev.sh PROP entry [symir opts]: run one entry directly, with fork statistics
P=$1; N=$2; shift 2
W=/tmp/dev-$P; mkdir -p $W
cd /verif
FL=$(sed -n 's,^//@ flags: *,,p' harness/$P.cpp)
clang++ -std=c++17 -w -DEIGEN_DONT_VECTORIZE -DGOOSEFEM_ENABLE_ASSERT -DGOOSEFEM_VERSION='"0.0"' -I${VERIF_REPO:-/repo}/include -Iharness -Iharness/omp -I/usr/include/eigen3 -DTHOROUGH=${TH:-0} $FL -O1 -g1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -c -emit-llvm harness/$P.cpp -o $W/h.bc && llvm-link $W/h.bc build/support.bc -o $W/l.bc || exit 2
rm -f $W/out.jsonl
SYMIR_FORKS=1 timeout $((${T:-60}+20)) build/symir $W/l.bc $N $W/out.jsonl --deadline ${T:-60} --jobs 6 "$@" 2> $W/err
echo "rc $?"; grep -ac FORK $W/err; grep -a FORK $W/err | sort | uniq -c | sort -rn | head -${H:-12} | cut -c1-300; grep -av FORK $W/err | head -5
cut -c1-600 $W/out.jsonl | grep -v '"sample"' | head -${R:-8}
