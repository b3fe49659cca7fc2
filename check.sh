#!/bin/bash
# check.sh <property>: decides one property by seeded simulation of /repo's working tree.
# VERIF_SEED (default 1) seeds every choice; VERIF_TIER=quick|thorough sets the number of runs.
V=$(cd "$(dirname "$0")" && pwd); cd "$V" || exit 2
P=$1; T=${VERIF_TIER:-quick}; [ -n "$2" ] && T=$2
S=${VERIF_SEED:-1}
mkdir -p evidence replay
read -r _ NQ NT < <(grep -E "^$P[[:space:]]" checks.tsv) || { echo "unknown property $P"; exit 2; }
N=$NQ; CAP=${VERIF_CAP:-300}; [ "$T" = thorough ] && { N=$NT; CAP=${VERIF_CAP:-800}; }
case "$P" in P22|P23) export SBC_ASAN=1;; esac # memory safety: address sanitizer build
X=$(bash sim/build.sh) || { echo "build failed"; exit 2; }
J=$(nproc); [ "$J" -gt 8 ] && J=8
exec "$X" run --prop "$P" --seed "$S" --n "$N" --jobs "$J" --tier "$T" --cap "$CAP" --level exploration \
  --evidence "$V/evidence/$P.json" --out "$V/replay" --known "$V/KNOWN_FINDINGS.txt"
