#!/bin/bash
# The same seed must give the same batch digest, with any number of workers, again and again.
# Usage: tools/determinism.sh [BLOCKS] (after a build). Writes evidence into a scratch directory.
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$(mktemp -d)"; bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13; do
  d=""
  for w in 8 3 1 8; do
    x="$(VERIF_DIR="$out" VERIF_BLOCKS="${1:-6}" VERIF_WORKERS=$w "$here/sim/target/release/camsim" check $p quick 2>/dev/null | grep -o 'batch [0-9a-f]*')"
    [ -z "$d" ] && d="$x"
    [ "$x" = "$d" ] || { echo "$p: $x with $w workers, $d before"; bad=1; }
  done
  echo "$p $d"
done
rm -rf "${out:?}"
exit $bad
