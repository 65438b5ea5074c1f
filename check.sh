#!/bin/bash
# check.sh PROPERTY [TIER]: build the simulator against /repo's working tree and run one check.
# Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$here"
mkdir -p "$here/evidence" "$here/sim/target"
(
  flock 9
  if ! "$here/sim/build.sh" >"$here/sim/target/build.log" 2>&1; then
    grep -E '^error' -A8 "$here/sim/target/build.log" | head -60 >&2
    echo "cannot build the simulator against /repo" >&2
    exit 2
  fi
) 9>"$here/sim/target/.lock" || exit 2
"$here/sim/target/release/camsim" check "$prop" "$tier"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
