#!/bin/bash
# RUSTC_WRAPPER: adds sanitizer-coverage callbacks (the simulator's yield points) to the crates
# under test and to the glue that instantiates their generic code; every other crate is untouched.
# The release of memory loses the attribute by which the optimiser may remove it together with the
# allocation: what the source asks of the heap reaches the simulated heap.
rustc="$1"; shift
name=
for ((i=1; i<=$#; i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; fi
done
case "$name" in
  cam_geom|nalgebra|simba|camglue)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      ${SIM_DEALLOC:+-Cllvm-args=-force-remove-attribute=$SIM_DEALLOC:allockind} \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Clto=off -Cembed-bitcode=no -Ccodegen-units=1 ;;
  camsim) exec "$rustc" "$@" -Crelocation-model=static ;;
  *) exec "$rustc" "$@" ;;
esac
