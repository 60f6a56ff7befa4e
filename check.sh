#!/bin/bash
# check.sh PROPERTY [--thorough] [--replay FILE]
# Builds what the property needs from /repo's working tree and decides the property.
# Exit 0: held on everything explored. Exit 1 with a VIOLATION line: violated. 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; shift
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
replay=
while [ $# -gt 0 ]; do
  case $1 in
    --thorough) tier=thorough ;;
    --quick) tier=quick ;;
    --replay) replay=$2; shift ;;
    *) echo "unknown argument $1"; exit 2 ;;
  esac
  shift
done
case $tier in thorough) ;; *) tier=quick ;; esac
case $seed in ''|*[!0-9]*) seed=1 ;; esac
export VERIF_SEED=$seed VERIF_TIER=$tier
. "$here/lib.sh"

preload=
export RUST_BACKTRACE=0
case $prop in
  P0[1-9]|P1[0-7]|P27)
    build_rs || exit 2
    bins=("$build/rs/release/gxcheck")
    # Also as users get the library, without overflow checks.
    if [ "$tier" = thorough ]; then
      build_rs shipped || exit 2
      bins+=("$build/rs/shipped/gxcheck")
    fi
    ;;
  P18|P19|P20|P21|P28)
    build_rs || exit 2
    build_c
    rc=$?
    if [ $rc -eq 3 ] && [ "$prop" = P18 ]; then
      mkdir -p "$here/replays"
      cp "$build/link.log" "$here/replays/P18-link.log"
      printf '{"property":"P18","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"a C program using every function of the header links to the library","samples":[]},"wall_s":0,"violations":1}\n' \
        "$tier" "$seed" > "$here/evidence/P18.json"
      echo "failure: the library lacks functions that its header declares"
      echo "VIOLATION property=P18 replay=$here/replays/P18-link.log"
      exit 1
    fi
    [ $rc -eq 0 ] || exit 2
    bins=("$build/rs/release/gxcheck")
    preload=$build/c/libgxshim.so:$build/c/libgxmem.so
    ;;
  P2[2-6]|P29)
    build_c
    rc=$?
    [ $rc -eq 0 ] || [ $rc -eq 3 ] || exit 2
    if [ -n "$replay" ]; then
      python3-vt "$here/python/gxrun.py" replay "$prop" "$replay"
    else
      python3-vt "$here/python/gxrun.py" run "$prop" --tier "$tier" --seed "$seed"
    fi
    exit $?
    ;;
  *) echo "unknown property $prop"; exit 2 ;;
esac

# A case of the large ones in the unoptimised build.
deep=
case $prop in P0[1-9]|P1[0-5]|P17) deep=$build/deep/debug/gxdeep; build_deep || exit 2 ;; esac
if [ -n "$replay" ] && [ -n "$deep" ] && grep -q '"deep":true' "$replay"; then
  "$deep" replay "$prop" "$replay"
  exit $?
fi

args=(--tier "$tier" --seed "$seed" --evidence "$here/evidence/$prop.json"
      --replays "$here/replays" --scratch "$build/scratch" --corpus "$here/corpus")
for bin in "${bins[@]}"; do
  if [ -n "$replay" ]; then
    env ${preload:+LD_PRELOAD=$preload} "$bin" replay "$prop" "$replay"
  else
    env ${preload:+LD_PRELOAD=$preload} "$bin" run "$prop" "${args[@]}"
  fi
  rc=$?
  [ $rc -eq 0 ] || exit $rc
  [ -n "$replay" ] || cp "$here/evidence/$prop.json" "$build/scratch/$prop.$(basename "$(dirname "$bin")")"
done
[ -z "$replay" ] || exit 0
parts=()
if [ ${#bins[@]} -gt 1 ]; then
  parts+=("without_overflow_checks=$build/scratch/$prop.shipped")
fi
if [ -n "$deep" ]; then
  "$deep" run "$prop" --tier "$tier" --seed "$seed" --evidence "$build/scratch/$prop.deep" --replays "$here/replays"
  rc=$?
  [ -f "$build/scratch/$prop.deep" ] && parts+=("large_cases_unoptimised=$build/scratch/$prop.deep")
else
  rc=0
fi
python3 "$here/tools/merge_evidence.py" "$here/evidence/$prop.json" "$build/scratch/$prop.release" "${parts[@]}" || exit 2
exit $rc
