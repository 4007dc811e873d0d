#!/bin/bash
# run.sh <property> [quick|thorough]: builds the explorer against /repo's working tree, explores.
# Exit 0: held on everything explored.  Exit 1: violation printed.  Exit 3: the check itself failed.
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export MC_ROOT=$ROOT CARGO_NET_OFFLINE=true
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$ROOT/.build" "$ROOT/evidence" "$ROOT/replay"

# build <name> <features> [features without the stand-ins]: a harness build in .build/<name>
build() {
  local dir=$ROOT/.build/$1 feat=$2 alt=${3-$2} stamp
  mkdir -p "$dir"
  exec 9>"$dir/lock"; flock 9
  stamp=$(cd /repo && cat Cargo.toml build.rs $(find src -type f | LC_ALL=C sort) | sha256sum)
  cd "$ROOT/mc" || return 1
  if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$stamp" ] && [ -d "$dir/release" ]; then
    cargo --config stubs/stubs.toml clean -p tru --release --offline --target-dir "$dir" >/dev/null 2>&1 || rm -rf "$dir/release"
  fi
  if ! cargo --config stubs/stubs.toml build --release --offline --features "$feat" --target-dir "$dir" >"$dir/log" 2>&1; then
    # without the stand-ins for heavy dependencies
    cp Cargo.lock "$dir/Cargo.lock.keep"
    cargo build --release --offline --features "$alt" --target-dir "$dir" >"$dir/log2" 2>&1 || {
      cp "$dir/Cargo.lock.keep" Cargo.lock
      echo "harness error: build failed" >&2
      tail -40 "$dir/log" >&2
      return 1
    }
    cp "$dir/Cargo.lock.keep" Cargo.lock
  fi
  echo "$stamp" >"$dir/stamp"
  cd "$ROOT" || return 1
  exec 9>&-
}

case $ID in
  setup)
    build base "" && build full async-stream,jsmock async-stream,wasm
    exit $? ;;
  C10) PASSES="base full" ;;
  C06|C16|C17|C24|C26) PASSES="full" ;;
  C19)
    PASSES="base"
    export MC_LEVEL=fault_enumeration
    export MC_RULE="every read, write, open and flush-time write of each scenario, as counted on a fault-free run, is given each fault kind (errors, interruption, short transfer), alone and in pairs; a run counts as non-trivial when every planned fault was reached" ;;
  *) PASSES="base" ;;
esac
START=$(date +%s)
for p in $PASSES; do
  if [ "$p" = full ]; then build full async-stream,jsmock async-stream,wasm || exit 3; else build base "" || exit 3; fi
done
export MC_BASE=$ROOT/.build/base/release MC_PROGRESS=$ROOT/.build/progress.$ID
LAST=${PASSES##* }
: >"$MC_PROGRESS"
LIMIT=${MC_LIMIT:-840}
[ "$TIER" = thorough ] && LIMIT=${MC_LIMIT:-20000}
rm -f "$ROOT/evidence/$ID.json"
ulimit -v 25000000
timeout -k 5 "$LIMIT" "$ROOT/.build/$LAST/release/mc" "$ID" "$TIER"
rc=$?
if [ $rc -eq 134 ] || [ $rc -eq 139 ] || [ $rc -eq 132 ] || [ $rc -eq 136 ]; then
  # the explored code took the whole process down (stack overflow, abort)
  f=$ROOT/replay/$ID-crash.json
  printf '{"property":"%s","case":{"crash":"exit status %s"},"observed":"process died while exploring: %s"}\n' \
    "$ID" "$rc" "$(tr -d '"\\\n' <"$MC_PROGRESS")" >"$f"
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"%s","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"evaluations":0,"distinct_nontrivial":0,"rule":"process died","samples":["%s"]},"wall_s":%s,"violations":1}\n' \
    "$ID" "$TIER" "$VERIF_SEED" "${MC_LEVEL:-model_checking}" "$(tr -d '"\\\n' <"$MC_PROGRESS")" $(( $(date +%s) - START )) >"$ROOT/evidence/$ID.json"
  echo "VIOLATION property=$ID replay=$f"
  exit 1
fi
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "harness error: explorer ended with status $rc" >&2; exit 3; }
exit $rc
