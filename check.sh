#!/usr/bin/env bash
# check.sh <property> [quick|thorough] [--case part:n]   builds the harness against /repo's working tree and runs one check
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
mkdir -p "$here/evidence" "$CARGO_TARGET_DIR"
if [ -x "$here/extra/$id.sh" ]; then exec bash "$here/extra/$id.sh" "$tier" "$@"; fi
log=$CARGO_TARGET_DIR/build-$id.log
( cd "$here/harness" && cargo build --offline ) >"$log" 2>&1 || { tail -40 "$log"; echo "the harness does not build"; exit 2; }
VP_DIR="$here" "$CARGO_TARGET_DIR/debug/vp" "$id" "$tier" "$@"
rc=$?
case $rc in
  # the code under test brought the process down (memory fault, abort, stack overflow): a violation of any property
  132|134|135|136|139)
    mkdir -p "$here/evidence/replay"; f="$here/evidence/replay/$id-crash.txt"
    printf 'property %s\nthe process was ended by signal %s while the check ran\nrerun: VERIF_SEED=%s bash %s/check.sh %s %s\n' "$id" $((rc-128)) "${VERIF_SEED:-1}" "$here" "$id" "$tier" >"$f"
    echo "VIOLATION property=$id replay=$f"; exit 1;;
esac
exit $rc
