#!/usr/bin/env bash
# C24: the harness with the driver's async_std feature in place of tokio_io
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/env.sh"
tier=$1; shift
dir=$CARGO_TARGET_DIR/astd
mkdir -p "$dir" "$here/evidence"
( cd "$here/harness" && CARGO_TARGET_DIR=$dir cargo build --offline --no-default-features --features async_std ) >"$dir/build.log" 2>&1 || { tail -40 "$dir/build.log"; echo "the harness does not build"; exit 2; }
[ "$tier" = setup ] && exit 0
VP_DIR="$here" "$dir/debug/vp" C24 "$tier" "$@"
rc=$?
case $rc in
  132|134|135|136|139)
    mkdir -p "$here/evidence/replay"; f="$here/evidence/replay/C24-crash.txt"
    printf 'property C24\nthe process was ended by signal %s while the check ran\nrerun: VERIF_SEED=%s bash %s/check.sh C24 %s\n' $((rc-128)) "${VERIF_SEED:-1}" "$here" "$tier" >"$f"
    echo "VIOLATION property=C24 replay=$f"; exit 1;;
esac
exit $rc
