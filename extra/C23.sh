#!/usr/bin/env bash
# C23: the harness with the driver's TLS feature, against mock TLS servers
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/env.sh"
tier=$1; shift
tls=$CARGO_TARGET_DIR/tls
mkdir -p "$tls" "$here/evidence"
( cd "$here/harness" && CARGO_TARGET_DIR=$tls cargo build --offline --features tls ) >"$tls/build.log" 2>&1 || { tail -40 "$tls/build.log"; echo "the harness does not build"; exit 2; }
[ "$tier" = setup ] && exit 0
export VP_CERTS=$tls/certs-$$ SSL_CERT_FILE=$tls/certs-$$/sysca.pem SSL_CERT_DIR=$tls/none
bash "$here/extra/mkcerts.sh" "$VP_CERTS" || { echo "the certificates could not be made"; exit 2; }
VP_DIR="$here" "$tls/debug/vp" C23 "$tier" "$@"
rc=$?
rm -rf "${VP_CERTS:?}"
case $rc in
  132|134|135|136|139)
    mkdir -p "$here/evidence/replay"; f="$here/evidence/replay/C23-crash.txt"
    printf 'property C23\nthe process was ended by signal %s while the check ran\nrerun: VERIF_SEED=%s bash %s/check.sh C23 %s\n' $((rc-128)) "${VERIF_SEED:-1}" "$here" "$tier" >"$f"
    echo "VIOLATION property=C23 replay=$f"; exit 1;;
esac
exit $rc
