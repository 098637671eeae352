#!/usr/bin/env bash
# Warm the build; checks build what they need themselves.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
( cd "$here/harness" && cargo build --offline ) || exit 1
# the AddressSanitizer and Miri builds of C20
python3 "$here/extra/c20.py" setup || true
# the build of C23 with the driver's TLS feature
bash "$here/extra/C23.sh" setup || true
# the build of C24 with async-std in place of tokio
bash "$here/extra/C24.sh" setup || true
