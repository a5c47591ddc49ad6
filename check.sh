#!/bin/bash
# usage: check.sh ID [quick|thorough]   (VERIF_TIER or quick if there is no tier)
# builds the driver against /repo's working tree and decides one property
. /verif/env.sh
cd /verif/drv || exit 2
mkdir -p /verif/target /verif/evidence
log=/verif/target/drv-build.$$.log
# cargo goes by times of modification: where the contents are not those of the last build, the package is built anew
now=$(cd /repo && find protospec-build/src protospec-build/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
[ "$now" = "$(cat /verif/target/drv-built 2>/dev/null)" ] || CARGO_TARGET_DIR=/verif/target/drv cargo clean --offline -q -p protospec-build >/dev/null 2>&1
if ! CARGO_TARGET_DIR=/verif/target/drv cargo build --offline -q >"$log" 2>&1; then
  echo "the driver does not build against /repo:"; grep -A8 '^error' "$log" | head -60; rm -f "$log"; exit 2
fi
rm -f "$log"
echo "$now" >/verif/target/drv-built
cd /verif
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
exec /verif/target/drv/debug/drv "$ID" "$TIER" "$@"
