#!/bin/bash
# builds the driver and the runtime library once, offline
. /verif/env.sh
mkdir -p /verif/target /verif/evidence
cd /verif/drv && CARGO_TARGET_DIR=/verif/target/drv cargo build --offline -q || exit 1
bash /verif/check.sh C04 >/dev/null 2>&1
exit 0
