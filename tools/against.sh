#!/bin/bash
# development aid: run one property of the harness against another copy of the crate
# usage: against.sh TREE BIN PROP [harness options]
set -e
tree=$1; bin=$2; prop=$3; shift 3
. /opt/vp/env.sh
h=/tmp/against/$(echo "$tree" | tr / _)
mkdir -p "$h"
rm -rf "$h/src"; cp -r ${VW:-/verif}/harness/src "$h/src"
sed "s#path = \"/repo\"#path = \"$tree\"#" ${VW:-/verif}/harness/Cargo.toml > "$h/Cargo.toml"
cp ${VW:-/verif}/harness/Cargo.lock "$h/Cargo.lock"
cd "$h"
CARGO_TARGET_DIR=$h/target cargo build --offline --bin "$bin" >"$h/build.log" 2>&1 || { tail -40 "$h/build.log"; exit 2; }
set +e
mkdir -p /dev/shm/vhdev
timeout 900 "$h/target/debug/$bin" "$prop" --out "$h/out.json" --slots "$h/slots" --scratch /dev/shm/vhdev "$@" >"$h/run.log" 2>&1
rc=$?
echo "rc=$rc $(tail -3 "$h/run.log" | cut -c1-400)"
if [ $rc -ne 0 ]; then tr -s ' \n' ' ' < "$h/slots" | cut -c1-300; echo; fi
exit $rc
