#!/bin/bash
# Exit 0 when everything is as the property demands (cases.json), nonzero otherwise.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t="$(mktemp -d /tmp/demo-XXXXXX)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/kit" "$t/kit" || exit 3
cd "$t/kit" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build --offline -q >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
"$t/target/debug/kit" "$here/cases.json" "$t/scratch"
