#!/bin/bash
# mkkit.sh <seed dir>: gives a planted bug the demonstration kit.
set -e
v="$(cd "$(dirname "$0")/.." && pwd)"
d="$1"; mkdir -p "$d/kit/src"
cp "$v/tools/seedkit/Cargo.toml" "$d/kit/"; cp "$v/tools/seedkit/src/main.rs" "$v/harness/src/circom.rs" "$d/kit/src/"
cp -r "$v/harness/circomlib" "$d/kit/"; cp "$v/harness/Cargo.lock" "$d/kit/"
cp "$v/tools/seedkit/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
