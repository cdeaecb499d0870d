#!/bin/bash
# catch.sh <id>[:PROP]...: applies a planted bug, runs its property's quick check (or PROP's), undoes it.
# CATCH_REPO (default /repo) must not be /repo while vcheck runs: its copies see edits made there.
v="$(cd "$(dirname "$0")/.." && pwd)"; export REPO_DIR="${CATCH_REPO:-/repo}"; cd "$REPO_DIR"
export VERIF_SEED=1 VERIF_TIER=quick
for x in "$@"; do
  id="${x%%:*}"; s="$v/seeded/$id"
  p="$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")"
  case "$x" in *:*) p="${x##*:}" ;; esac
  [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$(date +%s); c="$(python3 -c "import json;print(next(c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in json.load(open('$v/MANIFEST.json'))['checks'] if c.get('property',c.get('property_id'))=='$p'))")"
  ( cd "$v" && timeout 900 bash -c "$c" ) >/tmp/c.log 2>&1; r=$?
  git checkout -q -- .
  echo "$id $p: exit $r after $(( $(date +%s) - t )) s; $(grep -c '^VIOLATION' /tmp/c.log) violations: $(grep -m1 '^VIOLATION' /tmp/c.log | cut -c1-200)"
done
