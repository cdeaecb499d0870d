#!/bin/bash
# tryseed.sh <id>...: confirms a planted bug: builds, stable tests, demo both ways. TRY_REPO=<worktree> works in that
# copy, shown at /repo in a mount namespace of its own (vcheck's copies see edits made in the real /repo).
v="$(cd "$(dirname "$0")/.." && pwd)"; r="${TRY_REPO:-/repo}"; cd "$r"
inside() {
  if [ "$r" = /repo ]; then bash -c "cd /repo; $1"; else unshare -m bash -c "mount --bind $r /repo; cd /repo; $1"; fi
}
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
for id in "$@"; do
  s="$v/seeded/$id"
  [ -z "$(git status --porcelain)" ] || { echo "$r not clean"; exit 1; }
  inside "bash $s/demo.sh" >"$t/d0.log" 2>&1; a=$?
  git apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  inside "bash /opt/vp/build.sh" >"$t/b.log" 2>&1; b=$?
  inside "bash /opt/vp/test.sh $t/t.json" >"$t/t.log" 2>&1
  p=$(python3 -c "import json;print(len(json.load(open('$t/t.json'))['passed']))")
  inside "bash $s/demo.sh" >"$t/d1.log" 2>&1; c=$?
  git checkout -q -- .
  echo "$id: clean demo=$a build=$b passed=$p patched demo=$c"; [ $a = 0 ] || tail -5 "$t/d0.log"; tail -3 "$t/d1.log" | cut -c1-300
done
[ "$r" != /repo ] || bash /opt/vp/build.sh >"$t/b.log" 2>&1
