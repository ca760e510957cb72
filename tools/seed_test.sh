#!/bin/bash
# usage: seed_test.sh ID...   Confirm a planted change in a scratch copy of /repo:
# applies, keeps the stable tests, demo passes without it and fails with it, and tell what its check says.
V=/verif
for id in "$@"; do
  d=$V/seeded/$id
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$W/repo"
  mkdir "$W/demo"; cp "$d"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
  . /opt/vp/env.sh
  ( cd "$W/repo" && git checkout -q -- . && git apply --check "$d/patch.diff" ) || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  run() { ( cd "$W/repo" && PYTHONPATH="$W/repo/py" timeout 300 bash "$W/demo/demo.sh" > "$W/$1.log" 2>&1; echo $? ); }
  a=$(run clean)
  ( cd "$W/repo" && git apply "$d/patch.diff" )
  b=$(run patched)
  t=$(cd "$W/repo" && PYTHONPATH="$W/repo/py" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 py/redrock/test 2>&1 | tail -1)
  c=$(RRSA_REPO="$W/repo" python3 $V/check.py $p 2>&1); rc=$?
  echo "$id [$p]: demo clean=$a patched=$b | tests: $t | check exit=$rc"
  [ "$a" = 0 ] || tail -3 "$W/clean.log"
  [ -n "$SHOW" ] && { tail -3 "$W/patched.log"; echo "$c" | grep -E "FAILED|UNDECIDED" | head -4; }
  rm -rf "$W"
done
