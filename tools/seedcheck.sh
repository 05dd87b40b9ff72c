#!/bin/bash
# seedcheck.sh ID [notests]: confirm a planted bug in a scratch copy of /repo
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
. /opt/vp/env.sh
export PYTHONPATH=$w/repo/src
cd "$w/repo" || exit 1
git checkout -q -- . 
timeout 300 bash "$w/demo/demo.sh" >"$w/log" 2>&1 && echo "$id clean: ok" || { echo "$id clean: DEMO FAILS"; tail -3 "$w/log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id patch does not apply"; exit 1; }
timeout 300 bash "$w/demo/demo.sh" >"$w/log" 2>&1 && { echo "$id bug: DEMO PASSES"; exit 1; } || { echo "$id bug: demo fails as it should: $(tail -1 $w/log)"; }
if [ "$2" != notests ]; then
  /opt/venv/bin/python -m pytest pytest -q -p no:cacheprovider -n 4 --timeout=600 2>&1 | tail -1
fi
