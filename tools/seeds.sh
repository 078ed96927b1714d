#!/bin/bash
# Runs the quick check of every planted bug's property (or of those named) on a scratch copy of the
# repository with that bug, next to its tests and its demonstration. No check reads seeded/.
HERE=$(cd "$(dirname "$0")/.." && pwd)
SRC=${HISTBOOK_REPO:-/repo}
cd "$HERE"
for D in ${*:-$(ls seeded)}; do
    D=$(basename "$D")
    W=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a "$SRC" "$W/repo"
    P=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "seeded/$D/meta.json")
    if ! git -C "$W/repo" apply "$HERE/seeded/$D/patch.diff"; then
        echo "$D does not apply"
    else
        T=$(cd "$W/repo" && PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1)
        (cd "$W/repo" && bash "$HERE/seeded/$D/demo.sh" >/dev/null 2>&1); DEMO=$?
        HISTBOOK_REPO=$W/repo ./check.sh "$P" quick > "$W/log" 2>&1; RC=$?
        if [ $RC = 1 ] && grep -q "^VIOLATION property=$P " "$W/log"; then V=caught; else V="missed (exit $RC)"; fi
        echo "$D $P $V; demonstration exits $DEMO; tests: $T"
    fi
    rm -rf "$W"
done
