#!/bin/sh
# run the repository's tests and compare with the stable list
out=$(mktemp /tmp/stable.XXXXXX)
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
/opt/venv/bin/python - "$out" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return d[k]
    raise SystemExit(list(d))
bs=set(passed(b)); rs=set(passed(r))
print('stable', len(bs), 'passing now', len(rs), 'BROKEN' if bs-rs else 'ok', sorted(bs-rs)[:10])
PY
rm -f "$out"
