#!/bin/bash
# Builds /repo (or the given root's copy) and checks that all stable tests pass.
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) >/tmp/repo_tests.log 2>&1 || true
python3 - <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
miss=sorted(b-set(o['passed']))
print("stable tests failing:", miss)
sys.exit(1 if miss else 0)
PY
