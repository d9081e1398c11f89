cd /repo && bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; python3 - <<'E2'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
bp=set(b['stable']); op=set(o['passed'])
print("passed",len(op),"missing",sorted(bp-op)[:20])
E2
git -C /repo status --short | head
