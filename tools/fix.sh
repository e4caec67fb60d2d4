#!/bin/bash
# fix.sh PROPERTY "message" : runs the tests on /repo's working tree, commits as "fix: message" and records it
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
k=[x for x in b if isinstance(b[x],list)]
bs=set(b.get('passed') or b.get('stable') or b.get('tests') or b[k[0]]); os_=set(o['passed'])
missing=sorted(bs-os_)
print(len(bs), len(os_), 'missing', missing)
sys.exit(1 if missing else 0)
P
cd /repo && git commit -qam "fix: $2"
C=$(git rev-parse --short HEAD)
python3 - "$1" "$C" "$2" <<'P'
import json,sys
p='/verif/known_findings.json'
d=json.load(open(p)); d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write("\n")
P
echo committed $C
