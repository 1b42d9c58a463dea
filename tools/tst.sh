bash /opt/vp/build.sh >/tmp/b.txt 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(o['passed']), [t for t in b['stable'] if t not in o['passed']])"
