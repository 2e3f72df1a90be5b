bash /opt/vp/test.sh /tmp/res.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/res.json'))
def ids(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else {a for a,v in x[k].items() if v in ('pass','passed',True)}
print(list(b)[:6], list(r)[:6])
B=ids(b); R=ids(r)
print(len(B),len(R),'missing',sorted(B-R)[:10])
P
