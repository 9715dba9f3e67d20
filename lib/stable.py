import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','stable_passed','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in (True,'passed','pass')}
    return set()
m=passed(b)-passed(o); print(len(passed(b)),len(passed(o)),'missing',m); sys.exit(bool(m))
