"""lists the labels (H.reach) of every harness that the last run of its check never reached"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(os.listdir(V + '/evidence')):
    e = json.load(open(V + '/evidence/' + f))
    src = open(V + '/harness/%s.py' % f[:-5].lower()).read()
    want = set(re.findall(r"H\.reach\('([^'%]*)'\)", src))
    got = {}
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('reached', 'labels'):
                    for l in v:
                        got[l] = 1
                walk(v)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(e)
    if want - set(got):
        print(f, sorted(want - set(got)))
