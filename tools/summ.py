#!/usr/bin/env python3
"""summarise the violations of a replay file by construct"""
import json, collections, re, sys
d = json.load(open(sys.argv[1]))
c, ex = collections.Counter(), {}
for o in d['violations']:
    m = re.sub(r' <- .*', '', o['msg'])[:160]
    k = (o['key'].split('/')[0], o['key'].split('/')[-1], re.sub(r'\S*[(_]\S*', '#', m))
    c[k] += 1
    ex.setdefault(k, (o['key'], o['msg'][:300]))
print(d['broken'])
for k, n in c.most_common(40):
    print(n, k, '\n     ', *ex[k])
