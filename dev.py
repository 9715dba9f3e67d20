#!/usr/bin/env python3
"""development helper: dev.py t1|t2|t2u|run JOB [key=val in cfg]"""
import sys; import os; d=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[d,d+'/lib']
import runner, registry
m, n = sys.argv[1:3]
for j in registry.JOBS:
    if not (j['name'] == n or (n.endswith('*') and j['name'].startswith(n[:-1]))): continue
    for kv in sys.argv[3:]:
        k, v = kv.split('=', 1)
        if k == 'D': j.setdefault('defs', []).append(v)
        else: j[m[:2]][k] = int(v) if v.isdigit() else v
    if m.startswith('t1'): r = runner.run_t1(j, trace=m == 't1t')
    else: r = runner.run_t2(j, m == 't2u')
    print(j['name'], r.status, 'ok', r.ok, 'fail', len(r.fail), 'unreach', r.unreach, '%.1fs' % r.secs, r.why, 'NOBODY', sorted(set(r.nobody)))
    for f in r.fail[:12]: print('   ', f['name'], '|', f['desc'], '|', f['file'], f['line'], f.get('values', [])[:30] if 'values' in f else runner.drawn_values(f.get('trace'))[:30])
    print(r.cmds[-1] if r.cmds else '')
    if len(r.fail) and 'N' in m:
        for f in r.fail[:2]: print(runner.native(j, f.get('values', []), None)[1])
