#!/usr/bin/env python3
"""show.py PROP INDEX [REGEX] [log] [sc] [plan] [seed=N]: compact trace of one run"""
import sys, os, re, json, datetime
T = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [T + '/sim', T + '/props']
import dst, simlib, build, importlib
a = sys.argv[1:]; pid, i = a[0], int(a[1]); rest = a[2:]
opts = [x for x in rest if x in ('log', 'sc', 'plan')]; seed = next((x[5:] for x in rest if x.startswith('seed=')), '1')
pat = next((x for x in rest if x not in opts and not x.startswith('seed=')), '.')
mod = importlib.import_module(pid.lower()); sc = dst._scenario(mod, seed, pid, 'quick', i)
if 'log' in opts: sc.setdefault('params', {})['log'] = 1
txt, ev, tr, R = dst.one(mod, simlib.Sim(build.build()), sc)
def fmt(e):
    k = e['e']; s = '%13.6f %s %-7s %-10s ' % (e['t'] / 1e6, datetime.datetime.fromtimestamp(e.get('r', 0) / 1e6, datetime.timezone.utc).strftime('%m-%d %H:%M:%S'), k, e.get('p', ''))
    if k == 'exec': s += 'pid %d uid %d ' % (e['pid'], e['ruid']) + (' J%s' % e['job'] if 'job' in e else ' '.join(e['argv']))
    elif k == 'exit': s += 'pid %d st %s %s%s' % (e['pid'], e['st'], 'J%s ' % e['job'] if 'job' in e else '', repr((e.get('out', '') + '|' + e.get('err', ''))[-400:]) if e.get('tag') and (e.get('out') or e.get('err')) else '')
    elif k == 'log': s += e['m']
    else: s += ' '.join('%s=%s' % (q, str(v)[:200]) for q, v in e.items() if q not in ('e', 't', 'r', 'n', 'p'))
    return s
for e in ev:
    if e['e'] in ('fork', 'pam', 'D'): continue
    s = fmt(e)
    if re.search(pat, s): print(s[:600])
if 'plan' in opts: print('\n'.join(l for l in txt.splitlines() if not l.startswith(('op -1', 'user', 'group'))))
if 'sc' in opts: print(json.dumps(sc))
for v in R.viol[:10]: print('VIOL', v)
print(R.n, dict(R.cov), R.harness[:3])
