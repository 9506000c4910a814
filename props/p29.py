"""P29: no scheduled job is run before the delay of -l has passed since the start; what is due by then is run then."""
from common import *
QUICK = 2500
U = 1000000
MIN = ['ops', 'jobs']

def gen(rng, i, tier):
    sc = new_sc(rng, 400, pm=rng.choice([0, 0, 20000]))
    J = []; j = 1
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.choice(['min', 'min', 'up', 'up', 'reboot', 'boot', 'cal', 'pct', 'serial', 'resume', 'runatreboot', 'strictlavg', 'ser2'])
        J.append(dict(j=j, k=k, u=rng.choice(['alice', 'alice', 'bob', 'root']), n=rng.choice([7, 13, 20, 31, 45, 70, 100]), d=rng.choice([0, 0, 1, 5]))); j += 1
    sc['jobs'] = J
    sc['starts'] = []; t = rng.choice([1., 1.5, 1.99, 1.999])
    for k in range(rng.choice([1, 2, 2, 3])):
        fs = rng.choice([None, 0, 1, 2, 5, 20, 33, 61, 90, 120, 130])
        up = (20 if fs is None else fs) + rng.choice([30, 70, 130, 200])
        early = rng.random() < .15
        if early: up = max(1, (20 if fs is None else fs) - rng.choice([1, 2, .5, 5, 10]))
        sc['starts'].append(dict(t=round(t, 6), fs=fs, up=up, b=False, stop=rng.choice(['term', 'term', 'term', 'crash'] if k else ['term']), m=rng.choice([1, 1, 2, 8])))
        N = 20 if fs is None else fs
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            a = rng.choice(['hup', 'usr1', 'usr2', 'chld', 'cont', 'ls', 'ls', 'run', 'runnow', 'install', 'reinstall', 'rm', 'detail', 'exeq'])
            if early and a in ('run', 'runnow'): a = 'ls'
            sc['ops'].append(dict(t=round(t + .05 + rng.choice([rng.random() * .2, rng.uniform(0, N + 1), rng.uniform(0, N + 1), N - .001, N + .001, N * .5]), 6), a=a, s=k))
        t += up + rng.choice([7, 9, 70, 130])
    sc['end'] = int(t + 1)
    return sc

def line(x):
    n, c = x['n'], 'J%d' % x['j'] + (' d%d' % x['d'] if x['d'] else '')
    return {'min': '&mail(no) * * * * * ' + c, 'up': '@mail(no) %ds ' % n + c,
            'reboot': '@reboot ' + c, 'boot': '&bootrun,mail(no) * * * * * ' + c, 'cal': '&mail(no) */2 * * * * ' + c,
            'pct': '%mail(no) * 3-21 * * * ' + c,
            'serial': '&serial,mail(no) * * * * * ' + c, 'resume': '@resume ' + c, 'runatreboot': '&runatreboot,mail(no) */30 * * * * ' + c,
            'strictlavg': '&lavg1(20),mail(no) * * * * * ' + c, 'ser2': '@serial,mail(no) %ds ' % n + c}[x['k']]

def build(sc):
    p = base(sc); p.params['log'] = 1; p.loadavg = None
    T = {}
    for x in sc['jobs']: T.setdefault(x['u'], []).append(line(x))
    for k, (u, l) in enumerate(sorted(T.items())): p.install(.1 + k * .1, u, '\n'.join(l) + '\n')
    for k, s in enumerate(sc['starts']):
        args = ['-m', str(s['m'])] + (['-l', str(s['fs'])] if s['fs'] is not None else [])
        p.daemon(s['t'], args + (['-b'] if s['b'] else []), name='d%d' % k)
        t = s['t'] + s['up']
        if s['stop'] == 'term': p.op(t, 'sig', 'daemon', 15)
        else: p.op(t, 'crash'); p.op(t + .000001, 'wiperun')
    q = 0
    for o in sc['ops']:
        if o['s'] >= len(sc['starts']): continue
        a, t = o['a'], o['t']; q += 1
        if a in ('hup', 'usr1', 'usr2', 'chld', 'cont'): p.op(t, 'sig', 'daemon', {'hup': 1, 'usr1': 10, 'usr2': 12, 'chld': 17, 'cont': 18}[a])
        elif a in ('ls', 'exeq'): p.fcrondyn(t, 'root', a, name='y%d' % q)
        elif a == 'detail': p.fcrondyn(t, 'root', 'detail 0', name='y%d' % q)
        elif a in ('run', 'runnow'):
            o['_l'] = p.fcrondyn(t, 'root', 'ls', name='y%d' % q); p.fcrondyn(t + .05, 'root', a + ' 0', name='z%d' % q)
        elif a == 'install': p.install(t, 'carol', '&mail(no) * * * * * J9\n&bootrun,mail(no) * * * * * J9\n', name='i%d' % q)
        elif a == 'reinstall':
            u = sorted(T)[0]; p.install(t, u, '\n'.join(T[u]) + '\n', name='i%d' % q)
        elif a == 'rm': p.fcrontab(t, 'carol', ['-r'], name='i%d' % q)
    return p

def check(sc, tr, R):
    asked = [(int(o['t'] * U), parse_ls(tr.runs[o['_l']].out) if o.get('_l') in tr.runs and tr.runs[o['_l']].out else {}) for o in sc['ops'] if o['a'] in ('run', 'runnow') and o['s'] < len(sc['starts'])]
    off = tr.real(0); exempt = set()
    for t, l in asked:
        if 0 in l: exempt.add((l[0], t))
    for k, s in enumerate(sc['starts']):
        nm = 'd%d' % k
        st = [e for e in tr.ev if e['e'] == 'log' and e['p'] in (nm, nm + '.1') and re.match(r'fcron\[\d+\] .* started', e.get('m') or '')]
        if not st: continue
        t0 = st[0]['t']; N = 20 if s['fs'] is None else s['fs']
        first = ((tr.real(t0)) // U + N) * U - off      # whole seconds
        stop = int((s['t'] + s['up']) * U)
        nxt = int(sc['starts'][k + 1]['t'] * U) if k + 1 < len(sc['starts']) else tr.T
        mine = [jb for jb in tr.jobs if t0 <= jb.t < nxt]
        for jb in mine:
            if any(i == jb.id and t <= jb.t <= t + 30 * U + 200 * U for i, t in exempt): continue
            R.ok(1, 'runs not before the delay')
            if jb.t < first: return R.fail('early', 'J%d runs %.3f s after the start, before the delay of %d s' % (jb.id, (jb.t - t0) / U, N), jb.t)
        if mine or stop > first: R.cover('delay %s' % s['fs'])
        if stop < first + 4 * U: continue
        if [o for o in sc['ops'] if o['s'] == k and o['a'] in ('usr1', 'run', 'runnow', 'reinstall') or o['s'] < k and o['a'] == 'runnow']: continue
        # what is due when the delay ends
        due = []; m0 = tr.real(t0) // (60 * U) + 1
        fmin = (first + off) // (60 * U)
        for x in sc['jobs']:
            kk = x['k']; e = None
            if kk in ('min', 'strictlavg') and fmin >= m0: e = (first, 2.5 * U)
            elif kk == 'cal' and fmin >= m0 and (fmin - m0 >= 1 or cal2(fmin, tr)): e = (first, 2.5 * U)
            elif kk == 'up' and k == 0 and x['n'] <= N: e = (first, 2.5 * U)
            elif kk == 'up' and k == 0 and stop > t0 + (x['n'] + 4) * U: e = (t0 + (x['n'] - 1.1) * U, 3.7 * U)
            elif kk == 'reboot' and (k == 0 or sc['starts'][k - 1]['stop'] == 'crash'): e = (first, 2.5 * U)
            if e is None: continue
            got = [jb for jb in mine if jb.id == x['j'] and e[0] <= jb.t <= e[0] + e[1]]
            if x['d'] and any(jb.id == x['j'] and jb.t < t0 and (jb.end is None or jb.end > t0) for jb in tr.jobs): continue
            if not got: return R.fail('lost', 'J%d (%s), due by the end of the delay (%.1f s after the start), does not run then' % (x['j'], line(x), (first - t0) / U), int(e[0]))
            if len({(jb.t + off) // (60 * U) for jb in got}) > 1: continue
            if len(got) > 1: return R.fail('twice', 'J%d (%s) runs %d times at the end of the delay' % (x['j'], line(x), len(got)), int(e[0]))
            R.ok(1, 'due at the end of the delay'); R.cover('due ' + kk)

def cal2(m, tr): return m % 2 == 0
