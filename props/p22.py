"""P22: a daemon in steady use accumulates neither descriptors, zombies, memory nor files, and sleeps when idle."""
from common import *
import p21
QUICK = 1500
THOROUGH = 15000
U = 1000000
MIN = ['faults', 'acts', 'jobs']
KEEP = ['&mail(no) * * * * * J%d', '* * * * * J%d o40', '@mail(no) 20s J%d', '&serial,mail(no) * * * * * J%d', '&lavg1(2),mail(no) * * * * * J%d', '@first(25s),serial,lavg15(3) 30s J%d o5', '&runas(bob),mail(no) * * * * * J%d', '&timezone(Asia/Tokyo),mailto(carol) * * * * * J%d e3 x2', '%%hourly * J%d', '&nice(5),forcemail * * * * * J%d', '@lavg5(1),until(20s) 40s J%d', '@volatile,runonce 3d J%d o9', '&exesev,noticenotrun 0 5 * * * J%d', '&erroronlymail * * * * * J%d o900']
TABS = ['&mail(no) * * * * * J500\n', 'A=b\nSHELL=/bin/sh\n!mailto(bob),nice(3)\n* * * * * J500 o9\n@ 30s J500\n', '@runas(bob) 20s J500\n!timezone(America/New_York)\n%daily * 2-4 J501 o2\n', '&bad line\n* * * * * J500\n', '!runas(nosuch)\n* * * * * J500\n', '* * * * * runonlythis J500\n', 'MAILTO=carol\n' + '@ 45s J500\n' * 20, '&serial * * * * * J500 d3\n' * 6, '', 'A=1\nB=2\n' + '\n'.join(l % (510 + q) for q, l in enumerate(KEEP) if 'runas' not in l) + '\n', '!timezone(Asia/Tokyo),mailfrom(x@y),mailto(bob)\n@ 50s J500\n!reset\n%hours * * * * * J501\n* * * * * J1\n', '!mailto(a),mailto(b),timezone(UTC),timezone(Asia/Tokyo),mailfrom(u),mailfrom(v)\n@mailto(c) 25s J500\n']
ACTS = ['inst', 'inst', 'reinst', 'rm', 'hup', 'usr1', 'usr2', 'ls', 'detail', 'run', 'runnow', 'kill', 'renice', 'queue', 'badcmd', 'vanish', 'raw', 'half', 'sit', 'susp', 'clock', 'edit', 'killc', 'passwd', 'passbad', 'lall', 'badnew']

def gen(rng, i, tier):
    n = rng.choice([8, 10, 12, 16]) if tier == 'quick' else rng.choice([10, 16, 24, 40])
    L = rng.choice([120, 120, 180]); sc = new_sc(rng, 10 + n * L, N=n, L=L, acts=[], save=rng.choice([60, 60, 1800]), m=rng.choice([1, 1, 3]), user=rng.choice(['ali', 'ali', 'root', 'bob']), pm=rng.choice([0, 0, 5000]))
    sc['rt'] = sc['rt'] // 60 * 60 + rng.randint(0, 40)
    k = 0
    for u in rng.sample(['alice', 'carol', 'root', 'bob'], rng.choice([1, 2])):
        if u == sc['user']: continue
        for _ in range(rng.choice([1, 2, 4])):
            k += 1; l = rng.choice(KEEP)
            if u != 'root' and 'runas' in l: l = KEEP[0]
            sc['jobs'].append(dict(id=k, user=u, line=l % k))
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        sc['acts'].append(dict(o=round(rng.uniform(5, L - 70), 3), a=rng.choice(ACTS), tb=rng.randrange(len(TABS)), k=rng.choice([1, 1, 2, 6])))
    if not any(a['a'] == 'inst' for a in sc['acts']) or not any(a['a'] == 'rm' for a in sc['acts']):
        sc['acts'].append(dict(o=5., a='inst', tb=rng.randrange(len(TABS)), k=1)); sc['acts'].append(dict(o=L - 66., a='rm', tb=0, k=1))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        ch = rng.random() < .3; D = p21.CH if ch else p21.FA; s = rng.choice(sorted(D))
        if s in ('unlink', 'lseek', 'misc', 'kill', 'access', 'readlink', 'close', 'ftruncate'): s = rng.choice(['fork', 'open'])
        e = rng.choice(D[s]); cnt = rng.choice([1, 1, 2, 1000])
        if e in (4, 11, 103): cnt = min(cnt, 2)
        o = rng.uniform(3, L - 70); w = rng.choice([1, 10, 40, L])
        if s == 'read' and any(a['a'] in ('susp', 'clock') for a in sc['acts']): s, e = 'open', 24
        sc['faults'].append([('d0.*' if rng.random() < .8 else 'd*') if ch else 'd[0-9]', s, rng.choice([1, 1, 2, 3, 5, 10]), cnt, 'E', e, round(o, 3), round(min(o + w, L - 66), 3)])
    return sc

def build(sc):
    p = base(sc); p.op(0, 'loadavg', .5, .5, .5); L = sc['L']; u = sc['user']
    p.daemon(1, ['-s', str(sc['save']), '-m', str(sc['m'])], name='d0')
    tables(p, 3, sc['jobs']); t0 = 10
    for c in range(sc['N']):
        b = t0 + c * L
        for q, a in enumerate(sc['acts']):
            t = b + a['o'] + q * .001; k = a['a']; nm = 'z%dx%d' % (c, q); T = TABS[a['tb']]
            if k == 'inst': p.install(t, u, T, name=nm)
            elif k == 'reinst':
                for z in range(a['k']): p.install(t + z * .05, u, TABS[(a['tb'] + z) % len(TABS)], name=nm + 'x%d' % z)
            elif k == 'rm': p.fcrontab(t, u, ['-r'], name=nm)
            elif k == 'lall': p.fcrontab(t, u, ['-l'], name=nm)
            elif k == 'edit': p.fcrontab(t, u, ['-e'], name=nm, env={'EDITOR': '/usr/bin/ed', 'EDN': '0'})
            elif k in ('hup', 'usr1', 'usr2'):
                for z in range(2 if k == 'usr2' else 1): p.op(t + z, 'sig', 'daemon', {'hup': 1, 'usr1': 10, 'usr2': 12}[k])
            elif k in ('ls', 'detail', 'run', 'runnow', 'kill', 'renice', 'queue', 'badcmd'):
                cmd = dict(ls='ls', detail='detail 0', run='run 0', runnow='runnow 1', kill='kill 15 0', renice='renice 5 0', queue='ls_exeq', badcmd='detail 9999')[k]
                for z in range(a['k'] * 3): p.fcrondyn(t + z * .01, 'root', cmd, name=nm + 'x%d' % z)
            elif k == 'vanish':
                for z in range(a['k'] * 5): p.run(t + z * .01, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 's' + struct.pack('<2q', 101, 0).hex()], 'root', name=nm + 'x%d' % z)
            elif k == 'raw': p.run(t, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 's' + struct.pack('<4q', 999, -5, 1 << 40, 77).hex(), 'd50', 's' + b'\x01\x02\x03'.hex(), 'r4000', 'd20'], 'root', name=nm)
            elif k == 'half': p.run(t, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 's' + b'ali'.hex(), 'd3000'], u, name=nm)
            elif k == 'sit':
                for z in range(a['k'] * 5): p.run(t + z * .01, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 'd20000'], 'alice', name=nm + 'x%d' % z)
            elif k == 'susp': p.op(t, 'suspend', 60 * U)
            elif k == 'clock': p.op(t, 'clock', 90 * U); p.op(t + 8, 'clock', -90 * U)
            elif k == 'killc': p.op(t, 'killall', 'd0.*', 9)
            elif k == 'passwd': p.run(t, ['/usr/bin/fcrondyn', '-x', 'ls'], u, name=nm, stdin='pw-%s\n' % u)
            elif k == 'passbad': p.run(t, ['/usr/bin/fcrondyn', '-x', 'ls'], u, name=nm, stdin='nope\n')
            elif k == 'badnew': p.op(t, 'write', '/var/spool/fcron/new.nosuchuser', '0', '0', '600', 'xx'); p.op(t + .1, 'sig', 'daemon', 1); p.op(t + .5, 'rm', '/var/spool/fcron/new.nosuchuser')
        for w, s, frm, cnt, k, x, o1, o2 in sc['faults']: p.fault(w, s, frm, cnt, k, x, b + o1, b + o2)
        e = b + L - 2
        for x in ('/tmp', '/var/spool/fcron', '/var/run'): p.op(e, 'cat', x)
        p.op(e, 'probe', 'c%d' % c); p.op(e - 6, 'probe', 'a%d' % c)
    return p

def check(sc, tr, R):
    d = live(tr, tr.T - 1)
    if d is None: return R.fail('daemon', 'the daemon is not running at the end', tr.T)
    P = [x for x in tr.probes if x.get('label', '').startswith('c')]; A = [x for x in tr.probes if x.get('label', '').startswith('a')]
    N = len(P); R.ok(N, 'idle daemon')
    run = [(j.t, j.end or 1 << 60) for j in tr.jobs]
    cli = [(r.t, r.end or 1 << 60) for r in tr.runs.values() if r.name.startswith('z')]           # (a client may still be there)
    def idle(t): return not any(a - 100000 <= t <= b + 2000000 for a, b in run) and not any(a - 100000 <= t <= b + 1000000 for a, b in cli)
    for x in P:
        if x['zombies'] > 0 and idle(x['t']): R.fail('zombies', '%d unreaped children of the idle daemon' % x['zombies'], x['t']); break
    Q = [x for x in P if idle(x['t'])]; R.ok(len(Q), 'probes while no job ran')
    if len(Q) >= 4:
        f = Q[0]
        for x in Q[1:]:
            for w in ('fds', 'socks'):
                if x[w] > f[w]: R.fail(w, 'the idle daemon holds %d %s, formerly %d' % (x[w], w, f[w]), x['t']); break
        for w in ('children', 'procs'):
            if Q[-1][w] > f[w] and Q[-1][w] - Q[len(Q) // 2][w] >= (len(Q) - len(Q) // 2 - 1) * .8: R.fail(w, '%s grow: %s' % (w, [x[w] for x in Q]), Q[-1]['t'])
        h = Q[max(2, len(Q) // 3):]; n = len(h) - 1
        R.ok(1, 'memory')
        g = [b['blocks'] - a['blocks'] for a, b in zip(h, h[1:])]
        if n >= 2 and h[-1]['blocks'] - h[0]['blocks'] >= .8 * n and sum(1 for x in g if x > 0) > n * .6: R.fail('memory', 'allocated blocks of the idle daemon grow: %s' % [x['blocks'] for x in Q], Q[-1]['t'])
        g = [b['live'] - a['live'] for a, b in zip(h, h[1:])]
        if n >= 2 and h[-1]['live'] - h[0]['live'] >= 8 * n and sum(1 for x in g if x > 0) > n * .6: R.fail('memory', 'allocated bytes of the idle daemon grow: %s' % [x['live'] for x in Q], Q[-1]['t'])
    for a, b in zip(A, P):
        if not any(x - U <= b['t'] and y + U >= a['t'] for x, y in run):
            R.ok(1, 'sleeps when idle')
            if b['nsys'] - a['nsys'] > 120: R.fail('busy', 'the idle daemon did %d system calls in 6 s' % (b['nsys'] - a['nsys']), b['t']); break
    names = {}
    for f in tr.files:
        if f.get('ents') is None: continue
        n = f['ents'] if isinstance(f['ents'], list) else f['ents'].split(); names.setdefault(f['path'], []).append((f['t'], set(n)))
    for path, l in names.items():
        ok = [(t, n) for t, n in l if idle(t)]
        for t, n in ok:
            R.ok(1, 'no left-over file')
            bad = [x for x in n if x not in ('.', '..') and (path == '/tmp' or x.endswith('.tmp') or x.startswith(('new.', 'add.', 'rm.')))]
            if bad and not sc['faults']: R.fail('files', 'left-over files in %s: %s' % (path, sorted(bad)[:5]), t); break
        if len(ok) > 3 and len(ok[-1][1]) - len(ok[1][1]) >= (len(ok) - 2) * .8: R.fail('files', 'files accumulate in %s: %s' % (path, sorted(ok[-1][1] - ok[1][1])[:6]), ok[-1][0])
    for a in sc['acts']: R.cover('cycle ' + a['a'])
    for f in set((x.get('sys'), x.get('kind')) for x in tr.faults): R.cover('fault %s:%s' % f)
