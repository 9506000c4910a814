"""P20: at most one daemon runs, and a start is never blocked by a dead one."""
from common import *
QUICK = 2500
U = 1000000
MIN = ['ops', 'faults']
CONF2 = CONF.replace('/var/spool/fcron', '/var/spool/fcron2').replace('fcron.pid', 'fcron2.pid').replace('fcron.fifo', 'fcron2.fifo')

def gen(rng, i, tier):
    sc = new_sc(rng, 400, daemon_may_die=True, fs=rng.choice([1, 2, 5, 20]), long=rng.choice([0, 0, 7, 40, 200]), lm=rng.random() < .6, conf2=rng.random() < .15)
    t = 1.
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        a = rng.choice(['start', 'start', 'start', 'burst', 'burst', 'term', 'term', 'kill', 'kill', 'segv', 'crash', 'wait', 'start2', 'hup'])
        if a == 'burst':
            for _ in range(rng.choice([2, 2, 3, 5])): sc['ops'].append(dict(t=round(t, 6), a='start', b=rng.random() < .25)); t += rng.choice([0, 0, .00002, .0002, .001, .3])
        elif a == 'start': sc['ops'].append(dict(t=round(t, 6), a=a, b=rng.random() < .3))
        elif a == 'wait': t += rng.choice([30, 70, 130])
        elif a in ('term', 'kill', 'segv'):
            sc['ops'].append(dict(t=round(t, 6), a=a))
            # a start while the former one is going
            if rng.random() < .7: sc['ops'].append(dict(t=round(t + rng.choice([.00005, .0001, .0003, .0006, .001, .002, .005, .05, 1, 3, 30]), 6), a='start', b=rng.random() < .3))
        elif a == 'crash': sc['ops'].append(dict(t=round(t, 6), a=a, wipe=rng.random() < .6)); t += 2; sc['ops'].append(dict(t=round(t, 6), a='start', b=0))
        elif a == 'start2': sc['ops'].append(dict(t=round(t, 6), a='start', b=0, c2=1)) if sc['conf2'] else None
        else: sc['ops'].append(dict(t=round(t, 6), a=a))
        t += rng.choice([.0005, .01, 1, 4, 4, 9, 66])
    sc['end'] = int(t + rng.choice([60, 130]))
    if rng.random() < .2: sc['faults'].append(['d*', rng.choice(['open', 'flock', 'fstat', 'stat', 'write', 'ftruncate', 'unlink', 'fcntl', 'close'][:7]), rng.randint(1, 40), rng.choice([1, 1, 2]), 'E', rng.choice([4, 5, 24, 28, 12])])
    if rng.random() < .2: sc['faults'].append(['d*', rng.choice(['flock', 'open', 'write', 'ftruncate', 'unlink', 'stat', 'exit', 'close']), rng.randint(1, 30), 1, rng.choice('KkZZ'), rng.choice([50, 1000, 20000, 900000])])
    return sc

def build(sc):
    p = base(sc); p.params['log'] = 1; k = 0
    L = '&mail(no) * * * * * J1\n@mail(no) 35s J2 d%d\n' % sc['long'] if sc['long'] else '&mail(no) * * * * * J1\n'
    p.install(.2, 'alice', L)
    if sc['lm']: p.install(.4, 'bob', '@serial,mail(no) 50s J3 d20\n')
    if sc['conf2']:
        p.b('mkdir', '/var/spool/fcron2', '90', '90', '770'); p.b('write', '/etc/fcron2.conf', '0', '90', '640', esc(CONF2))
        p.run(.6, ['/usr/bin/fcrontab', '-c', '/etc/fcron2.conf', '-'], 'root', stdin='@mail(no) 20s J9\n')
    for o in sc['ops']:
        a, t = o['a'], o['t']
        if a == 'start':
            n = 'd%d' % k if k < 10 else 'd9%d' % k; k += 1; o['n'] = n
            args = ['-l', str(sc['fs'])] + (['-b'] if o['b'] else []) + (['-c', '/etc/fcron2.conf'] if o.get('c2') else [])
            o['tag'] = p.daemon(t, args, name=n)
            p.op(t + 1.5, 'cat', '/var/run/fcron.pid'); o['_f'] = t + 1.5
            o['_ls'] = p.fcrondyn(t + 1.6, 'root', 'ls', name='y%d' % k)
        elif a in ('term', 'kill', 'segv', 'hup'): p.op(t, 'sig', 'daemon', {'term': 15, 'kill': 9, 'segv': 11, 'hup': 1}[a])
        elif a == 'crash':
            p.op(t, 'crash')
            if o['wipe']: p.op(t + .000001, 'wiperun')
    for f in sc['faults']: p.fault(*f)
    return p

def check(sc, tr, R):
    # processes which became the daemon
    P = []
    for e in tr.ev:
        if e['e'] == 'log' and re.match(r'fcron\[\d+\] .* started', e.get('m') or e.get('msg', '')): P.append(Obj(t=e['t'], p=e['p'], pid=int(re.search(r'\[(\d+)\]', e.get('m') or e.get('msg', '')).group(1)), end=None, n=e['n'], by=None))
    first = {}
    for e in tr.ev:
        if e['e'] == 'exit':
            for q in P:
                if q.p == e['p'] and q.end is None and e['n'] > q.n: q.end = e['t']; q.by = e['st']
    for q in P:
        for c in tr.crashes:
            if c >= q.t and (q.end is None or c < q.end): q.end = c; q.by = 'crash'
    two = {o['n'] for o in sc['ops'] if o['a'] == 'start' and o.get('c2')}
    cfg = lambda q: q.p.split('.')[0] in two
    if any(e['p'].split('.')[0] in two for e in tr.faults): return   # its configuration could not be read: it may act as the other one
    forks = [e for e in tr.ev if e['e'] == 'fork']
    P.sort(key=lambda q: q.n)
    for x in P:
        for y in P:
            if y.n <= x.n or cfg(x) != cfg(y): continue
            if x.end is None or x.end > y.t + U: return R.fail('two', 'daemon %s (pid %d) starts while %s (pid %d) is running' % (y.p, y.pid, x.p, x.pid), y.t)
            f = [e for e in forks if e['p'] == x.p and e['n'] > y.n]
            if f: return R.fail('two', 'daemon %s still starts processes after the start of %s' % (x.p, y.p), f[0]['t'])
            R.ok(1, 'pairs of daemons')
    hit = {e['p'].split('.')[0] for e in tr.faults}
    sigs = [o for o in sc['ops'] if o['a'] in ('term', 'kill', 'segv')]
    for o in sc['ops']:
        if o['a'] != 'start': continue
        r = tr.runs.get(o['tag']); t = int(o['t'] * U)
        if r is None: continue
        me = [q for q in P if q.p in (o['n'], o['n'] + '.1')]
        if me: R.ok(1, 'starts'); R.cover('start with -b' if o['b'] else 'start'); continue
        # refused: by which one?
        by = [q for q in P if cfg(q) == bool(o.get('c2')) and q.t < t + U and (q.end is None or q.end >= t)]
        if o['n'] in hit or any(t <= int(s['t'] * U) <= t + U for s in sigs) or any(t <= c <= t + U for c in tr.crashes): continue
        # one which runs for the pid file's lock may itself fail
        peers = [x for x in sc['ops'] if x['a'] == 'start' and x is not o and abs(x['t'] - o['t']) < 1 and x['n'] in hit]
        if not by and not peers and t < tr.T - 2 * U:
            return R.fail('blocked', 'daemon %s started at %.4f s does not run although none is running (status %s): %s' % (o['n'], o['t'], r.st, (r.err or '')[-160:]), t)
        if not o['b'] and r.end is not None and r.st == 0: return R.fail('status', 'daemon %s, refused, exits with status 0' % o['n'], t)
        R.ok(1, 'refused starts')
        if not by: continue
        if any(e['e'] == 'exec' and e['p'].startswith(o['n'] + '.') for e in tr.ev): return R.fail('refused-acts', 'daemon %s, refused, starts processes' % o['n'], t)
        # the running one is as it was
        if len(by) == 1 and by[0].p.split('.')[0] not in hit and by[0].t < t and (by[0].end is None or by[0].end > t + 4 * U) and not o.get('c2') and not any(t - 300 * U < int(s['t'] * U) < t + 3 * U and s['a'] == 'term' for s in sigs):
            f = [e for e in tr.files if e['path'] == '/var/run/fcron.pid' and abs(e['t'] - o['_f'] * U) < 10]
            if any(e.get('data', '').strip() != str(by[0].pid) for e in f): return R.fail('pidfile', 'after the refused start of %s the pid file holds %r; the daemon is %d' % (o['n'], [e.get('data') for e in f], by[0].pid), t)
            ls = tr.runs.get(o['_ls'])
            if ls and ls.end is not None and by[0].t < t - 2 * U and by[0].p.split('.')[0] not in hit and (ls.st or 'J1' not in (ls.out or '')): return R.fail('socket', 'after the refused start of %s fcrondyn gets no answer: %s %r' % (o['n'], ls.st, ls.err), t)
            R.ok(1, 'running daemon undisturbed')
    # each minute at most once, and once while a daemon runs
    off = tr.real(0)
    ran = {}
    for jb in tr.jobs:
        if jb.id == 1: ran.setdefault(tr.real(jb.t) // (60 * U), []).append(jb)
    for m, l in ran.items():
        # one which is killed cannot note what it ran
        if len(l) > 1 and any(q.by not in (0, None) and q.end is not None and q.p == l[0].p.rsplit('.', 2)[0] for q in P): continue
        if len(l) > 1: return R.fail('double', 'J1, due once a minute, is run %d times in one minute by %s' % (len(l), ', '.join(q.p for q in l)), l[1].t)
        R.ok(1, 'runs')
    for q in P:
        if cfg(q): continue
        m = (tr.real(q.t) // U + sc['fs'] + 2) // 60 + 1
        stop = min([q.end if q.end is not None else tr.T] + [int(s['t'] * U) for s in sigs if int(s['t'] * U) >= q.t])
        if q.p.split('.')[0] in hit: continue
        while m * 60 * U - off + 3 * U < stop:
            if m not in ran: return R.fail('silent', 'J1 is not run at the minute %.1f s although %s is running' % ((m * 60 * U - off) / U, q.p), m * 60 * U - off)
            m += 1
