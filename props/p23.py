"""P23: an orderly stop."""
from common import *
QUICK = 10000
U = 1000000
MIN = ['jobs', 'ops', 'faults']

def gen(rng, i, tier):
    once = rng.random() < .25
    sc = new_sc(rng, 400, daemon_may_die=True, once=once, m=rng.choice([1, 1, 1, 2, 3, 8]), fs=rng.choice([0, 1, 3, 20, 20, 45]))
    J = []
    for j in range(1, 1 + rng.choice([1, 2, 4, 6, 10])):
        k = rng.choice(['min', 'min', 'up', 'up', 'first', 'ser', 'ser', 'ser', 'bootmin', 'lavg', 'reboot', 'serup', 'runonce'])
        J.append(dict(j=j, k=k, u=rng.choice(['alice', 'alice', 'bob', 'carol', 'root']), n=rng.choice([25, 31, 47, 70, 110, 200]), d=rng.choice([0, 0, 1, 3, 10, 20, 40, 70, 130]), o=rng.choice([0, 0, 0, 10, 5000])))
    own = not once and rng.random() < .15          # a job which waits behind its own previous run
    if own: sc['m'] = 1; sc['fs'] = rng.choice([0, 1, 3]); J[:] = [dict(j=1, k='ser', u='alice', n=110, d=130, o=0)] + [x for x in J[1:3] if x['k'] in ('min', 'up')]
    sc['jobs'] = J; sc['runs'] = []; t = rng.choice([1., 1.5, 1.99, 21.2])
    for k in range(rng.choice([2, 3, 4, 6])):
        # when to stop: relative to a minute, to the delay, or anywhere
        up = rng.choice([rng.uniform(.05, 3), rng.uniform(3, 90), rng.uniform(60, 400), rng.uniform(3, 90)])
        q = rng.choice(['any', 'any', 'edge', 'edge', 'first'])
        if own: up = rng.choice([rng.uniform(125, 400), 240 + rng.uniform(0, 160)] if k % 2 == 0 else [rng.uniform(290, 420)]); q = 'any'
        s = dict(t=round(t, 6), q=q, dt=round(rng.choice([rng.uniform(-.01, .02), rng.uniform(0, .005), rng.uniform(0, 4)]), 6), up=round(up, 6), extra=[])
        if q == 'edge': s['off'] = 1
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            s['extra'].append([round(rng.choice([0, .00005, .0002, .001, .01, .5, 2, 7, 15, -.0002, -.001, -1, -5]), 6), rng.choice(['term', 'term', 'hup', 'chld', 'usr2', 'ls', 'run', 'usr1', 'install', 'term'])])
        sc['runs'].append(s)
        t = (stop_at(sc, s) if not once else t) + rng.choice([150, 160, 290]) + 5
    sc['end'] = int(t + 320)
    return sc

def line(x):
    c = 'J%d' % x['j'] + (' d%d' % x['d'] if x['d'] else '') + (' o%d' % x['o'] if x['o'] else ''); n = x['n']
    return {'min': '&mail(no) * * * * * ', 'up': '@mail(no) %ds ' % n, 'first': '@mail(no),first(%ds) 100d ' % n, 'ser': ('&serialonce,mail(no) */2 * * * * ' if x['n'] < 100 else '&serial,mail(no) */2 * * * * '), 'bootmin': '&bootrun,mail(no) */2 * * * * ',
            'lavg': '&lavg1(5),until(0),mail(no) */2 * * * * '.replace(',until(0)', ''), 'reboot': '@reboot ', 'serup': '@serial,mail(no) %ds ' % n, 'runonce': '@mail(no),runonce,first(%ds) 60s ' % n}[x['k']] .replace('mail(no)', 'mail(no)' if not x['o'] else 'mail(yes)') + c

def stop_at(sc, s):
    t = s['t'] + s['up']
    if s['q'] == 'edge':     # around a minute
        r = sc['rt'] + t; t += (-r) % 60 + s['dt'] - (sc['rt'] % 1 if 0 else 0)
    elif s['q'] == 'first': t = s['t'] + sc['fs'] + s['dt'] + .5
    return max(t, s['t'] + .02)

def build(sc):
    p = base(sc); p.params['log'] = 1
    T = {}
    for x in sc['jobs']: T.setdefault(x['u'], []).append(line(x))
    for k, (u, l) in enumerate(sorted(T.items())): p.install(.05 + k * .05, u, '\n'.join(l) + '\n')
    q = 0
    for k, s in enumerate(sc['runs']):
        last = k == len(sc['runs']) - 1
        p.daemon(s['t'], ['-m', str(sc['m'])] + (['-o'] if sc['once'] else ['-l', str(sc['fs'])]), name='d%d' % k)
        ts = stop_at(sc, s)
        if not sc['once']:
            p.op(ts, 'sig', 'daemon', 15)
            s['_f'] = ts + 148
        else: s['_f'] = s['t'] + 148
        for dt, a in s['extra']:
            t = (ts if not sc['once'] else s['t'] + 2) + dt; q += 1
            if t <= s['t'] + .01: continue
            if a in ('term', 'hup', 'chld', 'usr1', 'usr2'): p.op(t, 'sig', 'daemon', {'term': 15, 'hup': 1, 'usr1': 10, 'usr2': 12, 'chld': 17}[a])
            elif a == 'ls': p.fcrondyn(t, 'root', 'ls', name='y%d' % q)
            elif a == 'run': p.fcrondyn(t, 'root', 'run 0', name='y%d' % q)
            elif a == 'install': p.install(t, 'ali', '&mail(no) * * * * * J50\n', name='i%d' % q)
        p.op(s['_f'], 'cat', '/var/run/fcron.pid')
    for f in sc['faults']: p.fault(*f)
    return p

def daemons(tr):
    P = []
    for e in tr.ev:
        if e['e'] == 'log' and re.match(r'fcron\[\d+\] .* started', e.get('m') or ''): P.append(Obj(t=e['t'], p=e['p'], n=e['n'], end=None, st=None, en=None, term=None, tn=None, first=None))
        elif e['e'] == 'exit':
            for q in P:
                if q.p == e['p'] and q.end is None: q.end = e['t']; q.st = e['st']; q.en = e['n']
        elif e['e'] == 'log' and e.get('m') == 'SIGTERM signal received':
            for q in P:
                if q.p == e['p'] and q.term is None: q.term = e['t']; q.tn = e['n']
        elif e['e'] == 'log' and 'option once' in (e.get('m') or ''):
            for q in P:
                if q.p == e['p'] and q.term is None: q.term = e['t']; q.tn = e['n']
    return P

def check(sc, tr, R):
    P = daemons(tr); off = tr.real(0); by = {q.p: q for q in P}
    forks = {}
    for e in tr.ev:
        if e['e'] == 'fork': forks[e['p']] = e
    exits = {e['p']: e for e in tr.ev if e['e'] == 'exit'}
    JK = {x['j']: x for x in sc['jobs']}
    for k, s in enumerate(sc['runs']):
        q = by.get('d%d' % k)
        if q is None and any(z.t < s['t'] * U and (z.end is None or z.end > s['t'] * U - U) for z in P): return
        if q is None: return R.fail('no-start', 'daemon d%d did not start' % k, int(s['t'] * U))
        ts = int(stop_at(sc, s) * U)
        ts = min([ts] + [int((ts / U + dt) * U) for dt, a in s['extra'] if a == 'term' and ts / U + dt > s['t'] + .01]) if not sc['once'] else int(s['t'] * U)
        mine = [jb for jb in tr.jobs if jb.p.startswith(q.p + '.')]
        if not sc['once']:
            usr1 = [1 for dt, a in s['extra'] if a == 'usr1' and dt < .5]
            if q.term is None: return R.fail('ignored', 'SIGTERM at %.6f s is not acted on' % (ts / U), ts)
            if q.term > ts + U and not usr1: return R.fail('late', 'SIGTERM is acted on after %.3f s' % ((q.term - ts) / U), ts)
        elif q.term is None:
            # it waits for the serial jobs first
            return R.fail('once', 'the daemon with -o does not come to its end', q.t)
        new = [jb for jb in mine if fork_n(forks, jb) > q.tn]
        if new: return R.fail('starts', 'after it has noticed the signal, the daemon starts J%s' % new[0].id, new[0].t)
        lastk = max([exits[x]['t'] for x in {'.'.join(jb.p.split('.')[:2]) for jb in mine} if x in exits] + [q.term])
        if any('.'.join(jb.p.split('.')[:2]) not in exits for jb in mine): continue
        if q.end is None or q.end > lastk + 2 * U: return R.fail('stays', 'the daemon has not exited 2 s after its last job (%.3f s)' % (lastk / U), lastk)
        if q.end < lastk: return R.fail('leaves', 'the daemon exits at %.3f s while a job is running until %.3f s' % (q.end / U, lastk / U), q.end)
        if q.st != 0: return R.fail('status', 'the daemon exits with status %s' % q.st, q.end)
        for jb in mine:
            if jb.end is None or jb.st != 0: return R.fail('killed', 'J%s ends with status %s' % (jb.id, jb.st), jb.t)
        f = [e for e in tr.files if e['path'] == '/var/run/fcron.pid' and abs(e['t'] - s['_f'] * U) < 10]
        if q.end < s['_f'] * U and f and 'data' in f[0]: return R.fail('pidfile', 'the pid file remains after the stop', q.end)
        R.ok(4, 'stops'); R.cover('stop with %d running' % min(3, len([jb for jb in mine if jb.end > q.term])))
        if q.end > s['t'] * U + 160 * U and k + 1 < len(sc['runs']) and sc['runs'][k + 1]['t'] * U < q.end + U: return
    if any(k and P[k].t < P[k - 1].end for k in range(1, len(P))): return
    asked = any(a == 'run' for s in sc['runs'] for dt, a in s['extra'])
    usr1 = any(a == 'usr1' for s in sc['runs'] for dt, a in s['extra'])
    runs = {}
    for jb in tr.jobs: runs.setdefault(jb.id, []).append(jb)
    D = [by['d%d' % k] for k in range(len(sc['runs']))]
    floor = lambda t: (tr.real(t)) // U * U - off
    def firstx(q): return floor(q.t) + (0 if sc['once'] else sc['fs']) * U
    if asked: return
    for x in sc['jobs']:
        r = runs.get(x['j'], []); kk = x['k']; nm = 'J%d (%s)' % (x['j'], line(x))
        if kk == 'first' or kk == 'runonce':
            if len(r) > 1: return R.fail('again', '%s is run %d times' % (nm, len(r)), r[1].t)
            up = sum(q.term - q.t for q in D[:-1]) if not sc['once'] else 0
            if kk == 'first' and not sc['once'] and not r and D and up > (x['n'] + sc['fs'] + 3 * len(D)) * U and D[-1].term - D[-1].t > (sc['fs'] + 4) * U: return R.fail('forgotten', '%s is never run' % nm, D[-1].term)
            R.ok(1, 'single runs')
        elif kk in ('min',):
            seen = set()
            for jb in r:
                m = (jb.t + off) // (60 * U)
                q = [z for z in D if jb.p.startswith(z.p + '.')][0]
                if m in seen: return R.fail('again', '%s is run twice in a minute' % nm, jb.t)
                seen.add(m)
                due = m * 60 * U - off
                if jb.t > due + int(2.5 * U) and not (firstx(q) <= jb.t <= firstx(q) + 2.5 * U and ((firstx(q) + off) // (60 * U) != (q.t + off) // (60 * U) or sc['once'])) and not (x['d'] and usr1) : return R.fail('out-of-time', '%s is run %.3f s after the minute' % (nm, (jb.t - due) / U), jb.t)
                R.ok(1, 'runs')
            if usr1 or x['d'] > 50: continue
            for q in D:
                m = (q.t + off) // (60 * U) + 1
                while m * 60 * U - off < q.term - 1.2 * U:
                    if m * 60 * U - off >= firstx(q) and m not in seen and not sc['once'] and not any(jb.t < m * 60 * U - off and (jb.end is None or jb.end + U > m * 60 * U - off) for jb in r): return R.fail('missing', '%s is not run at the minute %.1f s' % (nm, (m * 60 * U - off) / U), m * 60 * U - off)
                    m += 1
        elif kk in ('up', 'serup') and not sc['once'] and not usr1:
            # uptime between two runs
            def upt(a, b): return sum(max(0, min(b, q.term) - max(a, q.t)) for q in D)
            for a, b in zip(r, r[1:]):
                u = upt(a.t, b.t); ns = sum(1 for q in D if a.t < q.term <= b.t)
                if kk == 'up' and u < (x['n'] - 1.2 - 1.5 * ns) * U: return R.fail('again', '%s is run again after an uptime of %.2f s' % (nm, u / U), b.t)
                R.ok(1, 'uptimes')
                if kk == 'up' and x['d'] < x['n'] and u > (x['n'] + 2.5 + (sc['fs'] + 2.5) * ns) * U: return R.fail('delayed', '%s is run again only after an uptime of %.2f s' % (nm, u / U), b.t)
            if kk == 'up' and x['d'] < x['n']:
                l = r[-1].t if r else 0
                u = upt(l, tr.T); ns = sum(1 for q in D if l < q.term)
                if u > (x['n'] + 2.5 + (sc['fs'] + 2.5) * ns) * U: return R.fail('forgotten', '%s is not run for an uptime of %.2f s' % (nm, u / U), l)
    # queued at the stop: run after the restart; once each
    ser = [x for x in sc['jobs'] if x['k'] == 'ser']
    if ser and not usr1:
        for k, q in enumerate(D[:-1]):
            z = D[k + 1]
            mm = (q.term + off) // (120 * U) * 120 * U - off         # last due time
            if sc['once'] or mm < firstx(q) + U or mm > q.term - 1.5 * U or mm <= q.t: continue
            tot = sum(x['d'] + 1 for x in sc['jobs'] if x['k'] in ('ser', 'serup', 'bootmin', 'reboot'))
            for x in ser:
                nm = 'J%d (%s)' % (x['j'], line(x))
                ran = [jb for jb in runs.get(x['j'], []) if mm - 0 <= jb.t <= q.term + U and jb.p.startswith(q.p + '.')]
                busy = [jb for jb in runs.get(x['j'], []) if jb.t < mm <= (jb.end or 1e18)]
                after = [jb for jb in runs.get(x['j'], []) if jb.p.startswith(z.p + '.')]
                if not ran and not busy:
                    if z.term > firstx(z) + (tot * 2 + 5) * U and not after: return R.fail('queue-lost', '%s, waiting in the queue when the daemon stopped at %.1f s, is not run after the restart' % (nm, q.term / U), z.t)
                    if after: R.ok(1, 'queued jobs kept'); R.cover('queued at stop')
                elif busy and not ran and 'serialonce' not in nm and len(ser) * ((q.term - q.t) / (120 * U) + 3) < 25:
                    # another run of it is still going on (or went on until a while before): the one which waits is not lost
                    if z.term > firstx(z) + (tot * 2 + 5) * U and not after: return R.fail('queue-lost', '%s, waiting in the queue behind its previous run when the daemon stopped at %.1f s, is not run after the restart' % (nm, q.term / U), z.t)
                    if len([x for x in sc['jobs'] if x['k'] in ('ser', 'serup', 'bootmin', 'reboot', 'lavg')]) == 1 and z.term > firstx(z) + 4 * U and not [jb for jb in after if jb.t < firstx(z) + 3 * U]:
                        return R.fail('queue-lost', '%s, waiting in the queue behind its previous run when the daemon stopped at %.1f s, is not run when it is restarted at %.1f s' % (nm, q.term / U, z.t / U), z.t)
                    if after: R.ok(1, 'queued jobs kept'); R.cover('queued behind itself at stop')
                elif ran and not busy and after and 'serialonce' in nm:
                    a = after[0]
                    # due again only after a due time
                    mz = (z.t + off) // (120 * U) + 1
                    if a.t < mz * 120 * U - off: return R.fail('again', '%s, which was run at %.1f s before the stop, is run again after the restart' % (nm, ran[0].t / U), a.t)
                    R.ok(1, 'queue not repeated')
    if sc['once'] and not any(a == 'term' for s in sc['runs'] for dt, a in s['extra']):
        for k, q in enumerate(D):
            # all that is due at the start
            if k == 0: continue
            for x in sc['jobs']:
                prev = D[k - 1]
                if x['k'] != 'bootmin': continue
                d = (q.t + off) // (120 * U) * 120 * U - off
                if d <= prev.t + U or d > q.t - U: continue
                got = [jb for jb in runs.get(x['j'], []) if jb.p.startswith(q.p + '.')]
                nm = 'J%d (%s)' % (x['j'], line(x))
                if not got: return R.fail('once-missed', '%s, due since %.1f s, is not run by the daemon with -o' % (nm, d / U), q.t)
                if len(got) > 1: return R.fail('again', '%s is run %d times by the daemon with -o' % (nm, len(got)), got[1].t)
                R.ok(1, 'due with -o'); R.cover('due with -o')

def fork_n(forks, jb):
    c = '.'.join(jb.p.split('.')[:2])
    return forks[c]['n'] if c in forks else -1
