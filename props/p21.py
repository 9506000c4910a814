"""P21: transient faults of system calls never stop the daemon, nor its scheduling once they are over."""
from common import *
QUICK = 6000
THOROUGH = 120000
U = 1000000
MIN = ['faults', 'ops', 'jobs']
# call of the daemon -> errors it may meet (not: failing allocations, on which fcron stops by design)
FA = {'fork': [11, 12], 'pipe': [24, 23], 'open': [24, 23, 5, 12], 'read': [5], 'write': [28, 5], 'rename': [5, 28, 12], 'fsync': [5], 'fdatasync': [5, 28], 'unlink': [5, 30], 'stat': [12, 5], 'fstat': [5], 'loadavg': [22], 'select': [4, 12], 'accept': [24, 23, 103, 4, 12, 105], 'recv': [104, 4, 12], 'send': [32, 104, 11, 4], 'timerfd': [24, 22, 12], 'fchown': [5], 'chmod': [5], 'getdents': [5], 'close': [5, 4], 'sockopt': [12], 'link': [5], 'lseek': [5], 'kill': [1], 'access': [5], 'misc': [12], 'shutdown': [104], 'ftruncate': [5], 'readlink': [5]}
CH = {'fork': [11, 12], 'pipe': [24, 23], 'open': [24, 5, 28], 'write': [28, 5, 32], 'read': [5], 'setuid': [11], 'setgid': [1], 'setgroups': [12, 1], 'execve': [12, 7, 26, 13], 'dup2': [24, 9], 'chdir': [13, 5], 'setpriority': [13], 'close': [5], 'unlink': [5], 'pam': [4, 6]}
KINDS = ['min', 'min', 'out', 'el', 'ser', 'lav', 'long', 'sevmin', 'rnd']

def jl(j):
    n = j['id']; k = j['k']
    return {'min': '&mail(no) * * * * * J%d', 'out': '* * * * * J%d o40', 'el': '@mail(no) 20s J%d', 'ser': '&serial,mail(no) * * * * * J%d', 'lav': '&lavg1(2),mail(no) * * * * * J%d', 'long': '&mail(no) * * * * * J%d d70', 'sevmin': '&exesev,mail(no) * * * * * J%d d75', 'rnd': '@first(25s),serial,lavg15(3) 30s J%d o5', 'v2': '&mail(no) * * * * * J%d'}[k] % n + '\n'

def gen(rng, i, tier):
    sc = new_sc(rng, 0, pm=rng.choice([0, 0, 20000])); n = 0
    for u in rng.sample(['alice', 'bob', 'root', 'carol'], rng.choice([1, 2, 3])):
        for _ in range(rng.choice([1, 2, 4])): n += 1; sc['jobs'].append(dict(id=n, user=u, k=rng.choice(KINDS))); sc['jobs'][-1]['line'] = jl(sc['jobs'][-1]).strip()
    t0 = rng.uniform(40, 60); t1 = t0 + rng.choice([.5, 5, 65, 65, 130, 130, 200, rng.uniform(0, 300)]); sc['t0'], sc['t1'] = round(t0, 3), round(t1, 3)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ch = rng.random() < .3; D = CH if ch else FA; s = rng.choice(sorted(D))
        if not ch and rng.random() < .35: s = rng.choice(['fork', 'pipe', 'open', 'open', 'select', 'accept', 'write', 'rename'])
        if s in ('lseek', 'misc', 'kill', 'access', 'readlink', 'close'): s = rng.choice(['fork', 'open'])
        e = rng.choice(D[s]); cnt = rng.choice([1, 1, 2, 5, 100000, 100000]); frm = rng.choice([1, 1, 1, 2, 3, 5, 10])
        if e in (4, 11, 103) and s in ('select', 'recv', 'accept', 'read', 'write', 'open', 'send'): cnt = min(cnt, 2)
        k = 'E'
        if s == 'write' and rng.random() < .3: k, e = 'S', rng.choice([1, 7, 100])
        sc['faults'].append([('d0.*' if rng.random() < .8 else 'd*') if ch else 'd[0-9]', s, frm, cnt, k, e])
    if rng.random() < .2: sc['disk'] = [rng.choice([0, 0, 100, 2000]), rng.choice([1, 2])]
    if rng.random() < .1: sc['fdlimit'] = rng.choice([4, 5, 6, 7, 8])
    for _ in range(rng.choice([0, 1, 2, 4])):
        t = round(rng.uniform(t0 - 1, t1 + 1), 3); k = rng.choice(['inst', 'inst', 'hup', 'usr1', 'usr2', 'dynls', 'dynls', 'dynrun', 'mass', 'susp', 'rm', 'cont', 'gone'])
        if k == 'inst' and any(o['k'] in ('inst', 'rm') for o in sc['ops']): k = 'hup'
        if k == 'rm' and any(o['k'] in ('inst', 'rm') for o in sc['ops']): k = 'dynls'
        sc['ops'].append(dict(t=t, k=k, u='ali'))
    if any(f[1] == 'read' for f in sc['faults']): sc['ops'] = [o for o in sc['ops'] if o['k'] != 'susp']  # (the read of a timerfd does not fail)
    sc['end'] = int(t1 + 330); sc['save'] = rng.choice([60, 60, 1800]); sc['m'] = rng.choice([1, 1, 3])
    return sc

def build(sc):
    p = base(sc); p.op(0, 'loadavg', .5, .5, .5)
    p.daemon(1, ['-s', str(sc['save']), '-m', str(sc['m'])], name='d0')
    tables(p, 3, sc['jobs'])
    p.install(6, 'ali', '&mail(no) * * * * * J500\n', name='v1')
    for w, s, frm, cnt, k, a in sc['faults']: p.fault(w, s, frm, cnt, k, a, sc['t0'], sc['t1'])
    if sc.get('disk'): p.op(sc['t0'], 'disk', *sc['disk']); p.op(sc['t1'], 'disk', 1 << 40)
    if sc.get('fdlimit'): p.op(sc['t0'], 'fdlimit', sc['fdlimit']); p.op(sc['t1'], 'fdlimit', 1000)
    for q, o in enumerate(sc['ops']):
        t, k = o['t'], o['k']
        if k == 'inst': p.install(t, 'ali', '&mail(no) * * * * * J501\n', name='v2')
        elif k == 'rm': p.fcrontab(t, 'ali', ['-r'], name='v2')
        elif k in ('hup', 'usr1', 'usr2', 'cont'): p.op(t, 'sig', 'daemon', {'hup': 1, 'usr1': 10, 'usr2': 12, 'cont': 18}[k])
        elif k == 'dynls': p.fcrondyn(t, 'root', 'ls', name='y%d' % q)
        elif k == 'dynrun': p.fcrondyn(t, 'root', 'run 1', name='y%d' % q)
        elif k == 'mass':
            for z in range(rng_n(q)): p.fcrondyn(t + z * .01, 'root', 'ls', name='y%dx%d' % (q, z))
        elif k == 'gone': p.run(t, ['/usr/bin/dynraw', '/var/run/fcron.fifo', 's' + struct.pack('<2q', 101, 0).hex()], 'root', name='y%d' % q)
        elif k == 'susp': p.op(t, 'suspend', 7 * U)
    e = sc['t1']
    p.op(e + 1, 'sig', 'daemon', 1) if sc['ops'] else None
    p.fcrondyn(e + (150 if any(o['k'] == 'usr1' for o in sc['ops']) else 20), 'root', 'ls', name='zz0'); sc['ls'] = p.tagn
    p.install(e + 100, 'ali', '&mail(no) * * * * * J502\n', name='v3')
    p.op(sc['end'] - .2, 'probe', 'end')
    return p
def rng_n(q): return 6 + q

def check(sc, tr, R):
    e = int(sc['t1'] * U); off = tr.real(0); end = (sc['end'] - 5) * U
    d = live(tr, tr.T - 1)
    if d is None: return R.fail('daemon', 'the daemon is not running at the end', tr.T)
    real = lambda t: tr.real(t)
    mins = {}
    for jb in tr.jobs: mins.setdefault(jb.id, []).append(jb)
    susp = [o['t'] * U for o in sc['ops'] if o['k'] == 'susp']
    ran = any(o['k'] == 'dynrun' for o in sc['ops']); usr1 = any(o['k'] == 'usr1' for o in sc['ops'])
    def due(a, b): return [m * 60 * U - (tr.real(b) - b) for m in range(-(-(tr.real(b) - b + a) // (60 * U)), (tr.real(b) + 0) // (60 * U))]
    for j in sc['jobs'] + [dict(id=502, user='ali', k='v2')]:
        k = j['k']; rs = sorted(mins.get(j['id'], []), key=lambda x: x.t); R.cover('job ' + k)
        t0 = e + (165 if j['id'] == 502 else 100 if not usr1 else 170) * U
        if k in ('min', 'out', 'ser', 'lav', 'sevmin', 'v2'):
            slack = {'ser': 25, 'lav': 40}.get(k, 5) * U
            for m in due(t0, end - slack):
                n = [x for x in rs if m <= x.t <= m + slack]
                R.ok(1, 'on schedule after the faults')
                if not n: R.fail('lost-after', 'J%d (%s) is not run at its minute after the faults' % (j['id'], k), m); break
        elif k == 'long':
            R.ok(1, 'on schedule after the faults')
            if not [x for x in rs if t0 <= x.t <= end]: R.fail('lost-after', 'J%d (long) is not run any more' % j['id'], end)
        else:
            per = 20 if k == 'el' else 30; sl = 20 if k == 'el' else 65
            ts_ = [x.t for x in rs if x.t > t0 - 40 * U]; R.ok(1, 'on schedule after the faults')
            if len(ts_) < (end - t0) // U // (per + (35 if k == 'rnd' else 1)) - 1: R.fail('lost-after', 'J%d (@ %ds) ran only %d times' % (j['id'], per, len(ts_)), end)
            g = [b - a for a, b in zip(ts_, ts_[1:])]
            if k == 'el' and any(x > (per + 2) * U or x < (per - 2) * U for x in g): R.fail('pace-after', 'J%d (@ %ds): intervals %s' % (j['id'], per, [round(x / 1e6, 1) for x in g]), end)
        # never twice in a minute
        if k in ('min', 'out', 'ser', 'lav', 'sevmin', 'long', 'v2'):
            seen = {}
            for x in rs:
                m = tr.real(x.t) // (60 * U)
                if k in ('ser', 'lav', 'out') or ran and j['id'] : continue
                seen[m] = seen.get(m, 0) + 1; R.ok(1, 'not twice')
                if seen[m] > 1: R.fail('twice', 'J%d ran twice in a minute' % j['id'], x.t); break
        if k == 'ser' and not ran:
            last = None
            for m in due(t0, end - 25 * U):
                if len([x for x in rs if m <= x.t < m + 58 * U]) > 1 and m > t0 + 60 * U: R.fail('twice', 'J%d (serial) ran twice in a minute after the faults' % j['id'], m); break
    # the table replaced during the faults, then signalled again
    if any(o['k'] == 'inst' for o in sc['ops']):
        i = next(r for t, r in tr.runs.items() if r.name == 'v2')
        if i.st == 0 and i.end and i.end < e:
            ms = [m for m in due(e + 30 * U, e + 95 * U)]
            for m in ms:
                n = [x for q in (500, 501) for x in mins.get(q, []) if m <= x.t <= m + 5 * U]
                R.ok(1, 'table of the faults')
                if usr1: continue
                if [x.id for x in n] != [501]: R.fail('table', "ali's new table (J501) should run after the faults: %s ran" % [x.id for x in n], m); break
    for o in mins.get(500, []):
        if o.t > e + 110 * U: R.fail('stale-table', 'J500 of a replaced table is still run', o.t); break
    r = tr.runs.get(sc['ls']); R.ok(1, 'fcrondyn after')
    if r is None or r.end is None or r.st != 0 or 'ID' not in r.out and 'No' not in r.out: R.fail('dyn-after', 'fcrondyn ls fails after the faults: %r %r' % (r and r.out[-200:], r and r.err[-200:]), r and r.t)
    p = [x for x in tr.probes if x.get('label') == 'end'][-1]
    if p.get('zombies'): R.fail('zombies', '%d zombies' % p['zombies'], p['t'])
    for f in set((x.get('sys'), x.get('kind')) for x in tr.faults): R.cover('fault %s:%s' % f)
